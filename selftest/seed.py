#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded from selftest/seeds/<id>.py.

  seed.py ID...       make patch, confirm in a scratch copy (/tmp/lfsc): builds, tests pass, demo 0 without / nonzero with; run the check
  seed.py -c ID...    only run the checks against the patch (LFA_REPO=scratch source copy)

A seed file defines PROP, NEEDS, BREAKS, EDITS [(file, old, new[, nth])], DEMO (python text after 'from lfs import *').
"""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/lfsc"
SEEDS = os.path.join(V, "selftest", "seeds")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run as st_run


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.isdir(SC):
        os.makedirs(SC)
        sh("git clone -q /repo %s/repo && mkdir %s/opt && cp -a /opt/vp/. %s/opt/" % (SC, SC, SC))
        sh("sed -i 's#/repo#%s/repo#g; s#/opt/vp#%s/opt#g' %s/opt/build.sh %s/opt/test.sh %s/opt/nomount/run.py %s/opt/results.py" % ((SC,) * 6))
    sh("cd %s/repo && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD" % SC)


def build():
    r = sh("bash %s/opt/build.sh" % SC)
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    r = sh("bash %s/opt/test.sh %s/out.json" % (SC, SC))
    o = json.load(open(SC + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base.get("stable", base.get("passed", base if isinstance(base, list) else [])))
    return not (want - set(o["passed"])), sorted(want - set(o["passed"]))[:5]


def load(i):
    ns = {k: getattr(st_run, k) for k in dir(st_run) if len(k) <= 4 and k.isupper()}
    exec(open(os.path.join(SEEDS, i + ".py")).read(), ns)
    return ns


def apply(ns):
    for ed in ns["EDITS"]:
        f, old, new = ed[:3]
        p = os.path.join(SC, "repo", f)
        s = open(p).read()
        n = s.count(old)
        if len(ed) > 3:
            nth = ed[3]
            parts = s.split(old)
            assert len(parts) > nth, (f, old, len(parts))
            s = old.join(parts[:nth]) + new + old.join(parts[nth:])
        else:
            assert n == 1, "%s: %d occurrences of %r" % (f, n, old)
            s = s.replace(old, new)
        open(p, "w").write(s)


def original_lines():
    """some removed/changed context line is the original repository's"""
    d = sh("cd %s/repo && git diff -U0" % SC).stdout
    cur = None
    base = {}
    ok = False
    for l in d.splitlines():
        if l.startswith("--- a/"):
            cur = l[6:]
            base[cur] = set(x.strip() for x in sh("cd /repo && git show bf80791:%s" % cur).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() in base[cur]:
            ok = True
    return ok


def demo(d):
    return sh("cd %s/repo && timeout 280 bash %s/demo.sh" % (SC, d))


def check(i, ns, pids):
    res = {}
    for p in pids:
        r = sh("python3 %s/check.py %s" % (V, p), env=dict(os.environ, LFA_REPO=SC + "/repo"), cwd=V)
        res[p] = r.returncode
        if r.returncode:
            print("   ", p, r.returncode, [x for x in r.stdout.splitlines() if ": [" in x or "BROKEN" in x][:2])
    return res


def main():
    args = sys.argv[1:]
    only = "-c" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(f[:-3] for f in os.listdir(SEEDS) if f.endswith(".py"))
    for i in ids:
        ns = load(i)
        d = os.path.join(V, "seeded", i)
        scratch()
        if only:
            apply(ns)
            print(i, check(i, ns, [ns["PROP"]]), flush=True)
            continue
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(V, "selftest", "demo", "lfs.py"), d)
        for n, t in ns.get("FILES", {}).items():
            open(os.path.join(d, n), "w").write(t)
        open(os.path.join(d, "demo.py"), "w").write("from lfs import *\n\n" + ns["DEMO"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 250 python3 -B "$D/demo.py"\n')
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok, out = build()
        assert ok, out
        r = demo(d)
        if r.returncode:
            print(i, "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:]); continue
        apply(ns)
        open(os.path.join(d, "patch.diff"), "w").write(sh("cd %s/repo && git diff" % SC).stdout)
        orig = original_lines()
        ok, out = build()
        if not ok:
            print(i, "DOES NOT BUILD\n", out); continue
        r = demo(d)
        tok, miss = tests()
        res = check(i, ns, [ns["PROP"]])
        print("%-10s %s demo=%s tests=%s original=%s check=%s" % (i, ns["PROP"], "fails" if r.returncode else "PASSES(!)", "ok" if tok else "FAIL %s" % miss, orig, res), flush=True)
        if r.returncode == 0 or "-v" in args:
            print(r.stdout[-800:])
    scratch()


main()
