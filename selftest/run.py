#!/usr/bin/env python3
"""Self-test of the checks: every mutation must be reported by the property it breaks, every refactoring must stay quiet.

  run.py [m|r] [name filter] [-p C01,C02] [--build]
Entries live in selftest/c_*.py as  M(name, property, [(file, old, new), ...])  and  R(name, [(file, old, new), ...])."""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = "/repo"
L = "lazyfs/src/lazyfs.cpp"
MAIN = "lazyfs/src/main.cpp"
C = "libs/libpcache/src/cache.cpp"
E = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
P = "libs/libpcache/src/engine/page/page.cpp"
B = "libs/libpcache/src/engine/page/block_offsets.cpp"
D = "libs/libpcache/src/item/data.cpp"
I = "libs/libpcache/src/item/item.cpp"
BI = "libs/libpcache/src/item/block_info.cpp"
CFG = "libs/libpcache/src/config/config.cpp"
MN = MAIN
FA = "libs/libpcache/src/faults.cpp"
CF = CFG
F = "libs/libpcache/src/faults.cpp"
entries = []


def M(name, props, edits):
    entries.append(("m", name, props.split(","), edits))


def R(name, edits):
    entries.append(("r", name, [], edits))


def load():
    for f in sorted(glob.glob(os.path.join(HERE, "c_*.py"))):
        src = open(f).read()
        exec(compile(src, f, "exec"), globals())


def apply(dst, edits):
    for ed in edits:
        if callable(ed[1]):
            p = os.path.join(dst, ed[0])
            s = open(p).read()
            t = ed[1](s)
            if t == s:
                return "function edit of %s changes nothing" % ed[0]
            open(p, "w").write(t)
            continue
        f, old, new = ed[:3]
        n = ed[3] if len(ed) > 3 else None
        p = os.path.join(dst, f)
        s = open(p).read()
        c = s.count(old)
        if c == 0 or (c > 1 and n is None):
            return "edit matches %d times: %s" % (c, old[:60])
        if n is None or n == "all":
            s = s.replace(old, new)
        else:                                  # n-th occurrence (0-based)
            i = -1
            for _ in range(n + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    return None


def one(ent, props, only, build):
    from lfa.load import Program, AnalysisBroken
    from lfa.model import Model
    from lfa.run import decide
    kind, name, want, edits = ent
    dst = tempfile.mkdtemp(prefix="lfst")
    out = []
    try:
        for d in ("lazyfs", "libs"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=shutil.ignore_patterns("build*", "*.o", "unit"))
        err = apply(dst, edits)
        if err:
            return False, ["EDIT " + err]
        ok = True
        try:
            model = Model(Program(dst))
        except AnalysisBroken as ex:
            return False, ["BROKEN model: %s" % str(ex)[-90:].replace("\n", " ")]
        for pid in (only or (want if kind == "m" else sorted(props))):
            if pid not in props:
                continue
            try:
                v, h, c = decide(pid, props[pid], model)
                st = "VIOLATION" if v else "quiet"
                if v and kind == "r":
                    ok = False
                    out += ["%s %s:%s %s" % (pid, x["fn"], x["line"], x["msg"]) for x in v[:3]]
                if v and kind == "m":
                    out.append("%s: %s (%s:%s)" % (pid, v[0]["msg"][:150], v[0]["fn"].split("::")[-1], v[0]["line"]))
                if not v and kind == "m":
                    ok = False
                    out.append("%s missed" % pid)
            except AnalysisBroken as ex:
                ok = False
                out.append("%s BROKEN %s" % (pid, str(ex)[-90:].replace("\n", " ")))
        return ok, out
    finally:
        shutil.rmtree(dst, ignore_errors=True)


def main():
    from lfa.run import properties
    load()
    args = sys.argv[1:]
    kinds = "mr"
    if args and args[0] in ("m", "r"):
        kinds = args.pop(0)
    only = None
    build = False
    flt = []
    while args:
        a = args.pop(0)
        if a == "-p":
            only = args.pop(0).split(",")
        elif a == "-v":
            pass
        elif a == "--build":
            build = True
        else:
            flt.append(a)
    props = properties()
    bad = 0
    n = 0
    t0 = time.time()
    todo = []
    for ent in entries:
        if ent[0] not in kinds or (flt and not any(f in ent[1] for f in flt)):
            continue
        if only and ent[0] == "m" and not (set(only) & set(ent[2])):
            continue
        todo.append((ent, [p for p in only if ent[0] == "r" or p in ent[2]] if only else None))
    os.environ["LFA_PROCS"] = "1"
    from concurrent.futures import ThreadPoolExecutor
    from multiprocessing import get_context

    def go(x):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            import json
            os.close(r)
            res = one(x[0], props, x[1], build)
            with os.fdopen(w, "w") as f:
                json.dump(res, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            d = f.read()
        os.waitpid(pid, 0)
        import json
        return json.loads(d) if d else (False, ["crashed"])
    with ThreadPoolExecutor(8) as ex:
        for (ent, _), (ok, out) in zip(todo, ex.map(go, todo)):
            n += 1
            if not ok:
                bad += 1
            print("%s %s %s" % ("ok  " if ok else "FAIL", ent[0], ent[1]))
            if not ok or "-v" in sys.argv:
                for o in out:
                    print("       " + o)
            sys.stdout.flush()
    print("%d entries, %d failed, %.0f s" % (n, bad, time.time() - t0))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
