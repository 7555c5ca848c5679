"""Run the rules of one property over its entry points and decide the verdict."""
import importlib
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context

from .load import Program, AnalysisBroken
from .model import Model
from .flow import Flow

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.json")

_G = {}


class Job:
    """one analysis: a rule over one entry point"""
    def __init__(self, name, make, root, this=None, args=None, setup=None, limit=400000):
        self.name = name; self.make = make; self.root = root
        self.this = this; self.args = args; self.setup = setup; self.limit = limit


class PyJob:
    """a structural rule over the syntax trees: fn(model, ctx) fills ctx.reports / ctx.count"""
    def __init__(self, name, fn):
        self.name = name; self.fn = fn


class Out:
    """what a PyJob fills in"""
    def __init__(self):
        self.reports = []; self.count = {}; self.data = {}; self.fns = set()

    def hit(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n

    def report(self, rule, file, line, fn, msg, tag=None):
        self.reports.append({"rule": rule, "file": file, "line": line, "fn": fn, "msg": msg, "path": {}, "tag": tag})


def _one(i):
    model = _G["model"]
    job = _G["jobs"][i]
    t0 = time.time()
    try:
        if isinstance(job, PyJob):
            o = Out()
            job.fn(model, o)
            return {"job": job.name, "reports": o.reports, "count": o.count, "data": o.data, "fns": sorted(o.fns),
                    "stats": {}, "wall": time.time() - t0}
        rule = job.make()
        rule.m = model
        if not hasattr(rule, "count"):
            rule.count = {}
        if not hasattr(rule, "data"):
            rule.data = {}
        e = Flow(model.p, rule, limit=job.limit)
        e.run(job.root, this=job.this, args=job.args, setup=job.setup)
        if hasattr(rule, "finish"):
            rule.finish(e)
        reps = []
        for r in e.reports.values():
            reps.append({"rule": r.rule, "file": model.p.rel(r.fn.file), "line": r.line, "fn": r.fn.q, "msg": r.msg,
                         "path": r.path, "tag": r.tag, "entry": job.root.q})
        return {"job": job.name, "reports": reps, "count": rule.count, "data": rule.data,
                "fns": sorted(model.p.fns[f].q for f in e.fns_seen), "stats": e.stats, "wall": time.time() - t0}
    except AnalysisBroken as ex:
        return {"job": job.name, "broken": str(ex)}
    except Exception:
        return {"job": job.name, "broken": traceback.format_exc()}


def run_jobs(model, jobs, procs=None):
    procs = procs or int(os.environ.get("LFA_PROCS", "8"))
    _G["model"] = model
    _G["jobs"] = jobs
    if len(jobs) == 1 or procs == 1:
        return [_one(i) for i in range(len(jobs))]
    with get_context("fork").Pool(min(procs, len(jobs))) as pool:
        return pool.map(_one, range(len(jobs)), chunksize=1)


def merge_counts(results):
    c = {}
    for r in results:
        for k, v in r.get("count", {}).items():
            if isinstance(v, (set, frozenset, list)):
                c.setdefault(k, set()).update(v)
            else:
                c[k] = c.get(k, 0) + v
    return c


def load_known():
    try:
        return json.load(open(KNOWN))["findings"]
    except FileNotFoundError:
        return []


def properties():
    d = {}
    for f in sorted(os.listdir(os.path.join(VERIF, "lfa", "rules"))):
        if f.startswith("p_") and f.endswith(".py"):
            mod = importlib.import_module("lfa.rules." + f[:-3])
            for pid, prop in mod.PROPS.items():
                d[pid] = prop
    return d


def decide(pid, prop, model, tier="quick"):
    """returns (violations, known hits, evidence coverage)"""
    jobs = prop.jobs(model, tier)
    results = run_jobs(model, jobs)
    broken = [(r["job"], r["broken"]) for r in results if "broken" in r]
    if broken:
        raise AnalysisBroken("; ".join("%s: %s" % b for b in broken))
    counts = merge_counts(results)
    reports = []
    seen = set()
    for r in results:
        for x in r["reports"]:
            k = (x["rule"], x["fn"], x["line"], x["msg"])
            if k not in seen:
                seen.add(k)
                reports.append(x)
    if hasattr(prop, "finish"):
        for x in prop.finish(model, results, counts) or []:
            reports.append(x)
    for k, lo in prop.minimum.items():
        v = counts.get(k, 0)
        n = len(v) if isinstance(v, set) else v
        if n < lo:
            # a broken instance may itself have removed the site: report violations first
            if not reports:
                raise AnalysisBroken("rule instance count '%s' is %d, below the confirmed minimum %d" % (k, n, lo))
    known = [f for f in load_known() if f.get("property") == pid and f.get("status") == "open"]
    viol, hits = [], {}
    for x in reports:
        f = [f for f in known if f["tag"] == x.get("tag")]
        if f:
            hits[f[0]["tag"]] = (f[0], x)
        else:
            viol.append(x)
    fns = set()
    stats = {}
    for r in results:
        fns.update(r["fns"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    cov = {
        "explanation": prop.rule_text,
        "entry_points": sorted(set(r["job"] for r in results)),
        "functions_analysed": len(fns),
        "functions": sorted(fns),
        "call_contexts": stats.get("contexts", 0),
        "cfg_nodes": stats.get("nodes", 0),
        "dataflow_states": stats.get("states", 0),
        "obligations": {k: (sorted(map(str, v)) if isinstance(v, set) else v) for k, v in sorted(counts.items())},
        "translation_units": model.p.tus,
    }
    return viol, hits, cov


class Prop:
    minimum = {}
    rule_text = ""
    level = "other"

    def jobs(self, model, tier):
        return []


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    t0 = time.time()
    props = properties()
    if pid not in props:
        print("unknown property %s" % pid)
        return 2
    prop = props[pid]
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    try:
        model = Model(Program())
        viol, hits, cov = decide(pid, prop, model, tier)
    except AnalysisBroken as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, ex))
        return 3
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop.level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    ev["assumptions"] = getattr(prop, "assumptions", [])
    json.dump(ev, open(os.path.join(edir, pid + ".json"), "w"), indent=1)
    for tag, (f, x) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + ".json")
        json.dump({"property": pid, "violations": viol}, open(rp, "w"), indent=1)
        for x in viol[:12]:
            print("%s:%s: [%s] in %s: %s" % (x["file"], x["line"], x["rule"], x["fn"], x["msg"]))
            for c in x.get("path", {}).get("calls", []):
                print("    via %s" % c)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s entry points=%d functions=%d contexts=%d nodes=%d" % (
        pid, len(cov["entry_points"]), cov["functions_analysed"], cov["call_contexts"], cov["cfg_nodes"]))
    return 0
