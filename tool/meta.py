#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (the prose lives in one place)."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

LFS = "lazyfs/src/lazyfs.cpp"
MAINF = "lazyfs/src/main.cpp"
CACHE = "libs/libpcache/src/cache.cpp"
ENGINE = "libs/libpcache/src/engine/backends/custom/custom_cache.cpp"
PAGE = "libs/libpcache/src/engine/page/page.cpp"
BLOCK = "libs/libpcache/src/engine/page/block_offsets.cpp"
ITEM = "libs/libpcache/src/item/item.cpp"
BINFO = "libs/libpcache/src/item/block_info.cpp"
CONFIG = "libs/libpcache/src/config/config.cpp"
DATA = "libs/libpcache/src/item/data.cpp"
FAULTS = "libs/libpcache/src/faults.cpp"

P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}, technique=technique, note=note))


NA = []


def na(pid, title, statement, over, qtext, why, files, mechanism, reason):
    prop(pid, title, statement, over, qtext, why, files, mechanism, None, None)
    NA.append({"property": pid, "reason": reason})


exec(open(os.path.join(V, "tool", "props.py")).read())

if __name__ == "__main__":
    from lfa.run import properties
    have = properties()
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            if p["technique"] and p["id"] not in have:
                print("no rule yet:", p["id"])
                continue
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    checks = []
    for p in P:
        if p["technique"] and p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
    for i in have:
        if i not in [p["id"] for p in P]:
            print("rule without text:", i)
    m = {"version": 1, "setup_cmd": "python3 -c \"from lfa.load import extractor; extractor()\"", "checks": checks, "not_applicable": sorted(NA, key=lambda x: x["property"]),
         "notes": "Every check re-extracts the syntax trees of /repo's current working tree with the libTooling extractor in tool/ and "
                  "analyses them; nothing of /repo is compiled to code or run. Known findings: known-findings.json. Selftest: selftest/run.py."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(NA), "not applicable")
