#!/usr/bin/env python3
"""Decide one property of the crate in /repo from its source: check.py <property> [--repo DIR] [--evidence DIR]"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
import pipeline  # noqa: E402

TRUSTED = [
    "rustc's type checker, monomorphisation and MIR construction (nightly of this sandbox)",
    "the dumping driver in /verif/driver",
    "the abstract interpreter, its fact domain and library models in /verif/engine",
]


def known_findings():
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                prop, key = line[len("known: "):].strip().split(" ", 1)
                out.setdefault(prop.split("=")[1], []).append(key)
    return out


def key(f):
    """identification of a finding that survives unrelated edits: no line numbers"""
    import re
    site = re.sub(r":\d+(:\d+)?", "", f.site)
    return "%s | %s | %s" % (f.cls, site, f.what)


def main():
    args = sys.argv[1:]
    opts = {"--repo": "/repo", "--evidence": os.path.join(HERE, "evidence")}
    for o in opts:
        if o in args:
            i = args.index(o)
            opts[o] = args[i + 1]
            del args[i:i + 2]
    repo = opts["--repo"]
    prop = args[0]
    t0 = time.time()
    ev_dir = opts["--evidence"]
    os.makedirs(ev_dir, exist_ok=True)
    try:
        s, found = pipeline.decide(prop, repo)
    except pipeline.CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    known = known_findings().get(prop, [])
    new = []
    for f in found:
        if key(f) in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, key(f)))
        else:
            new.append(f)
    rs = s.results
    cov = {
        "explanation": pipeline.RULES[prop],
        "obligations": sum(r.obligations for r in rs),
        "discharged": sum(r.discharged for r in rs),
        "analyses": [{"name": r.name, "obligations": r.obligations, "discharged": r.discharged,
                      "abstract_states": r.states, "results_checked": r.returns,
                      "joins_and_cuts": r.cuts, "wall_s": round(r.wall, 2),
                      **{k: getattr(r, k) for k in ("calls", "roots", "selftest", "witnesses")
                         if hasattr(r, k)}} for r in rs],
        "functions_analysed": len(set().union(*[r.fns for r in rs]) if rs else ()),
        "crate_functions": sorted({f for r in rs for f in r.fns if "clarith::" in f}),
        "basic_blocks": len(set().union(*[r.blocks for r in rs]) if rs else ()),
        "stream_read_sites": sorted({x for r in rs for x in r.reads}),
        "trusted_base": TRUSTED,
        "checker_cmd": "python3 check.py %s" % prop,
    }
    ev = {"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"),
          "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov,
          "assumptions": pipeline.ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d functions, %.1f s" % (
        prop, cov["obligations"], cov["discharged"], cov["functions_analysed"], ev["wall_s"]))
    if not new:
        return 0
    rp = os.path.join(ev_dir, prop + ".violation.json")
    with open(rp, "w") as fh:
        json.dump([{"analysis": f.job, "class": f.cls, "site": f.site, "what": f.what,
                    "detail": f.detail, "key": key(f), "path": f.trace} for f in new], fh, indent=1)
    for f in new[:12]:
        print("  %s [%s] %s: %s%s" % (f.job, f.cls, f.site, f.what,
                                      " (%s)" % f.detail if f.detail else ""))
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())
