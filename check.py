#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of /repo's current working tree by static analysis and writes evidence/<PROPERTY>.json.
exit 0: held (known findings are printed); exit 1: VIOLATION line; anything else: the analysis itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))


def known():
    """known-findings.txt: 'property=<id> <key> :: <what fails>' lines; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("property="):
                head, _, what = l.partition(" :: ")
                pid, _, key = head[len("property="):].partition(" ")
                out.setdefault(pid, {})[key.strip()] = what.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    import registry
    from ir import AnalysisBroken
    try:
        fn = registry.find(a.property)
        res = fn(a.property, tier)
        res.finish()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    kn = known().get(a.property, {})
    new = []
    for f in res.findings:
        if f.key in kn:
            print("KNOWN-FINDING: property=%s %s -- %s" % (a.property, f.key, kn[f.key]))
        else:
            new.append(f)
    ev = {"property": a.property, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": res.level, "coverage": res.coverage(), "assumptions": res.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    out = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, a.property + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    for f in new:
        h = hashlib.sha1(f.key.encode()).hexdigest()[:10]
        d = os.path.join(out, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.txt" % (a.property, h))
        with open(path, "w") as fh:
            fh.write("property: %s\nrule: %s\nwhere: %s\nkey: %s\n\n%s\n\nre-run: cd /verif && python3 check.py %s\n" % (
                a.property, f.rule, f.where, f.key, f.text, a.property))
        print("%s: [%s] %s" % (f.where, f.rule, f.text))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    print("property=%s tier=%s obligations=%s violations=%d known=%d wall=%.1fs" % (
        a.property, tier, res.total(), len(new), len(res.findings) - len(new), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.stdout.flush()
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
