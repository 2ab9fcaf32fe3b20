#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of FaVe on /repo's current tree. Exit 0: held on everything
explored; 1: violated (with a VIOLATION line); 2: the check could not decide."""
import argparse, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core, known, registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    w = core.Work()
    t0 = time.time()
    try:
        if a.replay:
            vio, lines = registry.replay(w, a.property, json.load(open(a.replay))), []
        else:
            lines, vio = known.run(w, a.property)
            for fn in registry.PROPS[a.property]:
                if vio:
                    break
                vio = vio + fn(w, a.tier, a.seed)
    except core.Broken as e:
        print("BROKEN property=%s: %s" % (a.property, e))
        return 2
    finally:
        w.close()
    for l in lines:
        print(l)
    for n in w.notes:
        print(n)
    evd = os.path.join(core.VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    if not a.replay:
        cov = {"states": w.stats["states"], "transitions": w.stats["transitions"],
               "traces_validated_against_impl": w.stats["traces"], "events_checked": w.stats["events"],
               "model_states": w.stats["mc_states"], "falsified_traces_rejected": w.stats.get("falsified", 0),
               "answers_by_operation": w.ops, "notes": w.notes, "samples": w.samples[:3]}
        json.dump({"property": a.property, "tier": a.tier, "seed": a.seed, "level": "model_checking", "wall_s": round(time.time() - t0, 1),
                   "violations": len(vio), "coverage": cov, "assumptions": registry.ASSUMPTIONS.get(a.property, registry.COMMON)},
                  open(os.path.join(evd, a.property + ".json"), "w"), indent=1)
    if vio:
        s, t, l, why = vio[0]
        path = os.path.join(evd, "replay-%s.json" % a.property)
        json.dump({"property": a.property, "reason": why, "event": l, "schedule": s, "trace": t}, open(path, "w"), indent=1)
        ev = t["events"][l] if isinstance(t, dict) and l < len(t.get("events", [])) else {}
        print("rejected: %s (%d rejected in all); event %d: %s" % (why, len(vio), l, json.dumps(ev)[:600]))
        if os.environ.get("VERIF_ALL"):
            for s, t, l, why in vio:
                e = t["events"][l] if l < len(t.get("events", [])) else {}
                print("  also:", why, {k: e.get(k) for k in ("op", "coll", "res", "msg", "rfault", "reads", "wfault", "limit")})
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    print("property %s held on everything explored (%.0f s)" % (a.property, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
