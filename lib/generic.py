"""Exploration of one component: behaviours drawn from <X>Gen, replayed by the driver,
recorded executions validated against <X>Ops by <X>Trace."""
import json, random
from .core import Broken


def explore(w, comp, seed, num, gen, val, decorate=None, corrupt=None, counts=None, chunk=None, depth=5, jobs=8):
    """comp: dict(spec="Index", driver="index"). Returns violations (schedule, trace, event, reason)."""
    rng = random.Random("%s/%s" % (seed, json.dumps(gen, sort_keys=True)))
    steps = int(gen.get("Steps", "30"))
    sch = w.generate(comp["spec"] + "Gen", gen, num, seed, steps * depth + 5, jobs=jobs)
    if decorate:
        for s in sch:
            decorate(s, rng)
    traces = w.replay(comp["driver"], sch, chunk=chunk or max(1, min(40, (num + 7) // 8)))
    fakes = []
    if corrupt:
        for t in rng.sample(traces, min(4, len(traces))):
            if "died" not in t:
                c = corrupt(t, rng)
                if c:
                    fakes.append(c)
    bad = w.validate(comp["spec"] + "Trace", traces + fakes, val)
    w.stats["traces"] -= len(fakes)
    caught = {i for i, _, _ in bad if i >= len(traces)}
    bad = [b for b in bad if b[0] < len(traces)]
    if not bad and len(caught) < len(fakes):
        raise Broken("the specification accepts a falsified execution")
    w.stats["falsified"] = w.stats.get("falsified", 0) + len(fakes)
    for t in traces:
        for e in t["events"]:
            k = "%s:%s" % (e["op"], e["res"])
            w.ops[k] = w.ops.get(k, 0) + 1
    if len(w.samples) < 3:
        w.samples.append([json.dumps(e)[:200] for e in traces[0]["events"][:8]])
    out = []
    for i, l, why in bad:
        ev = traces[i]["events"][l] if l < len(traces[i]["events"]) else {}
        if counts and "died" not in traces[i] and not counts(ev, why, traces[i]["events"][:l]):
            w.notes.append("not counted for this property: " + why)
            continue
        out.append((sch[i], traces[i], l, why))
    return out


def table(comp, base, runs, counts, decorate, corrupt, valkeys, extra=()):
    """A check function from rows (quick, thorough, generator constants, options)."""
    def go(w, tier, seed):
        out = []
        for f in extra:
            f(w, tier)
        for i, (q, t, over, opt) in enumerate(runs):
            total, k = (q if tier == "quick" else t), 0
            g = dict(base, **over)
            while total > 0 and not out:
                n = min(total, 400)
                out += explore(w, comp, seed * 100 + i * 7 + k * 1000003, n, g, {x: g[x] for x in valkeys},
                               **dict(dict(decorate=decorate, corrupt=corrupt, counts=counts), **opt))
                total -= n
                k += 1
            if out:
                break
        return out
    return go
