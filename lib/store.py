"""Checks of the document store: behaviours drawn from StoreGen are replayed into the real
client (or the REST server), and the recorded executions validated against StoreOps."""
import copy, json, random

BASE = dict(N="81", Tol="2", Exact="60", Recall="90")
GEN = dict(BASE, Steps="25", Colls='{"c1","c2","books"}', MaxBatch="5", MinBatch="1", IdPool="12", MaxNodes="58",
           TextShare="35", BadShare="0", Scripts='{<<"create">>}', Limits="<<0,0,0,0,1,2,3,5,10,100>>", FreeTitles="FALSE", ListGets="FALSE", Wide="FALSE", Audit="1", Dims="{}")

SOUND = {"a hit is not a current document of the collection with its own properties and distance", "a document is returned twice",
         "hits are not in order of distance", "a hit is farther away than asked for", "more hits than asked for"}
COMPLETE = {"a document within the distance is missing", "a nearer document was left out", "a search found too few of the nearest documents"}


# names that differ only by case, blanks or the store's own prefix, and ones that mean something to a URL
ODD = '{"c1","C1","fave_c1","ave"," c1","c1 ","x y/z","a?b=1&c#d","%41"}'


def mix(**k):
    return "<<" + ",".join('"%s"' % op for op, n in k.items() for _ in range(n)) + ">>"


def decorate(schedules, rng, http=False, plain=False):
    """How the abstract values are carried over to the code; no part of the behaviour."""
    for s in schedules:
        s["lift"] = 0 if plain else rng.choice([0, 0, 4, 5, 8, 16, 31, 64, 100, 300])
        s["num"] = rng.choice([0, 1, 2, 3])
        s["rich"] = rng.choice([True, False])
        if http:
            s["mode"] = "http"
    return schedules


def corrupt(trace, rng):
    """A recorded execution with one answer falsified; the specification has to reject it."""
    t = copy.deepcopy(trace)
    cand = [e for e in t["events"] if e.get("res") == "ok" and (e["op"] == "list" or e.get("hits") or e["op"] == "get")]
    if not cand:
        return None
    e = rng.choice(cand)
    if e["op"] == "list":
        e["colls"] = e["colls"] + [{"name": "ghost", "idx": {"id": "string"}}]
    elif e["op"] == "get":
        e["p"] = dict(e["p"], forged=1)
    else:
        h = rng.choice(e["hits"])
        if rng.random() < .5:
            h["d"] += 4000
        else:
            h["p"] = dict(h["p"], forged=1)
    return t


def parallelise(schedules, rng, prelude=6, body=34):
    """Turn stretches of a behaviour into concurrent threads of requests."""
    for x in schedules:
        evs = x["events"]
        out, mid, tail = evs[:prelude], evs[prelude:prelude + body], evs[prelude + body:]
        while mid:
            k = rng.randint(4, 9)
            seg, mid = mid[:k], mid[k:]
            th = [[] for _ in range(rng.randint(2, 4))]
            out += [e for e in seg if e["op"] == "restart"][:1]
            for e in seg:
                if e["op"] != "restart":
                    rng.choice(th).append(e)
            out.append(dict(op="par", threads=[y for y in th if y], jitter=rng.randint(1, 10**6)))
            if rng.random() < .4:
                out.append(dict(op="list"))
        x["events"] = out + tail
    return schedules


def sweep(schedules, field):
    """Every schedule once for each write of its batch at which the storage may fail or the process be killed."""
    out = []
    for x in schedules:
        i = next(i for i, e in enumerate(x["events"]) if e.get(field))
        for k in range(1, 12 + 8 * len(x["events"][i]["docs"])):
            y = dict(x, events=list(x["events"]))
            y["events"][i] = dict(x["events"][i], **{field: k})
            out.append(y)
    return out


def explore(w, seed, num, over, http=False, parallel=False, counts=None, chunk=None, plain=False, race=False, selfcheck=True, every=None):
    """One batch; returns violations as (schedule, trace, event index, reason)."""
    rng = random.Random("%s/%s" % (seed, json.dumps(over, sort_keys=True)))
    g = dict(GEN, **over)
    sch = w.generate("StoreGen", g, num, seed, int(g["Steps"]) + 5, jobs=8)
    decorate(sch, rng, http, plain)
    if every:
        sch = sweep(sch, every)
    if parallel:
        parallelise(sch, rng, body=int(g["Steps"]) - 6)
    traces = w.replay("store", sch, http=http, race=race, chunk=chunk or max(1, min(12, (num + 7) // 8)))
    if parallel:
        bad = w.validate_lin("StoreLin", traces, BASE)
    else:
        fakes = []
        if selfcheck:
            fakes = [c for c in (corrupt(t, rng) for t in rng.sample(traces, min(4, len(traces))) if "died" not in t) if c]
        bad = w.validate("StoreTrace", traces + fakes, BASE)
        w.stats["traces"] -= len(fakes)
        caught = {i for i, _, _ in bad if i >= len(traces)}
        bad = [b for b in bad if b[0] < len(traces)]
        if not bad and len(caught) < len(fakes):
            from .core import Broken
            raise Broken("the specification accepts a falsified execution")
        w.stats["falsified"] = w.stats.get("falsified", 0) + len(fakes)
    for t in traces:
        for e in t["events"]:
            k = "%s:%s" % (e["op"], e["res"])
            w.ops[k] = w.ops.get(k, 0) + 1
    if not w.samples:
        w.samples.append([{k: v for k, v in e.items() if k in ("op", "coll", "res", "limit", "max", "field", "val", "props")} for e in traces[0]["events"][:12]])
    out = []
    for i, l, why in bad:
        ev = traces[i]["events"][l] if l < len(traces[i]["events"]) else {}
        if counts and "died" not in traces[i] and not counts(ev, why, traces[i]["events"][:l]):
            w.notes.append("not counted for this property: " + why)
            continue
        out.append((sch[i], traces[i], l, why))
    return out


def search_only(reasons):
    return lambda e, why, before: e.get("op") == "search" and (why in reasons or "panic" in why or why == "a valid request failed")


def after_restart(e, why, before):
    return any(x["op"] == "restart" for x in before) or e.get("op") == "restart"


# property -> list of (quick number, thorough number, generator constants, options)
GROW = mix(add=6, searchv=3, searcht=1, get=2)
RUNS = {
    "P01": (None, [
        (64, 900, dict(Mix=mix(create=1, add=6, get=3, searchv=2, restart=2, list=1), Audit="2", Steps="20"), {}),
        (32, 300, dict(Mix=mix(add=4, get=3, searchv=2), MaxBatch="20", IdPool="200", Steps="12", Audit="2"), {}),
        (4, 40, dict(Mix=mix(add=3, searchv=1, restart=1), MaxBatch="120", MinBatch="60", IdPool="5000", MaxNodes="500", Steps="9", Audit="2", Wide="TRUE", Colls='{"c1"}'), dict(chunk=1))]),
    "P02": (search_only(SOUND), [
        (96, 1400, dict(Mix=mix(create=1, add=6, searchv=8, searcht=3, restart=1)), {}),
        (6, 60, dict(Mix=mix(add=3, searchv=4), MaxBatch="150", MinBatch="50", IdPool="900", MaxNodes="700", Steps="14", Wide="TRUE", Colls='{"c1"}', TextShare="0"), dict(chunk=1)),
        (4, 50, dict(Mix=mix(add=3, searchv=4), MaxBatch="100", MinBatch="50", IdPool="900", MaxNodes="400", Steps="14", Colls='{"c1"}', TextShare="0"), dict(chunk=1))]),
    "P03": (search_only(COMPLETE), [
        (80, 1200, dict(Mix=mix(add=6, searchv=8, searcht=2, restart=1), Colls='{"c1","c2"}', MaxBatch="8"), {}),
        (40, 500, dict(Mix=mix(add=5, searchv=8), Colls='{"c1"}', MaxBatch="20", MinBatch="8", IdPool="300", Steps="16"), {})]),
    "P04": (after_restart, [
        (80, 1200, dict(Mix=mix(create=2, delete=1, add=6, searchv=3, searcht=1, get=3, restart=5, list=1), Audit="2"), {}),
        (40, 500, dict(Mix=mix(add=5, searchv=2, restart=3, get=1), MaxBatch="12", MinBatch="4", IdPool="100", Colls='{"c1"}', Audit="2", Steps="18"), {}),
        (4, 40, dict(Mix=mix(add=3, searchv=2, restart=2), MaxBatch="120", MinBatch="60", IdPool="5000", MaxNodes="500", Steps="12", Wide="TRUE", Audit="2", Colls='{"c1"}', TextShare="0"), dict(chunk=1))]),
    "P05": (None, [
        (110, 1600, dict(Mix=mix(add=8, vadd=1, searchv=2, get=2, restart=1, list=1), BadShare="60", TextShare="50", Audit="2"), {}),
        (30, 400, dict(Mix=mix(create=1, add=8, searchv=2, restart=1), BadShare="60", TextShare="50", Dims="{2,3,4}", Colls='{"c1","c2"}', Audit="2"), {})]),
    "P06": (None, [
        (100, 1500, dict(Mix=mix(add=5, wadd=3, searchv=3, get=2), IdPool="40", Steps="22", Audit="1"), {}),
        (50, 700, dict(Mix=mix(add=4, wadd=2, searchv=2, get=2, restart=1), IdPool="40", Steps="22", Audit="2"), {}),
        (10, 120, dict(Mix=mix(add=2, searchv=2, get=2, restart=1), Scripts='{<<"create","add","wadd","restart","add","searchv">>,<<"create","wadd","restart","add","add","searchv">>,<<"create","add","wadd","add","restart","add","searchv">>}', Colls='{"c1"}', MinBatch="2", MaxBatch="3", IdPool="40", Steps="10", TextShare="10", Audit="2"), dict(every="wfault"))]),
    "P26": (None, [
        (60, 900, dict(Mix=mix(add=4, cadd=3, searchv=2, get=1), IdPool="40", Steps="22", Audit="2"), {}),
        (8, 100, dict(Mix=mix(add=2, searchv=2, get=2, cadd=1), Scripts='{<<"create","add","cadd","add","searchv">>,<<"create","cadd","add","searchv","restart","add">>,<<"create","add","cadd","cadd","add","searchv">>}', Colls='{"c1"}', MaxBatch="3", IdPool="40", Steps="10", TextShare="10", Audit="2"), dict(every="crash")),
        (2, 20, dict(Mix=mix(add=3, cadd=2, searchv=2), MaxBatch="120", MinBatch="60", IdPool="5000", MaxNodes="500", Steps="9", Audit="2", Wide="TRUE", Colls='{"c1"}', TextShare="0"), dict(chunk=1))]),
    "P07": (None, [
        (100, 1500, dict(Mix=mix(create=3, delete=2, add=8, searchv=4, searcht=1, get=4, restart=1, list=1), Colls='{"c1","c2","cx","books","book"}', IdPool="6", Steps="32", Audit="2", Dims="{2,3,4}", TextShare="20"), {}),
        (40, 600, dict(Mix=mix(create=4, delete=1, add=6, searchv=3, get=3, restart=1, list=1), Colls=ODD, IdPool="6", Steps="36", Audit="2", TextShare="20"), {})]),
    "P08": (None, [
        (110, 1600, dict(Mix=mix(create=6, delete=4, add=3, list=4, searchv=1, get=1, restart=3), Colls='{"c1","c2","books","book"}', Steps="28", Audit="2", IdPool="8", Dims="{2,3,4}", TextShare="20"), {}),
        (50, 700, dict(Mix=mix(create=6, delete=3, add=3, list=4, searchv=1, get=1, restart=3), Colls=ODD, Steps="34", Audit="2", IdPool="8", TextShare="20"), {})]),
    "P09": (lambda e, why, before: e.get("op") in ("get", "add"), [
        (70, 1000, dict(ListGets="TRUE", Mix=mix(add=4, get=10, restart=1), Audit="1", Steps="30"), {}),
        (50, 700, dict(ListGets="TRUE", Mix=mix(add=4, get=10, restart=1), IdPool="4000", FreeTitles="TRUE", Steps="30"), {})]),
    "P10": (None, [
        (110, 1600, dict(Mix=mix(add=8, searchv=4, get=4, restart=1), Colls='{"c1","c2"}', IdPool="5", MaxBatch="4", Audit="2"), {})]),
    "P11": (None, [
        (120, 1500, dict(Mix=mix(create=1, delete=1, list=1, add=5, searchv=2, searcht=1, get=2), Steps="40", BadShare="20", Colls='{"c1","c2"}', MaxBatch="4", IdPool="10", Audit="2"), dict(parallel=True)),
        (60, 700, dict(Mix=mix(add=5, searchv=3, get=2, restart=1), Steps="30", Colls='{"c1"}', MaxBatch="3", IdPool="30", Audit="2"), dict(parallel=True)),
        (24, 400, dict(Mix=mix(create=1, delete=1, list=1, restart=2, add=5, searchv=3, searcht=1, get=2), Steps="34", Colls='{"c1","c2"}', MaxBatch="4", IdPool="30", Audit="2"), dict(parallel=True, race=True))]),
    "P12": (None, [
        (110, 1600, dict(Mix=mix(add=6, vadd=2, searcht=6, vsearch=2, get=1, restart=1), TextShare="80", Audit="1"), {})]),
    "P13": (None, [
        (90, 1000, dict(ListGets="TRUE", Mix=mix(create=2, delete=1, restart=1, list=2, add=5, vadd=1, searchv=3, searcht=2, vsearch=1, get=3, raw=5), BadShare="25", Audit="2"), dict(http=True)),
        (24, 400, dict(Mix=mix(create=5, delete=2, list=3, add=4, searchv=2, get=2, restart=1), Colls=ODD, Steps="32", Audit="2"), dict(http=True))]),
    "P24": (search_only(COMPLETE), [
        (8, 60, dict(Mix=mix(add=4, searchv=4, restart=1), MaxBatch="120", MinBatch="80", IdPool="5000", MaxNodes="780", Steps="14", Wide="TRUE", Colls='{"c1"}', TextShare="0"), dict(chunk=1)),
        (4, 30, dict(Mix=mix(add=4, searchv=4, restart=1), MaxBatch="100", MinBatch="60", IdPool="5000", MaxNodes="500", Steps="14", Colls='{"c1"}', TextShare="10"), dict(chunk=1)),
        (2, 16, dict(Mix=mix(add=6, searchv=3, restart=1), MaxBatch="300", MinBatch="250", IdPool="5000", MaxNodes="1600", Steps="10", Wide="TRUE", Colls='{"c1"}', TextShare="0"), dict(chunk=1)),
        (2, 16, dict(Mix=mix(add=7, searchv=4), MaxBatch="200", MinBatch="150", IdPool="25", MaxNodes="1500", Steps="14", Wide="TRUE", Colls='{"c1"}', TextShare="0", Limits="<<25,100>>"), dict(chunk=1))]),
}


# property -> design models: (quick constants, thorough constants, faulty designs that must be found out)
IMPL = dict(BASE, Threads='{"t1"}', Names='{"a"}', Ids='{"d1","d2"}', Batches="2", MaxBatch="1", Faults="0", Crashes="0", Deletes="0", Bug='"none"')
DESIGN = {
    "P04": (dict(Crashes="1", MaxBatch="2"), dict(Crashes="2", MaxBatch="2", Batches="3", Ids='{"d1"}'), ["nocommit"]),
    "P06": (dict(Faults="1", MaxBatch="2"), dict(Faults="2", MaxBatch="2", Crashes="1"), ["storedcount", "skipflush", "lostcount", "swallow"]),
    "P08": (dict(Deletes="1", Crashes="1", MaxBatch="2"), dict(Deletes="2", Crashes="1", MaxBatch="2"), ["volatiledelete"]),
    "P11": (dict(Threads='{"t1","t2"}', MaxBatch="2"), dict(Threads='{"t1","t2"}', MaxBatch="2", Crashes="1"), ["nolock", "readpast"]),
    "P26": (dict(Crashes="1", MaxBatch="2"), dict(Crashes="2", Faults="1", MaxBatch="2"), ["early"]),
}


def design(w, prop, tier):
    """The design model implements StoreOps; each of the faulty designs does not."""
    quick, thorough, bugs = DESIGN[prop]
    cfg = "SPECIFICATION Spec\nINVARIANTS Correct OneEach Joined"
    over = quick if tier == "quick" else thorough
    w.model_check("FaveImpl", dict(IMPL, **over), cfg, "FaveImpl " + json.dumps(over), timeout=2400)
    for b in bugs:
        w.model_check("FaveImpl", dict(IMPL, **dict(quick, Bug='"%s"' % b)), cfg, "FaveImpl with the faulty design " + b, expect_violation=True)


def check(prop):
    counts, runs = RUNS[prop]

    def go(w, tier, seed):
        out = []
        if prop in DESIGN:
            design(w, prop, tier)
        for i, (q, t, over, opt) in enumerate(runs):
            total = q if tier == "quick" else t
            k = 0
            while total > 0 and not out:
                n = min(total, 200)
                out += explore(w, seed * 100 + i * 7 + k * 1000003, n, over, counts=counts, **opt)
                total -= n
                k += 1
            if out:
                break
        return out
    return go
