"""Which checks decide which property."""
from . import store, index, parts, commitlog

PROPS = {p: [store.check(p)] for p in store.RUNS}
PROPS.update({p: [f] for p, f in index.CHECKS.items()})
COMPONENTS = {p: (index.COMP, {k: index.BASE[k] for k in index.VAL}) for p in index.CHECKS}
PROPS.update({p: [f] for p, f in parts.CHECKS.items()})
PROPS.update({p: [f] for p, f in commitlog.CHECKS.items()})
COMPONENTS.update({p: (commitlog.COMP, {}) for p in commitlog.CHECKS})
COMPONENTS.update({p: (parts.comp(s), {}) for p, s in parts.SPECS.items()})

COMMON = ["The storage library (fairOS-dfs) and the Swarm network under it behave as the in-memory stand-in does: "
          "what was uploaded can be downloaded unchanged."]
ASSUMPTIONS = {}


def replay(w, prop, rec):
    """Run the schedule of a recorded violation again."""
    if prop in COMPONENTS:
        comp, val = COMPONENTS[prop]
        tr = w.replay(comp["driver"], [rec["schedule"]])
        return [(rec["schedule"], tr[i], l, why) for i, l, why in w.validate(comp["spec"] + "Trace", tr, val)]
    http = rec["schedule"].get("mode") == "http"
    par = any(e["op"] == "par" for e in rec["schedule"]["events"])
    tr = w.replay("store", [rec["schedule"]], http=http)
    bad = w.validate_lin("StoreLin", tr, store.BASE) if par else w.validate("StoreTrace", tr, store.BASE)
    return [(rec["schedule"], tr[i], l, why) for i, l, why in bad]
