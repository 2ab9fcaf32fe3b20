"""Checks of the commit log against CommitOps."""
import copy
from .generic import table

COMP = dict(spec="Commit", driver="commitlog")
BASE = dict(Steps="80", Mode='"files"', Deletes="TRUE", Ids="0..12", MaxLevel="3")


def corrupt(t, rng):
    t = copy.deepcopy(t)
    cand = [e for e in t["events"] if e["res"] == "ok" and e["op"] in ("restore", "cut") and e["got"]["nodes"]]
    if not cand:
        return None
    g = rng.choice(cand)["got"]
    n = rng.choice(g["nodes"])
    rng.choice([lambda: n["links"][-1].append(77), lambda: n.update(level=n["level"] + 1), lambda: g.update(ep=g["ep"] + 1), lambda: g["tomb"].append(999)])()
    return t


FAR = dict(Ids="{0, 1, 24999, 25000, 25001, 26000, 40000, 60000}")
RUNS = {
    "P17": [(160, 6000, dict(Mode='"cut"', Steps="60"), {}),
            (60, 2000, dict(Mode='"cut"', Steps="60", **FAR), {})],
    "P19": [(200, 6000, dict(Deletes="FALSE"), {}),
            (200, 6000, dict(), {}),
            (60, 2000, dict(Steps="160", **FAR), {}),
            (96, 800, dict(Mode='"auto"', Steps="70"), dict(chunk=12))],
}
CHECKS = {p: table(COMP, BASE, runs, None, None, corrupt, ()) for p, runs in RUNS.items()}
