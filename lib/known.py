"""Known findings: listed histories whose rejection is reported, but not as a violation."""
import json, os
from .core import VERIF, Broken
from . import store

FILE = os.path.join(VERIF, "known_findings.json")


def run(w, prop):
    """Returns (lines to print, violations)."""
    items = [k for k in json.load(open(FILE))["findings"] if k["property"] == prop and k["status"] == "known"]
    if not items:
        return [], []
    traces = w.replay("store", [k["schedule"] for k in items])
    bad = {i: (l, why) for i, l, why in w.validate("StoreTrace", traces, store.BASE)}
    lines, out = [], []
    for i, k in enumerate(items):
        if i not in bad:
            continue  # no longer fails
        l, why = bad[i]
        if [l, why] == k["rejects"]:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            out.append((k["schedule"], traces[i], l, why))
    return lines, out
