"""Checks of the small parts of the index: queues, visited lists, distances, settings."""
import copy
from .generic import table


def scaled(s, rng):
    s["scale"] = rng.choice([0, 0, -3, 5, 30, -40])


def corrupt(t, rng):
    t = copy.deepcopy(t)
    cand = [e for e in t["events"] if e["res"] == "ok" and e["op"] in ("pop", "top", "len", "scan", "dist", "norm", "geo", "parse", "bflush", "bwrite", "server")]
    if not cand:
        return None
    e = rng.choice(cand)
    if e["op"] in ("pop", "top"):
        e["item"]["d"] += 7
    elif e["op"] == "len":
        e["len"] += 1
    elif e["op"] == "scan":
        e["got"].append(987654)
    elif e["op"] == "dist":
        e["d"] += 1000
    elif e["op"] in ("bflush", "bwrite"):
        e["file"].append(7)
    elif e["op"] == "server":
        e["out"][rng.choice(sorted(e["out"]))] += "x"
    elif e["op"] == "norm":
        e["out"][0] += 9
    elif e["op"] == "geo":
        e["cos"] += 60 if e["cos"] < 0 else -60
    else:
        k = rng.choice(sorted(e["out"]))
        e["out"][k] += "x"
    return t


def comp(spec):
    return dict(spec=spec, driver="parts")


def check(spec, runs, decorate=None):
    return table(comp(spec), {}, runs, None, decorate, corrupt, ())


SPECS = {"P20": "Queue", "P21": "Visited", "P22": "Config", "P23": "Dist", "P28": "Buffer", "P29": "Server"}
CHECKS = {
    "P20": check("Queue", [
        (400, 12000, dict(Steps="60", Spread="40"), dict(depth=2)),
        (120, 4000, dict(Steps="250", Spread="3"), dict(depth=2)),
        (40, 1200, dict(Steps="700", Spread="100000"), dict(depth=2))], scaled),
    "P21": check("Visited", [
        (240, 8000, dict(Steps="60", Sizes="{1, 2, 5, 10, 30}", Far="5000"), dict(depth=2)),
        (120, 4000, dict(Steps="120", Sizes="{10, 100, 1000, 2047, 2048, 3000}", Far="40000"), dict(depth=2))]),
    "P22": check("Config", [(160, 6000, dict(Steps="60"), dict(depth=2))]),
    "P23": check("Dist", [
        (240, 8000, dict(Steps="60", Dims="{1,2,3,4,5,7,8,9,15,16,17,31,32,33,34,63,64,65}", MaxDim="70"), dict(depth=2)),
        (60, 2000, dict(Steps="40", Dims="{96,97,127,128,129,160,255,256,257,300}", MaxDim="300"), dict(depth=2))]),
    "P28": check("Buffer", [
        (240, 8000, dict(Steps="60", Sizes="{1, 2, 3, 4, 5, 7, 8, 16, 33}", Most="100"), dict(depth=2)),
        (32, 800, dict(Steps="40", Sizes="{-1, 0, 4096, 100, 150}", Most="320"), dict(depth=2))]),
    "P29": check("Server", [(80, 3000, dict(Steps="60"), dict(depth=2))]),
}
