"""Checks of the graph index (pkg/hnsw) against IndexOps."""
import copy
from .generic import table
from .store import mix

COMP = dict(spec="Index", driver="index")
BASE = dict(N="81", Tol="2", Recall="80", Steps="24", Metrics='<<"cosine","l2","dot","manhattan","hamming">>', Ms='<<64>>', Efs="<<-1,-1,1,10,100,200>>", MaxBatch="8",
            MinBatch="1", MaxNodes="60", Gap="1", Deletes="FALSE", Dims="{2,3,4,5,7,9,16,17}")
VAL = ("N", "Tol", "Recall")
SEARCH = dict(update=1, add=3, validate=1, addempty=1, flush=2, reopen=1, knn=3, dist=1, range=3)
GRAPH = dict(add=4, flush=2, reopen=1, dump=3, range=1)
KEEP = dict(add=4, flush=2, reopen=3, dump=1, count=2, knn=2, range=2)
LOG = dict(add=4, flushed=3, range=1)
BACKUP = dict(add=4, backup=4, flushed=2, range=1)
THIN = dict(update=1, add=2, flushed=2, knn=3, dist=1, range=3)
LARGE = dict(MaxNodes="400", MaxBatch="60", MinBatch="20", Ms="<<16,32>>")


def decorate(s, rng):
    s["rep"] = rng.choice([1, 1, 2, 3, 4, 8, 25, 64])


def logged(s, rng):
    decorate(s, rng)
    s["log"] = True


def kept(s, rng):
    logged(s, rng)
    if rng.random() < 0.7:
        s["maint"] = [rng.choice([60, 300, 2000, 20000]), rng.choice([0, 1000, 10000, 1000000])]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    cand = [e for e in t["events"] if e["res"] == "ok" and (e.get("hits") or e.get("nodes") or e["op"] == "count")]
    if not cand:
        return None
    e = rng.choice(cand)
    if e["op"] == "count":
        e["count"] += 1
    elif e.get("nodes"):
        n = rng.choice(e["nodes"])
        rng.choice([lambda: n["links"][0].append(987654), lambda: n.update(level=n["level"] + 1), lambda: n["v"].append(1)])()
    else:
        rng.choice(e["hits"])["d"] += 3000
    return t


def ops(*names):
    return lambda e, why, before: e.get("op") in names


def reopened(e, why, before):
    return e.get("op") == "reopen" or any(x["op"] == "reopen" for x in before) or e.get("op") in ("flush", "count", "add", "dump")


RUNS = {
    "P14": (ops("knn", "range", "dist", "validate", "add", "addempty"), [
        (160, 4000, dict(Mix=mix(**SEARCH)), {}),
        (60, 1500, dict(Mix=mix(**SEARCH), Gap="400"), {}),
        (24, 400, dict(Mix=mix(**SEARCH), **LARGE), dict(chunk=3)),
        (64, 1000, dict(Mix=mix(**THIN), Ms="<<4,5,8>>", MaxNodes="90", MaxBatch="25", MinBatch="8"), {}),
        (12, 150, dict(Mix=mix(add=3, flushed=3, dist=4, knn=1), Ms="<<8,16,32>>", MaxNodes="260", MaxBatch="90", MinBatch="60"), dict(chunk=2)),
        (12, 150, dict(Mix=mix(add=3, flushed=3, dist=5, knn=1), Metrics='<<"l2","manhattan">>', Dims="{2,3}", Ms="<<32>>", Efs="<<300,500>>", MaxNodes="260", MaxBatch="90", MinBatch="60"), dict(chunk=2))]),
    "P15": (ops("dump"), [
        (160, 4000, dict(Mix=mix(**GRAPH)), {}),
        (60, 1500, dict(Mix=mix(**GRAPH), Gap="300", Ms="<<4,5,8>>", MaxNodes="150", MaxBatch="30"), {}),
        (30, 500, dict(Mix=mix(**GRAPH), **dict(LARGE, Ms="<<4,8,16>>")), dict(chunk=4))]),
    "P16": (reopened, [
        (120, 3000, dict(Mix=mix(**KEEP)), {}),
        (60, 1500, dict(Mix=mix(**KEEP), Gap="400"), {}),
        (16, 300, dict(Mix=mix(**KEEP), **LARGE), dict(chunk=2)),
        # the log of the same history tells what the links were before the index was closed
        (30, 700, dict(Mix=mix(add=4, flush=1, flushed=3, range=1), Ms="<<4,5,8>>", MaxNodes="150", MaxBatch="30"), dict(decorate=logged)),
        (1, 4, dict(Mix=mix(add=5, range=2, knn=2, flush=1, reopen=1), Metrics='<<"l2","cosine">>', Ms="<<16>>", MaxBatch="5400", MinBatch="5200", MaxNodes="10500", Dims="{4}",
                    Steps="14"), dict(chunk=1, jobs=1, decorate=None, corrupt=None))]),
    "P18": (ops("dump"), [
        (120, 3000, dict(Mix=mix(**LOG)), dict(decorate=logged)),
        (60, 1500, dict(Mix=mix(**LOG), Gap="300", Ms="<<4,5,8>>", MaxNodes="150", MaxBatch="30"), dict(decorate=logged)),
        (24, 500, dict(Mix=mix(**LOG), **dict(LARGE, Ms="<<4,8,16>>")), dict(chunk=3, decorate=logged))]),
    "P27": (ops("pause", "copy", "resume", "dump"), [
        (60, 1500, dict(Mix=mix(**BACKUP)), dict(decorate=kept)),
        (60, 1500, dict(Mix=mix(**BACKUP), Gap="300", Ms="<<4,5,8>>", MaxNodes="150", MaxBatch="30"), dict(decorate=kept)),
        (12, 300, dict(Mix=mix(**BACKUP), **dict(LARGE, Ms="<<4,8,16>>")), dict(chunk=3, decorate=kept))]),
    "P25": (None, [
        (160, 4000, dict(Mix=mix(add=3, flush=2, delete=3, knn=2, dist=1, range=2), Deletes="TRUE", Steps="30"), {}),
        (24, 400, dict(Mix=mix(add=3, flush=2, delete=3, knn=2, dist=1, range=2), Deletes="TRUE", Steps="26", **LARGE), dict(chunk=3)),
        (30, 600, dict(Mix=mix(delete=3, **THIN), Deletes="TRUE", Ms="<<4,5,8>>", MaxNodes="90", MaxBatch="25", MinBatch="8", Steps="30"), {})]),
}

CHECKS = {p: table(COMP, BASE, runs, counts, decorate, corrupt, VAL) for p, (counts, runs) in RUNS.items()}
