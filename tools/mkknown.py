#!/usr/bin/env python3
"""Rebuilds known_findings.json: replays the candidate histories and records where each is rejected."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import core, store

V = [[9, 0, 0], [0, 9, 0], [0, 0, 9], [8, 4, 1], [4, 8, 1], [1, 4, 8], [7, 4, 4], [4, 7, 4], [6, 6, 3], [3, 6, 6]]


def doc(k, title, num, rev=1, v=None, **more):
    return dict(id="d%d" % k, p=dict(title=title, num=num, rev=rev, **more), kind="vec", v=v or V[k % 10], sc=1, bad="")


def add(coll, *docs):
    return dict(op="add", coll=coll, props=["body"], docs=list(docs), vfault="", wfault=0)


def create(coll, **more):
    return dict(op="create", coll=coll, idx=dict(title="string", num="number", hnswId="number", id="string", **more))


def get(coll, f, v):
    return dict(op="get", coll=coll, field=f, val=v)


ITEMS = [
    ("P07", "creating collection c2 fails after 25 documents were added to collection c: the storage library keeps the graph node "
            "keys that begin with 2 of collection c under the name of collection c2",
     [create("c"), add("c", *[doc(k, "t%03d" % k, k) for k in range(1, 26)]), create("c2")]),
    ("P09", "a document is not found by a number of 1000000 or more: the storage library writes and looks up such keys in different formats",
     [create("c1"), add("c1", doc(1, "ta", 1000003)), get("c1", "num", 1000003)]),
    ("P10", "adding documents again fails if they shared the value of an indexed field: replacing the first drops the lookup entry of both",
     [create("c1"), add("c1", doc(1, "same", 1), doc(2, "same", 2)), add("c1", doc(1, "other", 3)), add("c1", doc(2, "another", 4))]),
    ("P09", "a document is not found by a value another document had too, once that other document was replaced",
     [create("c1"), add("c1", doc(1, "same", 1), doc(2, "same", 2)), add("c1", doc(1, "other", 3)), get("c1", "title", "same")]),
    ("P10", "adding a document again fails if its indexed text begins the texts of documents replaced before",
     [create("c1"), add("c1", doc(1, "ta", 1), doc(2, "tab", 2), doc(3, "tac", 3)), add("c1", doc(2, "x", 4)), add("c1", doc(3, "y", 5)), add("c1", doc(1, "z", 6))]),
    ("P09", "a document is not found by the entry a=b of a list when another has the entry a: the storage library takes the = for an operator",
     [create("c1", tags="list"), add("c1", doc(1, "ta", 1, tags=["a=b"]), doc(2, "tb", 2, tags=["a"])), get("c1", "tags", "a=b")]),
    ("P09", "a document is still found, as it was, by an entry of a list it had before it was replaced: the storage library keeps the entry",
     [create("c1", tags="list"), add("c1", doc(1, "ta", 1, tags=["ta"])), add("c1", doc(1, "tb", 2, tags=["tb"])), get("c1", "tags", "ta")]),
    ("P09", "a document is not found by the text of a map that contains a colon: the storage library leaves the colon out",
     [create("c1", attrs="map"), add("c1", doc(1, "ta", 1, attrs={"k": "a:b"})), get("c1", "attrs", "k:a:b")]),
]

FIXED = [
    ("P08", "8af6bc4", "a collection created or deleted shortly before the process ended came back as it was before"),
    ("P04", "c31fb66", "after a restart, a request to a collection failed or was answered from a partly loaded index, depending on which request came first"),
    ("P12", "dd1f675", "an answer of the embedding service other than success was taken for a vector"),
    ("P04", "0fa252b", "a search after a restart dereferenced the vector of a node the cache had not loaded"),
    ("P03", "9e2d15e", "a search with distance 0 missed exact matches whose cosine distance rounds below zero"),
    ("P16", "be74aa0", "inserting vector 25001 panicked: the index did not grow when it was full"),
    ("P21", "31008e5", "a visited set forgot the highest node when it grew"),
    ("P03", "9c26d0a", "a search of a collection without vectors panicked"),
    ("P16", "9b8f037", "links of graph nodes that left the node cache between flushes were lost"),
    ("P05", "f24e065", "a batch with an unusable document in the middle was stored in part"),
    ("P10", "ae0b1a2", "replaced documents were still answered by searches, with the old vector's distance"),
    ("P09", "9b74671", "a lookup by a value nobody has returned a document with a longer text or a higher number"),
    ("P11", "773ae0a", "concurrent batches were given the same index ids and overwrote each other's vectors; a search during a batch read a graph in flux"),
    ("P06", "d753b8e", "after a failed flush the next batch was given index ids already in use, so hits showed other documents' properties"),
    ("P10", "b6986b1", "documents without a vector shared one index id, so adding a second one lost the first or failed"),
    ("P16", "895cabf", "in an index of more than 10000 vectors, nodes were lost when loading them in parallel pushed others out of the cache"),
    ("P13", "9e6cc0f", "a null document or index in a request body panicked"),
    ("P23", "2681442", "normalising a vector of more than 1e19 or less than 1e-23 gave zeros or no direction, and long vectors were refused"),
    ("P02", "d766950", "vectors and queries of more than 1e19 or less than 1e-23 were indexed and searched without their direction"),
    ("P23", "fa9535c", "the distance of some antipodes was not a number"),
    ("P17", "e76a3d6", "an entrypoint record cut off at the end of a commit log reset the entrypoint to node 0"),
    ("P19", "91715d7", "condensing that failed halfway left a partial condensed log, which was appended to and read later"),
    ("P19", "ce5b5d0", "condensing dropped deletions, cleared links, removed tombstones and resets concerning earlier logs"),
    ("P05", "37549d4", "a document without id, or whose value for an index was missing or of another type, failed or panicked in the middle of its batch"),
    ("P09", "1eb57a1", "a lookup in a list or map index returned a document without the entry asked for"),
    ("P09", "0bf936d", "a document was not found by a value with operator or pattern characters such as C++ or a=b"),
    ("P14", "b5ac466", "a search by distance alone returned vectors twice and left others out if equally near ones met the end of a page of 100"),
    ("P15", "00cf983", "after reopening, an index forgot its upper layers: searches passed them over and the next node above the lowest layer became the entrypoint"),
    ("P13", "0ccb2c4", "REST answers rounded numbers of more than 53 bits"),
    ("P27", "0128cac", "a backup begun within the second in which the commit log was started listed no files, and the log went on in the same file"),
    ("P19", "6a3686c", "after a crash between the combiner's rename and its clean-up the changes of the second file were read twice"),
]

w = core.Work()
try:
    sch = [dict(events=e, emb=[]) for _, _, e in ITEMS]
    tr = w.replay("store", sch)
    bad = {i: [l, why] for i, l, why in w.validate("StoreTrace", tr, store.BASE)}
    out = []
    for i, (p, what, e) in enumerate(ITEMS):
        if i not in bad:
            print("NOT REJECTED:", what)
            continue
        print(p, bad[i], tr[i]["events"][bad[i][0]].get("msg"), tr[i]["events"][bad[i][0]]["op"])
        out.append(dict(property=p, status="known", what=what, rejects=bad[i], schedule=sch[i]))
    f = os.path.join(core.VERIF, "known_findings.json")
    json.dump({"findings": out, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, open(f, "w"), indent=1)
finally:
    w.close()
