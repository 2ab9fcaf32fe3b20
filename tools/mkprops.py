#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOC = "pkg/document/document.go"
H = "pkg/hnsw/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=mech, where=", ".join(files))])
    if state:
        a["state"] = [dict(name=x) for x in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("P01", "Acknowledged documents stay stored and retrievable",
  "Once a request to add a batch of documents is acknowledged, every document of the batch can be fetched by its id with exactly the properties it was given, numbers with all their digits included, and is found by searches as its vector says, until it is replaced or its collection is deleted. This includes processes started later on the same storage.",
  ["histories", "inputs", "crash_points"], "all histories of creating, adding, searching, fetching and restarting; all property values, vector dimensions and batch sizes",
  "Tests add one fixed data set in one process and count hits; they do not compare contents after arbitrary histories and restarts.",
  [DOC, H + "insert.go", H + "index.go"], "batch pipeline of AddDocuments: id assignment, graph insert, document put, flush, feed commit", ["document table", "graph table", "document count"])
p("P02", "A search returns only true matches, in order, within bounds",
  "Every hit of a nearest-document search is a document currently in that collection, shown with its own properties and with the cosine distance between the query and its own vector. Hits come in non-decreasing distance, no document twice, none beyond the requested distance, and no more than the requested limit if it is positive.",
  ["inputs", "histories"], "all collections reachable by any history, all query vectors and texts, distances and limits",
  "Tests look at a few queries on one data set and mostly only print the hits.",
  [DOC, H + "search_with_max_dist.go", H + "search.go", H + "distancer/"], "graph search, join of graph nodes with documents by index id, cut by distance and limit", ["graph node vectors", "index ids of documents"])
p("P03", "A search of a small collection misses nothing",
  "In a collection into which at most 60 vectors were ever added, a search returns every document within the requested distance, or, if a limit cuts the result, the nearest ones: no document left out is nearer than a document returned. A search of a collection without vectors succeeds with no hits.",
  ["inputs", "histories"], "all collections of at most 60 vectors, in any insertion order with any duplicates and replacements, all queries",
  "Completeness quantifies over all documents, queries and insertion orders, including duplicates, opposite and zero vectors; tests sample one.",
  [DOC, H + "insert.go", H + "neighbor_connections.go", H + "heuristic.go", H + "search.go"], "graph construction and connectivity, entrypoint handling, search width", ["graph links", "entrypoint"])
p("P04", "A restart is invisible",
  "Stopping the server at any moment between requests and starting it again on the same storage changes no later answer: documents, search results, lookups and the list of collections are what they would have been without the restart, whatever the first request afterwards is, including further additions.",
  ["histories", "crash_points"], "all histories with restarts at any place between requests",
  "The tests restart at one place of one history; what is lost or mixed up depends on which caches were warm and which request comes first.",
  [DOC, H + "index.go", H + "insert.go"], "openCollection, lazy loading of graph nodes, entrypoint and count, feed commit at the end of every write", ["graph table", "entrypoint", "count", "document cache"])
p("P05", "A rejected batch changes nothing",
  "A batch that cannot be indexed as a whole (a vector that is empty, not numeric, not finite or of another dimension than the collection, a text property that is no text, a document without properties or id, an indexed field that is missing or of another type than its index, a failing embedding service, an unknown collection) is answered with an error and leaves every collection as it was: no document of it is stored and searches, lookups and later batches behave as if it had never been sent.",
  ["inputs", "histories"], "all batches with one or more unusable documents at any position, at any point of any history",
  "It takes a flaw at a particular position of a batch and a look at everything else afterwards.",
  [DOC, H + "insert.go"], "validation of the whole batch before the first change", ["graph", "document table", "count"])
p("P06", "A failed storage write never corrupts other documents",
  "If a write to the storage fails while a batch is being added, the request reports an error or is acknowledged in full, and afterwards every document not in that batch is still answered exactly as before. Documents of the batch itself are each absent or complete, never mixed with another document's properties or vector, and later batches succeed.",
  ["fault_sequences", "histories"], "every single failing content write of a batch, at any point of any history",
  "The tests never inject faults; the damage shows only in later batches and searches.",
  [DOC, H + "insert.go", H + "index.go"], "ids are used up by failed batches, flush after partial failure, count kept in memory", ["document count", "graph", "document table"])
p("P07", "Collections do not affect each other",
  "A request naming one collection neither shows nor changes documents, vectors or search results of any other collection, whatever ids, values, vectors and dimensions they share and however collections are created, deleted and created again.",
  ["histories", "inputs"], "all interleavings of requests to several collections with overlapping document ids and different dimensions",
  "Tests use one collection at a time.",
  [DOC, H + "index.go"], "name spacing of tables, caches and indices per collection", ["indices", "document cache"])
p("P08", "The list of collections is exact, creation and deletion are final",
  "Listing the collections shows exactly those created and not deleted since, with the indexes they were created with, in this and every later process. Creating a collection that exists changes nothing; a deleted collection answers no request, and creating it again yields an empty collection.",
  ["histories", "crash_points"], "all histories of creating, deleting, listing, adding and restarting",
  "Depends on the order of creations, deletions and restarts; the tests create once.",
  [DOC, "adapters/handlers/collections.go"], "CreateCollection, DeleteCollection, GetCollections, feed commit", ["collection schemas", "indices"])
p("P09", "Looking a document up by value is exact",
  "Fetching a document by the value of an indexed text or whole-number field (or its id), an entry of an indexed list, or a key:text pair of an indexed map returns a current document that has exactly that value, with all its properties, if there is one, whatever characters the value consists of; otherwise an error. It never returns a document with a merely similar value such as a longer text or a higher number.",
  ["inputs", "histories"], "all values, including prefixes and neighbours of stored values and texts with characters special to lookups, patterns or URLs, at any point of any history",
  "The tests look up values that exist.",
  [DOC], "GetDocument, comparison of the document found with the value asked for", ["document table"])
p("P10", "Adding a document again replaces it",
  "Adding a document with an id the collection already has replaces the earlier one: from then on lookups and searches show only the new properties and only the new vector's distance, the document is returned at most once, and it is gone from searches if the new version has no vector.",
  ["histories", "inputs"], "all histories in which ids recur, within one batch, across batches and across restarts",
  "Tests never add an id twice.",
  [DOC], "index ids tie a document to its latest graph node; nodes without a document are passed over", ["index ids", "graph nodes"])
p("P11", "Concurrent requests behave as if made one after another",
  "Whatever requests run at the same time (adding batches, searching, fetching, listing, creating, deleting), their answers and all later answers are those of some order of the requests in which each takes effect between its call and its return; in particular no acknowledged batch is lost and no document is answered with another one's data.",
  ["schedules", "histories"], "all interleavings of concurrent requests",
  "The tests are sequential; the failures need particular interleavings.",
  [DOC, H + "insert.go", H + "index.go"], "one lock for batches and collection changes, shared by searches", ["indices", "count", "entrypoint"])
p("P12", "Texts are embedded faithfully and embedding failures are reported",
  "A document without a vector of its own is indexed by what the embedding service answers for the text made of the requested properties, in the requested order, and a text search behaves exactly as a search with the service's vector for that text. If the service fails or answers without a usable vector, the request is answered with an error.",
  ["inputs", "fault_sequences"], "all texts, lists of properties and failures of the service",
  "The tests use one fixed answer and never a failing service.",
  [DOC, "pkg/vectorizer/rest/", "pkg/vectorizer/vector.go"], "vectorFor, GetNearDocuments, REST vectorizer", [])
p("P13", "The REST interface mirrors the store and refuses malformed requests",
  "Every REST request has the effect and the answer of the corresponding store operation: the same documents, properties, ids, distances, collections and errors. A malformed request is answered with a client error, changes nothing, and never breaks the connection.",
  ["inputs", "histories"], "all histories of REST requests, well-formed and malformed, with restarts of the whole server",
  "There are no tests of the REST layer.",
  ["adapters/handlers/", "restapi/", "models/", "openapi-spec/schema.json"], "handlers, generated server, start-up wiring", [])
p("P24", "Large collections keep being searched well",
  "In collections of hundreds to well over a thousand vectors, beyond the sizes at which caches evict, a search still finds at least nine in ten of the documents an exact search would return for the same distance and limit, before and after a restart.",
  ["inputs", "histories"], "collections of up to 1600 vectors, all queries with a limit (or of up to 800 vectors without)",
  "Recall is a statement about all documents and queries of large graphs, including reloaded ones.",
  [H + "insert.go", H + "heuristic.go", H + "search.go", H + "neighbor_connections.go", DOC], "graph construction, neighbour selection, caches", ["graph links", "caches"])
p("P26", "A server killed during a batch loses nothing and shows nothing of it",
  "If the server is killed at any moment while a batch is being added, before the storage publishes the changed tables, then after a restart every earlier acknowledged document is looked up and found by searches exactly as before, no document of the interrupted batch is shown, and the same or other batches can be added and are found.",
  ["crash_points", "histories"], "every write of the batch as the point at which the process dies, repeatedly, with small and large batches, new and replaced documents, followed by all kinds of requests",
  "Tests never stop in the middle of a request; the number of crash points grows with the batch.",
  [DOC, H + "insert.go", H + "index.go"], "order of graph writes, document writes, count and the final commit of the feeds in AddDocuments", ["stored nodes", "document count", "document table"])

LEVEL = {}
NOTE = {}
TECH = "TLC-generated behaviours of a TLA+ specification replayed into the real code; recorded executions validated against the specification by TLC"
NA = []

if __name__ == "__main__":
    exec(open(os.path.join(V, "tools", "props_index.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_index.py")) else None
    P.sort(key=lambda x: x["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    checks = [dict(property=x["id"], quick_cmd="python3 check.py %s --tier quick" % x["id"], thorough_cmd="python3 check.py %s --tier thorough" % x["id"],
                   technique=LEVEL.get(x["id"], TECH), level="model_checking",
                   level_note=NOTE.get(x["id"], "The specification is explicit-state; the binding to the code is by conformance of sampled behaviours, so the code is explored, not proved."),
                   evidence_file="evidence/%s.json" % x["id"]) for x in P if x["id"] not in {n["property"] for n in NA}]
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks are needed: the checks compile drivers next to the packages through go's -overlay", source_commits=[]),
                   checks=checks, not_applicable=NA), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties")
