------------------------------ MODULE StoreOps ------------------------------
(***************************************************************************)
(* The abstract meaning of FaVe's document store: collections of           *)
(* documents, each document carrying properties and at most one vector,    *)
(* and the answer every request must get.                                  *)
(*                                                                         *)
(* A store is a function from the names of the existing collections to     *)
(*   [idx  : function from indexed field name to type name,                *)
(*    dim  : dimension of the vectors indexed so far, 0 if none yet,       *)
(*    docs : function from document id to                                  *)
(*             [p : properties (a record of scalars),                      *)
(*              v : vector (a sequence of integers), <<>> if none,         *)
(*              m : {} if the document is certain, otherwise the other     *)
(*                  versions ([p, v]) an interrupted batch may have left]] *)
(*                                                                         *)
(* Vectors are integer vectors whose squared length is N (or the zero      *)
(* vector), so that N times the cosine distance of two of them is the      *)
(* integer N - a.b, and nothing in the specification is approximate.       *)
(*                                                                         *)
(* A request is a record with a field op; an event is a request together   *)
(* with what was answered: res ("ok", "err", "panic", or "lost" if the     *)
(* process was killed before anything of it was made durable) and, for     *)
(* reads, the data returned. Judge(s, e) is "" iff the specification allows event *)
(* e in store s, otherwise it says what is wrong; After(s, e) is the store *)
(* afterwards.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANT N,          \* squared length of every vector
         Tol,        \* tolerance of a reported distance, in units of 1/(1000 N)
         Recall,     \* percentage of the documents a search of a larger collection has to find
         Exact       \* collections of at most this many vectors are searched exactly

Empty == [x \in {} |-> x]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * b[i], 0, a)
Dist(a, b) == N - Dot(a, b)

NewColl(idx) == [idx |-> idx, dim |-> 0, docs |-> Empty, nodes |-> 0]

--------------------------------------------------------------------------
(* Adding a batch. Every document of a batch comes with what it is to be   *)
(* indexed by: kind "vec" (a vector of its own), "text" (v is what the     *)
(* embedding service answers for its text), "none" (nothing to index), or  *)
(* "bad" (no usable vector: not numbers, empty, not finite, the text is    *)
(* not a text, the embedding service fails, no properties at all).         *)

Vectors(docs) == SelectSeq(docs, LAMBDA d : d.kind \in {"vec", "text"})

UniformDim(docs) ==
    LET vs == Vectors(docs) IN \A i \in DOMAIN vs : Len(vs[i].v) = Len(vs[1].v)

BatchDim(docs) == LET vs == Vectors(docs) IN IF vs = <<>> THEN 0 ELSE Len(vs[1].v)

\* the batch can be indexed as a whole
Indexable(c, docs) ==
    /\ \A i \in DOMAIN docs : docs[i].kind # "bad"
    /\ UniformDim(docs)
    /\ BatchDim(docs) # 0 /\ c.dim # 0 => BatchDim(docs) = c.dim

\* a document can be stored: it has an id and every indexed field, with a
\* value of the index's type (bad names the field of which this is not so)
Implicit == {"id", "hnswId"}  \* indexed fields every document has by itself
Storable(c, d) == d.id # "" /\ \A f \in DOMAIN c.idx \ Implicit : f \in DOMAIN d.p /\ d.bad # "index-" \o f

Acceptable(c, docs) == Indexable(c, docs) /\ \A i \in DOMAIN docs : Storable(c, docs[i])

DocOf(d) == [p |-> d.p, v |-> IF d.kind \in {"vec", "text"} THEN d.v ELSE <<>>, m |-> {}]

Certain(d) == d.m = {}
Versions(d) == {[p |-> d.p, v |-> d.v]} \cup d.m

\* documents 1..n of the batch are stored, in order (the last of an id wins)
PutDocs(c, docs, n) ==
    [c EXCEPT !.docs = FoldLeftDomain(LAMBDA f, i : IF i > n THEN f ELSE Put(f, docs[i].id, DocOf(docs[i])), @, docs),
              !.dim = IF @ = 0 THEN BatchDim(docs) ELSE @,
              !.nodes = @ + Cardinality({i \in DOMAIN docs : i <= n /\ docs[i].kind \in {"vec", "text"}})]

\* what a batch interrupted by the storage may leave: each document of it may
\* be in its old version, any new one, or absent
Absent == [p |-> [absent |-> TRUE], v |-> <<>>]
Blur(c, docs) ==
    LET ids == {docs[i].id : i \in DOMAIN docs}
        old(id) == IF id \in DOMAIN c.docs THEN Versions(c.docs[id]) ELSE {Absent}
        new(id) == {[p |-> DocOf(docs[i]).p, v |-> DocOf(docs[i]).v] : i \in {j \in DOMAIN docs : docs[j].id = id}}
        one(id) == LET all == old(id) \cup new(id)
                       a == CHOOSE x \in all : TRUE
                   IN  [p |-> a.p, v |-> a.v, m |-> (all \cup {Absent}) \ {a}]
    IN  [c EXCEPT !.docs = [id \in DOMAIN @ \cup ids |-> IF id \in ids THEN one(id) ELSE @[id]],
                  !.dim = IF @ = 0 THEN BatchDim(docs) ELSE @,
                  !.nodes = @ + Len(Vectors(docs))]

--------------------------------------------------------------------------
(* Searching *)

Indexed(c) == {id \in DOMAIN c.docs : \E x \in Versions(c.docs[id]) : x.v # <<>>}
SureIndexed(c) == {id \in Indexed(c) : Certain(c.docs[id])}

Near(a, milli) == milli - 1000 * a <= Tol /\ 1000 * a - milli <= Tol

\* a hit shows a version of the document, with that version's own distance
HitOK(c, q, h) ==
    /\ h.id \in DOMAIN c.docs
    /\ \E x \in Versions(c.docs[h.id]) : x.v # <<>> /\ x.p = h.p /\ Near(Dist(q, x.v), h.d)

\* max is the largest admissible N * distance, an integer
HitWithin(h, max) == h.d <= 1000 * max + 500

\* vectors along one axis, and the zero vector, have distances without rounding
Axis(v) == Cardinality({i \in DOMAIN v : v[i] # 0}) <= 1
Rounded(q, v) == ~(Axis(q) /\ Axis(v)) /\ \E i \in DOMAIN q : q[i] # 0 /\ \E j \in DOMAIN v : v[j] # 0

\* edge: the distance asked for is max itself and not a little more, so that a
\* document at this very distance is due only if its distance is not rounded
SearchJudge(c, q, max, edge, limit, hits) ==
    LET n == Len(hits)
        within == {id \in SureIndexed(c) : LET d == Dist(q, c.docs[id].v)
                                           IN  d < max \/ (d = max /\ ~(edge /\ Rounded(q, c.docs[id].v)))}
        got == {hits[i].id : i \in 1..n}
        missing == within \ got
        full == limit # 0 /\ n >= limit
    IN  IF \E i \in 1..n : ~HitOK(c, q, hits[i])
        THEN "a hit is not a current document of the collection with its own properties and distance"
        ELSE IF Cardinality(got) # n THEN "a document is returned twice"
        ELSE IF \E i \in 1..(n-1) : hits[i].d > hits[i+1].d THEN "hits are not in order of distance"
        ELSE IF \E i \in 1..n : ~HitWithin(hits[i], max) THEN "a hit is farther away than asked for"
        ELSE IF limit # 0 /\ n > limit THEN "more hits than asked for"
        ELSE IF c.nodes > 800 /\ limit = 0 THEN ""   \* an unlimited search looks at the 800 nearest
        ELSE IF c.nodes > Exact
             THEN LET nearer == IF full THEN {id \in missing : 1000 * Dist(q, c.docs[id].v) + Tol < hits[n].d} ELSE missing
                      due == IF full THEN limit ELSE Cardinality(within)
                  IN  IF 100 * Cardinality(nearer) > (100 - Recall) * due THEN "a search found too few of the nearest documents" ELSE ""
        ELSE IF ~full /\ missing # {} THEN "a document within the distance is missing"
        ELSE IF full /\ \E id \in missing : 1000 * Dist(q, c.docs[id].v) + Tol < hits[n].d
             THEN "a nearer document was left out"
        ELSE ""

--------------------------------------------------------------------------
(* Looking up a document by the value of a field *)

\* A property is a sequence: its value, then the entries of a list or the
\* key:text pairs of a map, by which such a field is looked up.
Has(c, id, x, f, val) ==
    IF f = "id" THEN id = val
    ELSE /\ f \in DOMAIN x.p
         /\ IF f \in DOMAIN c.idx /\ c.idx[f] \in {"list", "map"}
            THEN \E i \in 2..Len(x.p[f]) : x.p[f][i] = val
            ELSE x.p[f][1] = val
GetJudge(c, f, val, e) ==
    LET sure == {id \in DOMAIN c.docs : Certain(c.docs[id]) /\ Has(c, id, c.docs[id], f, val)}
        may  == {id \in DOMAIN c.docs : \E x \in Versions(c.docs[id]) : Has(c, id, x, f, val)}
    IN  IF e.res = "ok"
        THEN IF \E id \in may : e.id = id /\ \E x \in Versions(c.docs[id]) : Has(c, id, x, f, val) /\ x.p = e.p
             THEN "" ELSE "the document returned does not have the value asked for, or is not current"
        ELSE IF sure # {} /\ f \in DOMAIN c.idx THEN "a stored document was not found"
        ELSE ""

--------------------------------------------------------------------------
(* One request *)

\* the answer the specification demands of a request that is not a read:
\* "ok", "err", or "any" (an interrupted batch)
Verdict(s, e) ==
    CASE e.op = "create" -> "ok"
      [] e.op = "delete" -> "ok"
      [] e.op = "restart" -> "ok"
      [] e.op = "list" -> "ok"
      [] e.op = "raw" -> "err"      \* a malformed request
      [] e.op = "add" ->
            IF e.coll \notin DOMAIN s THEN "err"
            ELSE IF ~Acceptable(s[e.coll], e.docs) THEN "err"
            ELSE IF e.wfault # 0 THEN "any" ELSE "ok"
      [] e.op = "search" ->
            IF e.coll \notin DOMAIN s THEN "err"
            ELSE IF e.vfault /\ e.vf \in {"emptyvec", "nokey"} /\ s[e.coll].dim = 0 THEN "any"
            ELSE IF e.vfault THEN "err"
            ELSE IF s[e.coll].dim = 0 THEN "ok"
            ELSE IF Len(e.q) # s[e.coll].dim THEN "err" ELSE "ok"
      [] e.op = "get" -> IF e.coll \notin DOMAIN s THEN "err" ELSE "read"

WriteJudge(s, e) ==
    LET v == Verdict(s, e) IN
    IF e.res = "panic" THEN "the request panicked"
    ELSE IF e.res = "lost" /\ e.op = "add" THEN ""   \* the process was killed before it answered
    ELSE IF v = "ok" /\ e.res # "ok" THEN "a valid request failed"
    ELSE IF v = "err" /\ e.res # "err" THEN "a request that cannot be served was acknowledged"
    ELSE ""

\* colls: the names and index types listed
ListJudge(s, e) ==
    IF Len(e.colls) # Cardinality({e.colls[i].name : i \in DOMAIN e.colls}) THEN "a collection is listed twice"
    ELSE IF {e.colls[i].name : i \in DOMAIN e.colls} # DOMAIN s THEN "the collections listed are not those that exist"
    ELSE IF \E i \in DOMAIN e.colls : e.colls[i].idx # s[e.colls[i].name].idx THEN "a collection is listed with other indexes"
    ELSE ""

Judge(s, e) ==
    LET w == WriteJudge(s, e) IN
    IF w # "" THEN w
    ELSE CASE e.op = "list" -> ListJudge(s, e)
           [] e.op = "search" -> IF e.res = "ok" THEN SearchJudge(s[e.coll], e.q, e.max, e.edge, e.limit, e.hits) ELSE ""
           [] e.op = "get" -> IF e.coll \in DOMAIN s THEN GetJudge(s[e.coll], e.field, e.val, e) ELSE ""
           [] OTHER -> ""

After(s, e) ==
    CASE e.op = "create" -> IF e.coll \in DOMAIN s THEN s ELSE Put(s, e.coll, NewColl(e.idx))
      [] e.op = "delete" -> Del(s, e.coll)
      [] e.op = "add" ->
            IF e.coll \notin DOMAIN s \/ e.res = "lost" THEN s
            ELSE LET c == s[e.coll] IN
                 IF ~Acceptable(c, e.docs) THEN s
                 ELSE IF e.wfault # 0 /\ e.res # "ok" THEN Put(s, e.coll, Blur(c, e.docs))
                 ELSE Put(s, e.coll, PutDocs(c, e.docs, Len(e.docs)))
      [] OTHER -> s
=============================================================================
