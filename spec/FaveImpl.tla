------------------------------ MODULE FaveImpl ------------------------------
(***************************************************************************)
(* How FaVe implements the document store: tables of documents and graph   *)
(* nodes that become durable when the feeds are published, an index in     *)
(* memory per collection, index ids handed out by a count, one lock. Every *)
(* request is broken into the steps at which a crash, a failing write or   *)
(* another request may come in between. Each answer is judged by the very  *)
(* specification (StoreOps) that judges the answers of the real code, so   *)
(* Correct says: this design implements StoreOps.                          *)
(*                                                                         *)
(* Bug selects a faulty design; TLC has to find each of them out.          *)
(***************************************************************************)
EXTENDS StoreOps

CONSTANTS Threads,  \* clients
          Names,    \* collections
          Ids,      \* document ids
          Batches,  \* at most this many requests to add documents
          MaxBatch, \* documents per batch
          Faults, Crashes, Deletes,  \* at most this many of each
          Bug

VARIABLES pub,      \* the durable tables: collection -> [docs, nodes, count]
          live,     \* the tables as the process sees them
          index,    \* loaded indexes: collection -> [nodes not yet stored, next id]
          lock,     \* the client that holds the store, or None
          thr,      \* what every client is doing
          abs,      \* the abstract store (StoreOps)
          left,     \* remaining batches, faults, crashes, deletions
          tick,     \* makes every version of a document distinct
          verdict   \* what is wrong with the last answer, "" if nothing
vars == <<pub, live, index, lock, thr, abs, left, tick, verdict>>

None == "none"
Idle == [pc |-> "idle"]
Vecs == {<<9>>, <<-9>>}
NoTable == [docs |-> Empty, nodes |-> Empty, count |-> 0]
Fields == ("id" :> "string") @@ ("hnswId" :> "number")

Init == /\ pub = [c \in Names |-> NoTable] /\ live = pub /\ index = Empty /\ lock = None
        /\ thr = [t \in Threads |-> Idle]
        /\ abs = [c \in Names |-> NewColl(Fields)]
        /\ left = [batches |-> Batches, faults |-> Faults, crashes |-> Crashes, deletes |-> Deletes]
        /\ tick = 0 /\ verdict = ""

\* an answer given: it must be right, and the abstract store moves on
Answer(e) == /\ verdict' = Judge(abs, e) /\ abs' = After(abs, e)

--------------------------------------------------------------------------
(* Adding documents *)

DocsOf(n, ids, vecs, t) == [i \in 1..n |-> [id |-> ids[i], p |-> [rev |-> t * 10 + i], sc |-> 1, bad |-> "",
                                            kind |-> IF vecs[i] = <<>> THEN "none" ELSE "vec", v |-> vecs[i]]]
Begin(t) ==
    /\ thr[t] = Idle /\ left.batches > 0
    /\ \E c \in Names : \E n \in 1..MaxBatch : \E ids \in [1..n -> Ids] : \E vecs \in [1..n -> Vecs \cup {<<>>}] :
         thr' = [thr EXCEPT ![t] = [pc |-> "lock", c |-> c, docs |-> DocsOf(n, ids, vecs, tick), i |-> 1, fault |-> FALSE, err |-> FALSE]]
    /\ left' = [left EXCEPT !.batches = @ - 1] /\ tick' = tick + 1
    /\ UNCHANGED <<pub, live, index, lock, abs, verdict>>

Next0(c) == IF c \in DOMAIN index /\ Bug # "storedcount" /\ index[c].next > live[c].count THEN index[c].next ELSE live[c].count
Acquire(t) ==
    /\ thr[t].pc = "lock" /\ (lock = None \/ Bug = "nolock")
    /\ LET c == thr[t].c IN
       IF c \notin DOMAIN abs
       THEN /\ thr' = [thr EXCEPT ![t] = Idle] /\ UNCHANGED <<index, lock>>
            /\ Answer([op |-> "add", coll |-> c, docs |-> thr[t].docs, wfault |-> 0, res |-> "err"])
       ELSE /\ lock' = t
            /\ index' = IF c \in DOMAIN index THEN index ELSE Put(index, c, [dirty |-> Empty, next |-> live[c].count])
            /\ thr' = [thr EXCEPT ![t] = [@ EXCEPT !.pc = "doc"] @@ [next |-> Next0(c)]]
            /\ UNCHANGED <<abs, verdict>>
    /\ UNCHANGED <<pub, live, left, tick>>

\* the i-th document: into the graph in memory, then into the document table
PutDoc(t) ==
    /\ thr[t].pc = "doc"
    /\ LET c == thr[t].c
           d == thr[t].docs[thr[t].i]
           vec == d.kind = "vec"
           h == IF vec THEN thr[t].next ELSE 1000 + Len(d.id)
           last == thr[t].i = Len(thr[t].docs)
           after(fail) == [thr[t] EXCEPT !.pc = IF fail \/ last THEN "nodes" ELSE "doc", !.i = @ + 1, !.err = fail, !.fault = fail,
                                         !.next = IF vec THEN @ + 1 ELSE @]
       IN  /\ index' = IF vec THEN [index EXCEPT ![c].dirty = Put(@, h, d.v)] ELSE index
           /\ \/ /\ live' = [live EXCEPT ![c].docs = Put(@, d.id, [p |-> d.p, h |-> h])]
                 /\ thr' = [thr EXCEPT ![t] = after(FALSE)] /\ UNCHANGED left
              \/ /\ left.faults > 0 /\ left' = [left EXCEPT !.faults = @ - 1]
                 /\ UNCHANGED live /\ thr' = [thr EXCEPT ![t] = after(TRUE)]
    /\ IF Bug = "early" /\ thr[t].i = 1 THEN pub' = live' ELSE UNCHANGED pub
    /\ UNCHANGED <<lock, abs, tick, verdict>>

\* flushing: the nodes one after another, then the count
FlushNode(t) ==
    /\ thr[t].pc = "nodes"
    /\ LET c == thr[t].c IN
       IF (DOMAIN index[c].dirty = {}) \/ (Bug = "skipflush" /\ thr[t].err)
       THEN thr' = [thr EXCEPT ![t].pc = "count"] /\ UNCHANGED <<live, index, left>>
       ELSE LET h == CHOOSE x \in DOMAIN index[c].dirty : TRUE IN
            \/ /\ live' = [live EXCEPT ![c].nodes = Put(@, h, index[c].dirty[h])]
               /\ index' = [index EXCEPT ![c].dirty = Del(@, h)] /\ UNCHANGED <<left, thr>>
            \/ /\ left.faults > 0 /\ left' = [left EXCEPT !.faults = @ - 1] /\ UNCHANGED <<live, index>>
               /\ thr' = [thr EXCEPT ![t].pc = "fail", ![t].fault = TRUE]
    /\ UNCHANGED <<pub, lock, abs, tick, verdict>>
Keep(c, n) == [index EXCEPT ![c].next = IF n > @ THEN n ELSE @]
FlushCount(t) ==
    /\ thr[t].pc = "count"
    /\ LET c == thr[t].c IN
       /\ index' = Keep(c, thr[t].next)
       /\ \/ /\ live' = [live EXCEPT ![c].count = IF Bug = "lostcount" /\ thr[t].err THEN @ ELSE thr[t].next]
             /\ thr' = [thr EXCEPT ![t].pc = "commit"] /\ UNCHANGED left
          \/ /\ left.faults > 0 /\ left' = [left EXCEPT !.faults = @ - 1] /\ UNCHANGED live
             /\ thr' = [thr EXCEPT ![t].pc = "fail", ![t].fault = TRUE]
    /\ UNCHANGED <<pub, lock, abs, tick, verdict>>
Reply(t, res) == Answer([op |-> "add", coll |-> thr[t].c, docs |-> thr[t].docs, wfault |-> IF thr[t].fault THEN 1 ELSE 0, res |-> res])
Commit(t) ==
    /\ thr[t].pc = "commit"
    /\ pub' = IF Bug = "nocommit" THEN pub ELSE live
    /\ Reply(t, IF thr[t].err /\ Bug # "swallow" THEN "err" ELSE "ok")
    /\ lock' = None /\ thr' = [thr EXCEPT ![t] = Idle]
    /\ UNCHANGED <<live, index, left, tick>>
\* the flush failed: nothing is published; the ids stay in use
Fail(t) ==
    /\ thr[t].pc = "fail"
    /\ index' = Keep(thr[t].c, thr[t].next)
    /\ Reply(t, "err")
    /\ lock' = None /\ thr' = [thr EXCEPT ![t] = Idle]
    /\ UNCHANGED <<pub, live, left, tick>>

--------------------------------------------------------------------------
(* Reading. A search goes through the nodes in memory and those stored, and *)
(* joins them with the documents by index id.                              *)

Nodes(c) == (IF c \in DOMAIN index THEN index[c].dirty ELSE Empty) @@ live[c].nodes
Hits(c, q) ==
    LET nodes == Nodes(c)
        owner(h) == {id \in DOMAIN live[c].docs : live[c].docs[id].h = h}
        hs == {h \in DOMAIN nodes : owner(h) # {}}
        hit(h) == LET id == CHOOSE x \in owner(h) : TRUE IN [id |-> id, p |-> live[c].docs[id].p, d |-> 1000 * Dist(q, nodes[h])]
        ord == SetToSortSeq(hs, LAMBDA a, b : Dist(q, nodes[a]) < Dist(q, nodes[b]) \/ (Dist(q, nodes[a]) = Dist(q, nodes[b]) /\ a < b))
    IN  [i \in DOMAIN ord |-> hit(ord[i])]
Search ==
    /\ lock = None \/ Bug = "readpast"
    /\ \E c \in DOMAIN abs : \E q \in Vecs :
         Answer([op |-> "search", coll |-> c, q |-> q, max |-> 2 * N, edge |-> FALSE, limit |-> 0, hits |-> Hits(c, q), res |-> "ok", vfault |-> FALSE, vf |-> ""])
    /\ UNCHANGED <<pub, live, index, lock, thr, left, tick>>
Get ==
    /\ lock = None
    /\ \E c \in DOMAIN abs : \E id \in Ids :
         Answer([op |-> "get", coll |-> c, field |-> "id", val |-> id] @@
                (IF id \in DOMAIN live[c].docs THEN [res |-> "ok", id |-> id, p |-> live[c].docs[id].p] ELSE [res |-> "err"]))
    /\ UNCHANGED <<pub, live, index, lock, thr, left, tick>>

--------------------------------------------------------------------------
(* Deleting and creating a collection, crashing *)

Delete ==
    /\ lock = None /\ left.deletes > 0
    /\ \E c \in DOMAIN abs :
         /\ live' = [live EXCEPT ![c] = NoTable]
         /\ pub' = IF Bug = "volatiledelete" THEN pub ELSE live'
         /\ index' = Del(index, c)
         /\ Answer([op |-> "delete", coll |-> c, res |-> "ok"])
    /\ left' = [left EXCEPT !.deletes = @ - 1]
    /\ UNCHANGED <<lock, thr, tick>>
Create ==
    /\ lock = None
    /\ \E c \in Names \ DOMAIN abs : Answer([op |-> "create", coll |-> c, idx |-> Fields, res |-> "ok"])
    /\ UNCHANGED <<pub, live, index, lock, thr, left, tick>>
Crash ==
    /\ left.crashes > 0 /\ left' = [left EXCEPT !.crashes = @ - 1]
    /\ live' = pub /\ index' = Empty /\ lock' = None /\ thr' = [t \in Threads |-> Idle]
    /\ UNCHANGED <<pub, abs, tick, verdict>>

Next == \/ \E t \in Threads : Begin(t) \/ Acquire(t) \/ PutDoc(t) \/ FlushNode(t) \/ FlushCount(t) \/ Commit(t) \/ Fail(t)
        \/ Search \/ Get \/ Delete \/ Create \/ Crash
Spec == Init /\ [][Next]_vars

Correct == verdict = ""
\* an index id names one vector for good: no two documents share one, and a
\* document's vector is the one stored under its id
OneEach == lock = None => \A c \in DOMAIN abs : \A a, b \in DOMAIN live[c].docs :
              a # b /\ live[c].docs[a].h = live[c].docs[b].h => live[c].docs[a].h >= 1000
Joined == \A c \in DOMAIN abs : \A id \in DOMAIN pub[c].docs :
              LET h == pub[c].docs[id].h IN h < 1000 => h \in DOMAIN pub[c].nodes /\ h < pub[c].count
=============================================================================
