------------------------------ MODULE IndexOps ------------------------------
(***************************************************************************)
(* The abstract meaning of the graph index: a finite set of numbered       *)
(* vectors, answered by nearest-neighbour and range searches, kept across  *)
(* a flush and a reopening, and stored as a graph of bounded degree.       *)
(*                                                                         *)
(* An index is [cfg  : [metric, m, efc, ef, dyn, cutoff],                  *)
(*              vec  : function from id to vector (integers),              *)
(*              dead : the ids deleted since it was opened,                *)
(*              kept : vec as of the last flush,                           *)
(*              cnt  : the document count last flushed,                    *)
(*              ever : number of vectors added, including unflushed ones   *)
(*                     that were lost,                                     *)
(*              tied : the graph was last seen with every node reachable   *)
(*                     from every other along lowest-level links,          *)
(*              paused : maintenance of the commit log is paused,          *)
(*              saved : the graph stored when it was paused,               *)
(*              cut : something was deleted at some time]                  *)
(* Distances are integers: N times the cosine distance of vectors of       *)
(* squared length N, or the squared Euclidean, Manhattan, Hamming distance *)
(* or negated dot product.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS N, Tol, Recall

Empty == [x \in {} |-> x]
\* position of the entry with this id in a sequence in order of id
RECURSIVE Bisect(_, _, _, _)
Bisect(q, id, lo, hi) == IF lo >= hi THEN lo
                         ELSE LET mid == (lo + hi) \div 2 IN IF q[mid].id < id THEN Bisect(q, id, mid + 1, hi) ELSE Bisect(q, id, lo, mid)
PutAll(f, items) == LET new == {items[i].id : i \in DOMAIN items}
                    IN  [id \in DOMAIN f \cup new |-> IF id \in new THEN items[Bisect(items, id, 1, Len(items))].v ELSE f[id]]
Sum(f(_, _), a, b) == FoldLeftDomain(LAMBDA acc, i : acc + f(a[i], b[i]), 0, a)
AbsI(x) == IF x < 0 THEN -x ELSE x
Dot(a, b) == Sum(LAMBDA x, y : x * y, a, b)

D(metric, a, b) ==
    CASE metric = "cosine" -> N - Dot(a, b)
      [] metric = "dot" -> -Dot(a, b)
      [] metric = "l2" -> Sum(LAMBDA x, y : (x - y) * (x - y), a, b)
      [] metric = "manhattan" -> Sum(LAMBDA x, y : AbsI(x - y), a, b)
      [] metric = "hamming" -> Sum(LAMBDA x, y : IF x = y THEN 0 ELSE 1, a, b)

Fresh(cfg) == [cfg |-> cfg, vec |-> Empty, dead |-> {}, kept |-> Empty, cnt |-> 0, ever |-> 0, tied |-> FALSE, paused |-> FALSE, saved |-> <<>>, cut |-> FALSE]

\* so few vectors that every one is linked with every other
Exact(s) == s.ever < s.cfg.m /\ s.ever <= s.cfg.efc

Dim(s) == IF s.vec = Empty THEN 0 ELSE Len(s.vec[CHOOSE k \in DOMAIN s.vec : TRUE])

Live(s) == DOMAIN s.vec \ s.dead

\* allow = <<-1>>: no restriction
Allowed(s, e) == IF e.allow = <<-1>> THEN Live(s) ELSE Live(s) \cap {e.allow[i] : i \in DOMAIN e.allow}

Near(a, milli) == AbsI(milli - 1000 * a) <= Tol

\* the number of candidates a search for k keeps: as configured, or, if that is
\* left open, k times a factor within bounds, but never less than k
Ef(s, k) == LET lo == s.cfg.dyn[1] hi == s.cfg.dyn[2] f == s.cfg.dyn[3]
                auto == IF k * f > hi THEN hi ELSE IF k * f < lo THEN lo ELSE k * f
            IN  Max({k, IF s.cfg.ef < 1 THEN auto ELSE s.cfg.ef})

\* a search restricted to few vectors compares them one by one
Flat(s, e) == e.allow # <<-1>> /\ Cardinality({e.allow[i] : i \in DOMAIN e.allow}) < s.cfg.cutoff

\* a search that may look at more candidates than there are vectors sees every
\* vector its links lead to
Exhaustive(s, ef) == s.tied /\ Cardinality(DOMAIN s.vec) <= ef

\* every hit is a live, allowed vector with its own distance, in order, once
Sound(s, e) ==
    LET n == Len(e.hits)
        allowed == Allowed(s, e)
    IN
    IF \E i \in 1..n : e.hits[i].id \notin DOMAIN s.vec THEN "a hit was never added"
    ELSE IF \E i \in 1..n : e.hits[i].id \in s.dead THEN "a hit was deleted"
    ELSE IF \E i \in 1..n : e.hits[i].id \notin allowed THEN "a hit is not on the allow list"
    ELSE IF \E i \in 1..n : ~Near(D(s.cfg.metric, e.q, s.vec[e.hits[i].id]), e.hits[i].d) THEN "a hit has another distance"
    ELSE IF Cardinality({e.hits[i].id : i \in 1..n}) # n THEN "a vector is returned twice"
    ELSE IF \E i \in 1..(n-1) : e.hits[i].d > e.hits[i+1].d THEN "hits are not in order of distance"
    ELSE ""

\* the search looks at enough candidates for its recall to mean something
Wide(s, e) == /\ s.cfg.metric \in {"cosine", "l2", "manhattan"}
              /\ s.cfg.m >= 16
              /\ CASE e.op = "knn" -> Ef(s, e.k) >= 80
                   [] e.op = "range" -> e.ef >= 100
                   [] OTHER -> FALSE

\* cap: at most this many are asked for; max: none farther; exact: nothing may be left out
Complete(s, e, cap, bounded, exact) ==
    LET n == Len(e.hits)
        got == {e.hits[i].id : i \in 1..n}
        dist(id) == D(s.cfg.metric, e.q, s.vec[id])
        due == {id \in Allowed(s, e) : bounded => dist(id) <= e.max}
        nearer == {id \in due \ got : n = 0 \/ 1000 * dist(id) + Tol < e.hits[n].d}
        missing == IF n >= cap THEN nearer ELSE due \ got
    IN  IF n > cap THEN "more hits than asked for"
        ELSE IF bounded /\ \E i \in 1..n : e.hits[i].d > 1000 * e.max + 500 THEN "a hit is farther away than asked for"
        ELSE IF exact /\ missing # {} THEN "a nearer vector was left out"
        ELSE IF ~exact /\ Wide(s, e) /\ Cardinality(due) >= 10 /\ 100 * Cardinality(missing) > (100 - Recall) * Min({cap, Cardinality(due)}) THEN "too few of the nearest vectors were found"
        ELSE ""

SearchJudge(s, e) ==
    LET w == Sound(s, e) IN
    IF w # "" THEN w
    ELSE CASE e.op = "knn" -> Complete(s, e, e.k, FALSE, Exact(s) \/ Flat(s, e) \/ Exhaustive(s, Ef(s, e.k)))
           [] e.op = "range" -> Complete(s, e, e.ef, TRUE, Exact(s) \/ Exhaustive(s, e.ef))
           [] e.op = "dist" -> Complete(s, e, 1000000, TRUE, Exact(s) \/ Flat(s, e) \/ Exhaustive(s, Ef(s, 100)))

\* every node of a stored graph is reachable from every other on the lowest level
Tied(nodes) ==
    LET out == TLCEval([i \in DOMAIN nodes |-> {nodes[i].links[1][j] : j \in DOMAIN nodes[i].links[1]}])
        ids == {nodes[i].id : i \in DOMAIN nodes}
        RECURSIVE forth(_, _)
        forth(seen, front) ==
            IF front = {} THEN seen
            ELSE LET next == (UNION {out[Bisect(nodes, id, 1, Len(nodes))] : id \in front}) \ seen
                 IN  forth(seen \cup next, next)
        RECURSIVE back(_)
        back(seen) ==
            LET next == {nodes[i].id : i \in {k \in DOMAIN nodes : out[k] \cap seen # {}}} \ seen
            IN  IF next = {} THEN seen ELSE back(seen \cup next)
    IN  Len(nodes) > 0 /\ forth({nodes[1].id}, {nodes[1].id}) = ids /\ back({nodes[1].id}) = ids

\* a graph read from commit logs against one that was stored
LogJudge(log, g) ==
    IF log.ep # g.ep THEN "the commit log tells of another entrypoint"
    ELSE IF Len(log.nodes) # Len(g.nodes) \/ \E i \in DOMAIN g.nodes : log.nodes[i].id # g.nodes[i].id THEN "the commit log tells of other nodes"
    ELSE IF \E i \in DOMAIN g.nodes : log.nodes[i].level # g.nodes[i].level \/ log.nodes[i].links # g.nodes[i].links THEN "the commit log tells of other links"
    ELSE IF \E i \in DOMAIN g.nodes : g.nodes[i].id = g.ep /\ g.nodes[i].level # log.level THEN "the commit log tells of another top layer"
    ELSE ""
\* the files listed for a backup against the graph stored when maintenance was paused
CopyJudge(copy, g) == LET w == LogJudge(copy, g) IN IF w = "" THEN "" ELSE "the files of the backup are not those of the graph: " \o w

\* the stored graph: nodes is a sequence of [id, level, links, v], in order of id
GraphJudge(s, e) ==
    LET f == [i \in DOMAIN e.nodes |-> e.nodes[i]]
        ids == {f[i].id : i \in DOMAIN f}
        at == TLCEval([id \in ids |-> Bisect(f, id, 1, Len(f))])
        node(id) == f[at[id]]
        max(l) == IF l = 1 THEN 2 * s.cfg.m ELSE s.cfg.m
        all(P(_)) == \A i \in DOMAIN f : P(f[i])
        links(n) == UNION {{<<l, n.links[l][j]>> : j \in DOMAIN n.links[l]} : l \in DOMAIN n.links}
        RECURSIVE reach(_, _)
        reach(seen, front) ==
            IF front = {} THEN seen
            ELSE LET next == (UNION {{node(id).links[1][j] : j \in DOMAIN node(id).links[1]} : id \in front}) \ seen
                 IN  reach(seen \cup next, next)
    IN  IF ids # DOMAIN s.kept THEN "the vectors stored are not those flushed"
        ELSE IF ~all(LAMBDA n : n.v = s.kept[n.id]) THEN "a stored vector is not the one added"
        ELSE IF ~all(LAMBDA n : Len(n.links) = n.level + 1) THEN "a stored node does not have as many levels as it says"
        ELSE IF ~all(LAMBDA n : \A x \in links(n) : x[2] \in ids) THEN "a stored link leads nowhere"
        ELSE IF ~all(LAMBDA n : \A x \in links(n) : node(x[2]).level + 1 >= x[1]) THEN "a stored link leads to a node that is not on its level"
        ELSE IF ~all(LAMBDA n : \A l \in DOMAIN n.links : Cardinality({n.links[l][j] : j \in DOMAIN n.links[l]}) = Len(n.links[l])) THEN "a stored node is linked twice to another"
        ELSE IF ~all(LAMBDA n : \A l \in DOMAIN n.links : Len(n.links[l]) <= max(l)) THEN "a stored node has more links than configured"
        ELSE IF ids # {} /\ e.ep \notin ids THEN "the stored entrypoint is no stored node"
        ELSE IF ~s.cut /\ ~all(LAMBDA n : n.level <= node(e.ep).level) THEN "the stored entrypoint is not on the highest level"
        ELSE IF ids # {} /\ Exact(s) /\ reach({e.ep}, {e.ep}) # ids THEN "a stored node cannot be reached from the entrypoint"
        ELSE IF "log" \notin DOMAIN e \/ ids = {} THEN ""
        ELSE LogJudge(e.log, e)

Verdict(s, e) ==
    CASE e.op = "validate" -> IF Dim(s) = 0 \/ Len(e.v) = Dim(s) THEN "ok" ELSE "err"
      [] e.op = "addempty" -> "err"
      [] e.op \in {"knn", "range", "dist"} -> "ok"
      [] OTHER -> "ok"

Judge(s, e) ==
    IF e.res = "panic" THEN "the call panicked"
    ELSE IF Verdict(s, e) # e.res THEN (IF e.res = "err" THEN "a valid call failed" ELSE "an invalid call was acknowledged")
    ELSE CASE e.op \in {"knn", "range", "dist"} /\ e.res = "ok" -> SearchJudge(s, e)
           [] e.op = "count" -> IF e.count = s.cnt THEN "" ELSE "the document count is not the one flushed"
           [] e.op = "dump" -> GraphJudge(s, e)
           [] e.op = "pause" -> LET w == GraphJudge(s, e) IN IF w # "" THEN w ELSE CopyJudge(e.copy, e)
           [] e.op = "copy" -> CopyJudge(e.copy, s.saved)
           [] OTHER -> ""

After(s, e) ==
    CASE e.op = "open" -> Fresh(e.cfg)
      [] e.op = "add" -> [s EXCEPT !.vec = PutAll(@, e.items), !.ever = @ + Len(e.items), !.tied = FALSE]
      [] e.op = "delete" -> [s EXCEPT !.dead = @ \cup {e.ids[i] : i \in DOMAIN e.ids}, !.cut = TRUE]
      [] e.op = "flush" -> [s EXCEPT !.kept = s.vec, !.cnt = e.count]
      [] e.op = "reopen" -> [s EXCEPT !.vec = s.kept, !.dead = {}, !.tied = @ /\ s.vec = s.kept]
      [] e.op = "dump" /\ "nodes" \in DOMAIN e -> [s EXCEPT !.tied = s.vec = s.kept /\ Tied(e.nodes)]
      [] e.op = "update" -> [s EXCEPT !.cfg = [@ EXCEPT !.ef = e.cfg.ef, !.dyn = e.cfg.dyn, !.cutoff = e.cfg.cutoff]]
      [] e.op = "pause" -> [s EXCEPT !.paused = TRUE, !.saved = IF "nodes" \in DOMAIN e THEN [nodes |-> e.nodes, ep |-> e.ep] ELSE <<>>]
      [] e.op = "resume" -> [s EXCEPT !.paused = FALSE]
      [] OTHER -> s
=============================================================================
