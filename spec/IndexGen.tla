------------------------------ MODULE IndexGen ------------------------------
(***************************************************************************)
(* Behaviours of the graph index, drawn at random by TLC (-simulate):      *)
(* a configuration, then additions, deletions, flushes, reopenings and     *)
(* searches of every kind.                                                 *)
(***************************************************************************)
EXTENDS IndexOps, Json, Naturals

CONSTANTS Mix, Steps, Metrics, Ms, Efs, MaxBatch, MinBatch, MaxNodes,
          Gap,       \* ids grow by up to this much
          Deletes,   \* FALSE: no deletion (so that reopening is allowed)
          Dims       \* dimensions of the vectors of metrics other than cosine

VARIABLES s, hist, next, dim
vars == <<s, hist, next, dim>>

Pick(S) == RandomElement(S)
PickSeq(q) == q[RandomElement(1..Len(q))]
Chance(pct) == RandomElement(1..100) <= pct

Space4 == SetToSeq({v \in (-9..9) \X (-9..9) \X (-9..9) \X (-9..9) : v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4] = N})
Vec(x) == IF s.cfg.metric = "cosine" THEN PickSeq(Space4)
          ELSE LET w == Pick({1, 3, 9}) IN [i \in 1..dim |-> Pick(-w..w)]

Cfg(x) == [metric |-> PickSeq(Metrics), m |-> PickSeq(Ms), efc |-> Pick({64, 100, 128}), ef |-> PickSeq(Efs),
           dyn |-> PickSeq(<<<<100, 500, 8>>, <<100, 500, 8>>, <<1, 4, 1>>, <<20, 60, 2>>, <<100, 1000, 10>>>>), cutoff |-> Pick({0, 0, 5, 40000})]

\* half of the time everything, else a random part of all ids, some never added
Allow(x) == IF Chance(60) \/ DOMAIN s.vec = {} THEN <<-1>>
            ELSE LET p == Pick({5, 30, 80}) IN SetToSeq({id \in DOMAIN s.vec : Chance(p)} \cup (IF Chance(20) THEN {next + 3} ELSE {}))

MaxD == CASE s.cfg.metric = "cosine" -> 2 * N
          [] s.cfg.metric = "hamming" -> dim
          [] OTHER -> 60 * dim
\* the distance at which a search by distance alone turns its first page
Hundredth(q) == SortSeq(SetToSeq({<<D(s.cfg.metric, q, s.vec[id]), id>> : id \in DOMAIN s.vec}), LAMBDA a, b : a[1] < b[1])[100][1]
Req(kind) ==
    CASE kind = "add" ->
           \E n \in {Min({Pick(MinBatch..MaxBatch), MaxNodes - Cardinality(DOMAIN s.vec)})} :
           \E gaps \in {TLCEval([i \in 1..Max({n, 1}) |-> Pick(1..Gap)])} :
             LET id(i) == IF Gap = 1 THEN next + i - 1 ELSE next + FoldLeftDomain(LAMBDA a, j : IF j < i THEN a + gaps[j] ELSE a, 0, gaps)
             IN  \E items \in {TLCEval([i \in 1..n |-> [id |-> id(i), v |-> Vec(i)]])} :
                 /\ hist' = Append(hist, [op |-> "add", items |-> items])
                 /\ s' = After(s, hist'[Len(hist')])
                 /\ next' = IF n = 0 THEN next ELSE items[n].id + gaps[n]
                 /\ UNCHANGED dim
      [] kind = "addempty" -> hist' = Append(hist, [op |-> "addempty", id |-> next]) /\ UNCHANGED <<s, next, dim>>
      [] kind = "validate" ->
           /\ hist' = Append(hist, [op |-> "validate", v |-> IF Chance(50) THEN Vec(1) ELSE [i \in 1..Pick(1..9) |-> 1]])
           /\ UNCHANGED <<s, next, dim>>
      [] kind = "flush" ->
           \* ids other than 0 are the first only in an index nothing was flushed to
           IF Gap > 1 /\ s.vec = Empty THEN UNCHANGED vars
           ELSE \E o \in {[op |-> "flush", count |-> next]} :
             hist' = Append(hist, o) /\ s' = After(s, o) /\ UNCHANGED <<next, dim>>
      [] kind = "reopen" ->
           \* ids that were handed out but not flushed are handed out again
           IF s.paused \/ s.dead # {} \/ (Gap > 1 /\ s.vec # s.kept) THEN UNCHANGED vars
           ELSE hist' = Append(hist, [op |-> "reopen"]) /\ s' = After(s, [op |-> "reopen"]) /\ next' = (IF Gap > 1 THEN next ELSE s.cnt) /\ UNCHANGED dim
      [] kind = "flushed" ->
           \* flush, look at what is stored, and perhaps close and open again
           IF s.vec = Empty THEN UNCHANGED vars
           ELSE \E o \in {[op |-> "flush", count |-> next]} :
             hist' = hist \o <<o, [op |-> "dump"]>> \o (IF ~s.paused /\ s.dead = {} /\ Chance(50) THEN <<[op |-> "reopen"]>> ELSE <<>>) /\ s' = After(s, o) /\ UNCHANGED <<next, dim>>
      [] kind = "backup" ->
           \* pause maintenance, list the files; read them again, perhaps later; resume
           IF s.vec = Empty THEN UNCHANGED vars
           ELSE IF ~s.paused THEN
             \E o \in {[op |-> "flush", count |-> next]} :
               hist' = hist \o <<o, [op |-> "pause"]>> /\ s' = After(After(s, o), [op |-> "pause"]) /\ UNCHANGED <<next, dim>>
           ELSE hist' = hist \o <<[op |-> "copy"], [op |-> "resume"]>> /\ s' = After(s, [op |-> "resume"]) /\ UNCHANGED <<next, dim>>
      [] kind = "count" -> hist' = Append(hist, [op |-> "count"]) /\ UNCHANGED <<s, next, dim>>
      [] kind = "dump" ->
           IF s.vec # s.kept THEN UNCHANGED vars
           ELSE hist' = Append(hist, [op |-> "dump"]) /\ UNCHANGED <<s, next, dim>>
      [] kind = "update" ->
           \E o \in {[op |-> "update", cfg |-> [Cfg(1) EXCEPT !.metric = s.cfg.metric, !.m = s.cfg.m, !.efc = s.cfg.efc]]} :
             hist' = Append(hist, o) /\ s' = After(s, o) /\ UNCHANGED <<next, dim>>
      [] kind = "delete" ->
           IF ~Deletes \/ Live(s) = {} \/ s.vec # s.kept THEN UNCHANGED vars
           ELSE \E ids \in {TLCEval(SetToSeq({id \in Live(s) : Chance(15)}))} :
                \E o \in {[op |-> "delete", ids |-> ids]} :
                  IF ids = <<>> \/ Len(ids) = Cardinality(Live(s)) THEN UNCHANGED vars
                  ELSE hist' = Append(hist, o) /\ s' = After(s, o) /\ UNCHANGED <<next, dim>>
      [] kind \in {"knn", "dist"} ->
           IF s.kept = Empty THEN UNCHANGED vars
           ELSE \E q \in {TLCEval(Vec(1))} :
                /\ hist' = Append(hist, [op |-> kind, q |-> q, k |-> Pick({1, 2, 5, 10, 50, 300}), max |-> IF kind = "dist" /\ Cardinality(DOMAIN s.vec) > 100 /\ Chance(50) THEN Hundredth(q)
                                                                 ELSE IF Chance(30) THEN 100000 ELSE Pick(-5..MaxD), allow |-> Allow(1)])
                /\ UNCHANGED <<s, next, dim>>
      [] kind = "range" ->
           /\ hist' = Append(hist, [op |-> kind, q |-> Vec(1), ef |-> Pick({1, 3, 10, 100, 800}), max |-> IF Chance(40) THEN 100000 ELSE Pick(-5..MaxD), allow |-> Allow(1)])
           /\ UNCHANGED <<s, next, dim>>

Init == \E cfg \in {[metric |-> "l2", m |-> 64, efc |-> 64, ef |-> 64, dyn |-> <<100, 500, 8>>, cutoff |-> 0]} :
          s = Fresh(cfg) /\ hist = <<>> /\ next = 0 /\ dim = 4
Open == /\ hist = <<>>
        /\ \E cfg \in {Cfg(1)} : \E first \in {Pick({0, 0, 1, 7, 24990, 40000})} : \E d \in {Pick(Dims)} :
             /\ hist' = <<[op |-> "open", cfg |-> cfg]>>
             /\ s' = Fresh(cfg)
             /\ next' = IF Gap = 1 THEN 0 ELSE first
             /\ dim' = d
Step == hist # <<>> /\ Len(hist) < Steps /\ \E k \in {PickSeq(Mix)} : Req(k)
Final == IF Deletes THEN <<>>
         ELSE IF s.vec = Empty THEN <<>>
         ELSE (IF s.paused THEN <<[op |-> "copy"], [op |-> "resume"]>> ELSE <<>>)
              \o <<[op |-> "flush", count |-> next], [op |-> "dump"], [op |-> "reopen"], [op |-> "dump"], [op |-> "count"]>>
Emit == /\ Len(hist) >= Steps /\ hist[Len(hist)].op # "end"
        /\ PrintT("SCHED " \o ToJson([events |-> hist \o Final]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<s, next, dim>>
Next == Open \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
