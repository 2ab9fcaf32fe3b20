----------------------------- MODULE ConfigGen ------------------------------
(* Settings, drawn at random. *)
EXTENDS ConfigOps, Json, Naturals
CONSTANTS Steps
VARIABLES hist
vars == <<hist>>
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Num(k) == IF k \in {"maxConnections", "efConstruction"} THEN Pick({-1, 0, 3, 4, 4, 5, 16, 64, 128, 200})
          ELSE Pick({-1, 0, 1, 2, 7, 100, 500, 40000, 123456789})
Setting(k) ==
    IF k \in Ints THEN [k |-> k, kind |-> IF Chance(2) THEN "bad" ELSE IF Chance(5) THEN "huge" ELSE Pick({"num", "float"}), v |-> Num(k)]
    ELSE IF k \in Bools THEN [k |-> k, kind |-> "bool", v |-> Pick({TRUE, FALSE})]
    ELSE [k |-> k, kind |-> "str",
          v |-> CASE k = "distance" -> Pick({"cosine", "dot", "l2-squared", "manhattan", "hamming"})
                  [] k = "pq.encoder.type" -> IF Chance(15) THEN Pick({"", "foo", "Tile"}) ELSE Pick(Encoders)
                  [] OTHER -> IF Chance(15) THEN Pick({"", "uniform"}) ELSE Pick(Distributions)]
Given(p) == LET ks == {k \in DOMAIN Default : Chance(p)} IN SetToSeq({TLCEval(Setting(k)) : k \in ks})
Old(x) == LET ks == {k \in Ints : k # "pq.segments" /\ k # "pq.centroids" /\ Chance(40)} IN SetToSeq({TLCEval([k |-> k, kind |-> "num", v |-> Num(k)]) : k \in ks})
Init == hist = <<>>
Step == /\ Len(hist) < Steps
        /\ \E k \in {Pick(1..100)} :
             CASE k <= 60 -> \E g \in {TLCEval(Given(Pick({5, 20, 60})))} :
                               hist' = Append(hist, [op |-> "parse", shape |-> IF Chance(94) THEN "map" ELSE Pick({"nil", "list", "nilmap"}), given |-> g])
               [] k <= 80 -> \E a \in {TLCEval(Old(1))} :
                             \E b \in {TLCEval(IF Chance(60) THEN SelectSeq(a, LAMBDA x : x.k \in Immutable) \o (IF Chance(50) THEN <<>> ELSE SelectSeq(Old(1), LAMBDA x : x.k \notin Immutable)) ELSE Old(1))} :
                               hist' = Append(hist, [op |-> "update", old |-> a, new |-> b])
               [] k <= 90 -> hist' = Append(hist, [op |-> "validate", missing |-> SetToSeq({x \in {"id", "root", "log", "vector", "distance"} : Chance(15)})])
               [] k <= 95 -> hist' = Append(hist, [op |-> "encoder", name |-> Pick({"kmeans", "tile", "", "KMEANS", "normal"})])
               [] OTHER -> hist' = Append(hist, [op |-> "distribution", name |-> Pick({"log-normal", "normal", "", "tile"})])
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist]))
        /\ hist' = Append(hist, [op |-> "end"])
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
