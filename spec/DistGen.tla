------------------------------ MODULE DistGen -------------------------------
(* Inputs of the distance functions, drawn at random. *)
EXTENDS DistOps, Json, Naturals
CONSTANTS Steps, Dims, MaxDim
VARIABLES hist
vars == <<hist>>
Pick(S) == RandomElement(S)
PickSeq(q) == q[RandomElement(1..Len(q))]
Chance(p) == RandomElement(1..100) <= p
Space4 == SetToSeq({v \in (-9..9) \X (-9..9) \X (-9..9) \X (-9..9) : v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4] = 81})
\* mostly zeros with a few entries, or full
Vec(n) == IF Chance(30) THEN LET hot == {Pick(1..n), n} IN [i \in 1..n |-> IF i \in hot THEN Pick(-9..9) ELSE 0]
          ELSE LET w == Pick({1, 9, 40}) IN [i \in 1..n |-> Pick(-w..w)]
Lat(x) == 15 * Pick(-6..6)
Lon(x) == 15 * Pick(-12..12)
Place(x) == IF Chance(30) THEN <<0, Lon(1)>> ELSE <<Lat(1), Lon(1)>>
Near(p) == IF Chance(20) THEN <<-p[1], IF p[2] <= 0 THEN p[2] + 180 ELSE p[2] - 180>>
           ELSE IF Chance(30) THEN <<Lat(1), p[2]>> ELSE Place(1)
Init == hist = <<>>
Step == /\ Len(hist) < Steps
        /\ \E k \in {Pick(1..100)} :
             CASE k <= 75 ->
                   \E n \in {IF Chance(50) THEN Pick(Dims) ELSE Pick(1..MaxDim)} : \E m \in {IF Chance(6) THEN Pick(1..MaxDim) ELSE n} :
                   \E a \in {TLCEval(Vec(n))} : \E b \in {TLCEval(IF n = m /\ Chance(10) THEN a ELSE Vec(m))} :
                     hist' = Append(hist, [op |-> "dist", metric |-> PickSeq(<<"cosine", "dot", "l2", "manhattan", "hamming">>),
                                           how |-> IF n = m THEN Pick({"single", "new", "step", "swap"}) ELSE Pick({"single", "new"}),
                                           cut |-> Pick(0..n), a |-> a, b |-> b, exp |-> Pick({0, 0, 0, 3, -3, 20, -20})])
               [] k <= 88 -> hist' = Append(hist, [op |-> "norm", v |-> PickSeq(Space4), rep |-> Pick({1, 4, 9, 16, 64}),
                                                   exp |-> Pick({0, 1, -1, -3, -4, -5, 20, -20, 40, -40, 60, -60, 70, -70, 90, -90, 110, -110, -130})])
               [] OTHER -> \E p \in {Place(1)} : hist' = Append(hist, [op |-> "geo", how |-> Pick({"single", "new"}), p |-> p, q |-> Near(p)])
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist]))
        /\ hist' = Append(hist, [op |-> "end"])
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
