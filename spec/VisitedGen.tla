----------------------------- MODULE VisitedGen -----------------------------
(* Uses of visited lists and their pool, drawn at random. *)
EXTENDS VisitedOps, Json, Naturals, FiniteSetsExt
CONSTANTS Steps, Sizes, Far
VARIABLES s, hist, next, size, par
vars == <<s, hist, next, size, par>>
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
\* numbers around the borders of a list of this size, or anywhere up to Far
Node(x) == IF Chance(70) THEN Pick(0..(size + 2)) ELSE IF Chance(50) THEN Pick(size..(2 * size + 1100)) ELSE Pick(0..Far)
Nodes(k) == [i \in 1..Pick(1..k) |-> Node(i)]
Init == s = Fresh /\ hist = <<>> /\ next = 1 /\ size = 1 /\ par = 0
Do(o) == hist' = Append(hist, o) /\ s' = After(s, o)
Open == /\ hist = <<>>
        /\ \E z \in {Pick(Sizes)} : size' = z /\ hist' = <<[op |-> "pool", n |-> Pick(0..3), size |-> z]>>
        /\ UNCHANGED <<s, next, par>>
Step ==
    /\ hist # <<>> /\ Len(hist) < Steps
    /\ \E k \in {Pick(1..100)} :
       IF DOMAIN s.held = {} \/ (k <= 10 /\ Cardinality(DOMAIN s.held) < 5)
       THEN \E o \in {IF Chance(80) THEN [op |-> "borrow", h |-> next] ELSE [op |-> "list", h |-> next, size |-> Pick({0, 1, size})]} :
              Do(o) /\ next' = next + 1 /\ UNCHANGED <<size, par>>
       ELSE \E h \in {Pick(DOMAIN s.held)} : \E ns \in {TLCEval(Nodes(6))} : \E more \in {TLCEval(Nodes(6))} :
            /\ CASE k <= 45 -> Do([op |-> "visit", h |-> h, nodes |-> ns])
                 [] k <= 75 -> Do([op |-> "scan", h |-> h, ask |-> more \o SetToSeq(s.held[h])])
                 [] k <= 82 -> Do([op |-> "resets", h |-> h, n |-> Pick({1, 1, 1, 2, 253, 254, 255, 256, 257, 509, 510, 511})])
                 [] k <= 93 -> Do([op |-> "return", h |-> h])
                 [] k <= 98 -> Do([op |-> "par", workers |-> Pick(2..6), rounds |-> Pick(1..4), nodes |-> Pick(1..8)])
                 [] OTHER -> Do([op |-> "destroy"])
            /\ UNCHANGED <<next, size, par>>
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist \o SetToSeq({[op |-> "scan", h |-> h, ask |-> SetToSeq(s.held[h] \cup 0..9)] : h \in DOMAIN s.held})]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<s, next, size, par>>
Next == Open \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
