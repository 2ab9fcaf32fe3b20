------------------------------ MODULE QueueGen ------------------------------
(* Uses of a priority queue, drawn at random. Only the number of items is  *)
(* tracked here: which item comes out first is up to the queue.            *)
EXTENDS QueueOps, Json, Naturals
CONSTANTS Steps, Spread
VARIABLES n, hist, bias
vars == <<n, hist, bias>>
Pick(S) == RandomElement(S)
D(x) == IF Pick(1..40) = 1 THEN Pick({-1000000, 1000000}) ELSE Pick(-Spread..Spread)
Init == n = 0 /\ hist = <<>> /\ bias = 1
Open == /\ hist = <<>>
        /\ hist' = <<[op |-> "new", kind |-> Pick({"plain", "index"}), max |-> Pick({TRUE, FALSE}), cap |-> Pick({0, 0, 1, 4, 100})]>>
        /\ n' = 0 /\ bias' = Pick({1, 1, 2, 3})
Step == /\ hist # <<>> /\ Len(hist) < Steps
        /\ \E k \in {Pick(1..100)} :
             CASE k <= 40 + 6 * bias -> n' = n + 1 /\ hist' = Append(hist, [op |-> "insert", id |-> Pick(0..30), idx |-> Pick(0..3), d |-> D(1)])
               [] k <= 80 -> IF n = 0 THEN UNCHANGED <<n, hist>> ELSE n' = n - 1 /\ hist' = Append(hist, [op |-> "pop"])
               [] k <= 90 -> IF n = 0 THEN UNCHANGED <<n, hist>> ELSE n' = n /\ hist' = Append(hist, [op |-> "top"])
               [] k <= 97 -> n' = n /\ hist' = Append(hist, [op |-> "len"])
               [] k <= 98 -> n' = 0 /\ hist' = Append(hist, [op |-> "reset"])
               [] OTHER -> n' = 0 /\ hist' = Append(hist, [op |-> "resetcap", want |-> Pick({0, 1, 7, 64})])
        /\ UNCHANGED bias
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist \o [i \in 1..n |-> [op |-> "pop"]] \o <<[op |-> "len"]>>]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<n, bias>>
Next == Open \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
