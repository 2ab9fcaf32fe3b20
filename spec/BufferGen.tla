----------------------------- MODULE BufferGen ------------------------------
(* Uses of the buffered writer, drawn at random; byte k of a history is k mod 251. *)
EXTENDS Json, Integers, Sequences, TLC
CONSTANTS Steps, Sizes, Most
VARIABLES hist, size, next
vars == <<hist, size, next>>
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Bytes(n) == [i \in 1..n |-> (next + i) % 251]
Length(x) == IF Chance(50) THEN Pick(0..size) ELSE IF Chance(50) THEN Pick({size - 1, size, size + 1, 2 * size, 2 * size + 1}) ELSE Pick(0..(3 * size))
\* code points of one to four bytes
Runes == <<[r |-> 65, d |-> <<65>>], [r |-> 233, d |-> <<195, 169>>], [r |-> 8364, d |-> <<226, 130, 172>>], [r |-> 128512, d |-> <<240, 159, 152, 128>>], [r |-> 127, d |-> <<127>>], [r |-> 128, d |-> <<194, 128>>]>>
Init == hist = <<>> /\ size = 1 /\ next = 0
Do(o) == hist' = Append(hist, o) /\ UNCHANGED size
Open == /\ hist = <<>>
        /\ \E z \in {Pick(Sizes)} : \E b \in {Chance(5)} : size' = (IF z <= 0 THEN 4096 ELSE z) /\ hist' = <<[op |-> "bopen", size |-> z, bad |-> b, cap |-> Pick(0..(3 * size))]>>
        /\ UNCHANGED next
Step ==
    /\ hist # <<>> /\ Len(hist) < Steps
    /\ \E k \in {Pick(1..100)} : \E n \in {Length(k)} : \E c \in {IF n < 0 THEN 0 ELSE IF n > Most THEN Most ELSE n} : \E r \in {Pick(1..6)} :
         /\ CASE k <= 35 -> Do([op |-> "bwrite", data |-> Bytes(c)])
              [] k <= 50 -> Do([op |-> "bbyte", data |-> Bytes(1)])
              [] k <= 65 -> Do([op |-> "brune", rune |-> Runes[r].r, data |-> Runes[r].d])
              [] k <= 80 -> Do([op |-> "bstring", data |-> Bytes(c)])
              [] k <= 95 -> Do([op |-> "bflush"])
              [] OTHER -> Do([op |-> "breset", bad |-> Chance(20), cap |-> Pick(0..(3 * size))])
         /\ next' = next + c + 1
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> Append(hist, [op |-> "bflush"])]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<size, next>>
Next == Open \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
