----------------------------- MODULE CommitGen ------------------------------
(* Changes of a graph as an index logs them, with switches of the file,     *)
(* condensing and combining of old files, reopening and crashes in between. *)
EXTENDS CommitOps, Json, Naturals
CONSTANTS Steps, Mode,  \* "files", "cut" or "auto"
          Deletes,      \* are nodes deleted
          Ids, MaxLevel
VARIABLES s, hist
vars == <<s, hist>>
Pick(S) == RandomElement(S)
Chance(p) == RandomElement(1..100) <= p
Nodes == DOMAIN s.g.node
Do(o) == hist' = Append(hist, o) /\ s' = After(s, o)
Level(x) == IF Chance(60) THEN 0 ELSE Pick(0..MaxLevel)
Some(n) == [i \in 1..Pick(0..n) |-> Pick(Ids)]
\* k-th of all numbers up to what a log of this many changes can have
Maint ==
    \E k \in {Pick(1..100)} :
        CASE k <= 30 -> Do([op |-> "switch"])
          [] k <= 60 -> Do([op |-> "condense", which |-> Pick(0..9)])
          [] k <= 72 -> Do([op |-> "combine", limit |-> Pick({0, 60, 150, 400, 1000000})])
          [] k <= 76 -> Do([op |-> "diecondense", which |-> Pick(0..9), part |-> Pick(0..100), half |-> Pick(BOOLEAN)])
          [] k <= 80 -> Do([op |-> "diecombine", limit |-> Pick({60, 150, 400, 1000000}), part |-> Pick(0..100), half |-> Pick(BOOLEAN)])
          [] k <= 84 -> Do([op |-> "reopen"])
          [] k <= 88 -> Do([op |-> "failcondense", which |-> Pick(0..9), bytes |-> Pick(0..150)])
          [] k <= 91 -> Do([op |-> "failcombine", bytes |-> Pick(0..150)])
          [] k <= 94 -> Do([op |-> "crash"])
          [] OTHER -> Do([op |-> "restore"])
Log ==
    \E k \in {Pick(1..100)} :
    IF Nodes = {} \/ k <= 18 THEN
         \E id \in {Pick(Ids)} : IF id \in Nodes THEN UNCHANGED vars ELSE Do([op |-> "node", id |-> id, level |-> Level(1)])
    ELSE \E id \in {Pick(Nodes)} : \E l \in {Pick(0..s.g.node[id].level)} : \E to \in {Pick(Ids)} : \E tos \in {TLCEval(Some(5))} :
         CASE k <= 45 -> Do([op |-> "link", id |-> id, level |-> l, to |-> to])
           [] k <= 65 -> Do([op |-> "replace", id |-> id, level |-> l, tos |-> tos])
           [] k <= 72 -> Do([op |-> "ep", id |-> id, level |-> s.g.node[id].level])
           [] k <= 79 -> Do([op |-> "tomb", id |-> id])
           [] k <= 84 -> IF s.g.tomb = {} THEN UNCHANGED vars ELSE Do([op |-> "untomb", id |-> Pick(s.g.tomb)])
           [] k <= 90 -> Do([op |-> "clearat", id |-> id, level |-> l])
           [] k <= 94 -> Do([op |-> "clear", id |-> id])
           [] k <= 98 -> IF Deletes THEN Do([op |-> "del", id |-> id]) ELSE UNCHANGED vars
           [] OTHER -> IF Deletes /\ Chance(40) THEN Do([op |-> "reset"]) ELSE UNCHANGED vars
Init == s = Fresh /\ hist = <<>>
Open == hist = <<>> /\ hist' = <<[op |-> "start", mode |-> Mode, limit |-> Pick({60, 200, 1000}), combine |-> Pick({0, 100, 1000, 100000})]>> /\ UNCHANGED s
Step == /\ hist # <<>> /\ Len(hist) < Steps
        /\ CASE Mode = "files" -> IF Chance(25) THEN Maint ELSE Log
             [] Mode = "cut" -> Log
             [] OTHER -> IF Chance(5) THEN Do([op |-> "pause"]) ELSE IF Chance(2) THEN Do([op |-> "reopen"]) ELSE Log
\* every place of the file, in steps of a prime
Final == IF Mode = "cut" THEN <<[op |-> "restore"]>> \o [i \in 1..40 |-> [op |-> "cut", part |-> i]]
         ELSE <<[op |-> "restore"], [op |-> "reopen"], [op |-> "restore"]>>
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist \o Final]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED s
Next == Open \/ Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
