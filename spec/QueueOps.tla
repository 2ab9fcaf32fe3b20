------------------------------ MODULE QueueOps ------------------------------
(***************************************************************************)
(* The abstract meaning of a priority queue: a bag of numbered items with  *)
(* a distance each. A min queue gives the nearest first, a max queue the   *)
(* farthest. s = [max, bag], where bag is a sequence taken as a bag.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fresh == [max |-> FALSE, bag |-> <<>>]
Better(s, a, b) == IF s.max THEN a > b ELSE a < b
First(s, it) == /\ \E i \in DOMAIN s.bag : s.bag[i] = it
                /\ ~\E i \in DOMAIN s.bag : Better(s, s.bag[i].d, it.d)
Item(e) == [id |-> e.id, idx |-> e.idx, d |-> e.d]

Judge(s, e) ==
    IF e.res # "ok" THEN "the call panicked"
    ELSE CASE e.op \in {"pop", "top"} ->
                IF ~\E i \in DOMAIN s.bag : s.bag[i] = e.item THEN "an item came out that is not in the queue"
                ELSE IF ~First(s, e.item) THEN "an item came out before its turn" ELSE ""
           [] e.op = "len" -> IF e.len = Len(s.bag) THEN "" ELSE "the length is wrong"
           [] e.op = "resetcap" -> IF e.cap >= e.want THEN "" ELSE "the capacity asked for is missing"
           [] OTHER -> ""

After(s, e) ==
    CASE e.op = "new" -> [max |-> e.max, bag |-> <<>>]
      [] e.op = "insert" -> [s EXCEPT !.bag = Append(@, Item(e))]
      [] e.op = "pop" -> [s EXCEPT !.bag = RemoveAt(@, CHOOSE i \in DOMAIN @ : @[i] = e.item)]
      [] e.op \in {"reset", "resetcap"} -> [s EXCEPT !.bag = <<>>]
      [] OTHER -> s
=============================================================================
