----------------------------- MODULE VisitedOps -----------------------------
(***************************************************************************)
(* The abstract meaning of visited lists and their pool: every list        *)
(* somebody holds is a set of numbers; a list from the pool is empty.      *)
(* s = [held : function from handle to set of numbers]                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Empty == [x \in {} |-> x]
Fresh == [held |-> Empty]
Range2(q) == {q[i] : i \in DOMAIN q}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Judge(s, e) ==
    IF e.res # "ok" THEN "the call panicked"
    ELSE CASE e.op = "scan" ->
                IF \E x \in Range2(e.got) : x \notin s.held[e.h] THEN "a number counts as visited that was not"
                ELSE IF \E x \in Range2(e.ask) \cap s.held[e.h] : x \notin Range2(e.got) THEN "a visited number was forgotten"
                ELSE ""
           [] e.op = "par" ->
                IF \E i \in DOMAIN e.runs : e.runs[i].before # <<>> THEN "a list from the pool is not empty"
                ELSE IF \E i \in DOMAIN e.runs : Range2(e.runs[i].after) # Range2(e.runs[i].mine) THEN "two holders share a list"
                ELSE ""
           [] OTHER -> ""

After(s, e) ==
    CASE e.op = "pool" -> s
      [] e.op \in {"borrow", "list"} -> [held |-> Put(s.held, e.h, {})]
      [] e.op = "return" -> [held |-> Drop(s.held, e.h)]
      [] e.op = "visit" -> [held |-> Put(s.held, e.h, s.held[e.h] \cup Range2(e.nodes))]
      [] e.op = "resets" -> IF e.n = 0 THEN s ELSE [held |-> Put(s.held, e.h, {})]
      [] OTHER -> s
=============================================================================
