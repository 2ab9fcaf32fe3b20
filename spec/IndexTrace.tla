----------------------------- MODULE IndexTrace -----------------------------
(* Recorded executions of the graph index, checked against IndexOps. *)
EXTENDS IndexOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, why
vars == <<t, l, s, why>>
Ev(i) == Traces[i].events
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Fresh([metric |-> "l2", m |-> 64, efc |-> 64, ef |-> 64, dyn |-> <<100, 500, 8>>, cutoff |-> 0]) /\ why = ""
Next == /\ why = ""
        /\ l <= Len(Ev(t))
        /\ \E w \in {Judge(s, Ev(t)[l])} :
              /\ why' = w
              /\ IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<t, l, w>>))
        /\ s' = IF why' = "" THEN After(s, Ev(t)[l]) ELSE s
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
