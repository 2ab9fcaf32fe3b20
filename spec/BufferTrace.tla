---- MODULE BufferTrace ----
(* Recorded executions, checked against BufferOps. *)
EXTENDS BufferOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s, why
vars == <<t, l, s, why>>
Ev(i) == Traces[i].events
Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Fresh /\ why = ""
Next == /\ why = ""
        /\ l <= Len(Ev(t))
        /\ \E w \in {Judge(s, Ev(t)[l])} :
              /\ why' = w
              /\ IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<t, l, w>>))
        /\ s' = IF why' = "" THEN After(s, Ev(t)[l]) ELSE s
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_vars
====
