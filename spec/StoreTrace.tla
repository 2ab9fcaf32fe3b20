----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Checks recorded executions of FaVe against StoreOps: every event must   *)
(* be one the specification allows in the store the previous events lead   *)
(* to. One TLC run checks all executions of the file.                      *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s, why
vars == <<t, l, s, why>>

Ev(i) == Traces[i].events

Init == t \in 1..Len(Traces) /\ l = 1 /\ s = Empty /\ why = ""

Next == /\ why = ""
        /\ l <= Len(Ev(t))
        /\ \E w \in {Judge(s, Ev(t)[l])} :
              /\ why' = w
              /\ IF w = "" THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<t, l, w>>))
        /\ s' = IF why' = "" THEN After(s, Ev(t)[l]) ELSE s
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars

Accepted == why = ""
=============================================================================
