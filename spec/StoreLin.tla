------------------------------ MODULE StoreLin ------------------------------
(***************************************************************************)
(* Checks recorded executions with concurrent requests: the requests must  *)
(* have taken effect one at a time, each between its call (inv) and its    *)
(* return (ret), in some order StoreOps allows. TLC searches the order.    *)
(* A trace for which there is one prints ACCEPT.                           *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, done, s
vars == <<t, done, s>>

Ev(i) == Traces[i].events

Init == t \in 1..Len(Traces) /\ done = {} /\ s = Empty

\* i may be next: nothing that is still to come had returned before i was called
Ready(ev, i) == /\ i \notin done
                /\ \A j \in DOMAIN ev \ done : ~(ev[j].ret < ev[i].inv)

Step == LET ev == Ev(t) IN
        \E i \in {j \in DOMAIN ev : Ready(ev, j)} :
            /\ Judge(s, ev[i]) = ""
            /\ s' = After(s, ev[i])
            /\ done' = done \cup {i}
            /\ (done' = DOMAIN ev => PrintT("ACCEPT " \o ToString(t)))
            /\ t' = t

Spec == Init /\ [][Step]_vars
=============================================================================
