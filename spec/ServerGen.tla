----------------------------- MODULE ServerGen ------------------------------
(* Environments and given settings, drawn at random. *)
EXTENDS ServerOps, Json
CONSTANTS Steps
VARIABLES hist
Pick(S) == RandomElement(S)
Text(k) == Pick({"", "", "x", "http://other:1", "a b", k, "0", "off", "=", "ä"})
\* with a parameter, because TLC evaluates a constant once only
Texts(n) == [k \in Names |-> Text(k)]
Init == hist = <<>>
Step == /\ Len(hist) < Steps
        /\ \E g \in {TLCEval(Texts(hist))} : \E v \in {TLCEval(Texts(hist))} :
             hist' = Append(hist, [op |-> "server", known |-> g, env |-> v, verbose |-> Pick(BOOLEAN),
                                   flag |-> Pick({"", "on", "enabled", "1", "true", "off", "0", "false", "yes", "TRUE", "disabled"})])
Emit == /\ Len(hist) = Steps
        /\ PrintT("SCHED " \o ToJson([events |-> hist]))
        /\ hist' = Append(hist, [op |-> "end"])
Next == Step \/ Emit
Spec == Init /\ [][Next]_hist
=============================================================================
