----------------------------- MODULE ServerOps ------------------------------
(***************************************************************************)
(* The settings a server starts with: those of its environment, else those *)
(* known, else the defaults. known, env and out are functions from the     *)
(* name of a setting to text; "" stands for none.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Names == {"bee", "rpc", "stamp", "vectorizer", "user", "password", "pod"}
Default(k) == CASE k = "bee" -> "http://localhost:1633"
                [] k = "stamp" -> "0000000000000000000000000000000000000000000000000000000000000000"
                [] OTHER -> ""
On == {"on", "enabled", "1", "true"}
Fresh == [none |-> 0]
Judge(s, e) ==
    IF e.res # "ok" THEN "the call panicked"
    ELSE IF \E k \in Names : e.out[k] # (IF e.env[k] # "" THEN e.env[k] ELSE IF e.known[k] # "" THEN e.known[k] ELSE Default(k))
         THEN "a setting is not that of the environment, the one given or the default"
    ELSE IF e.loud # (e.verbose \/ e.flag \in On) THEN "verbosity is not as asked for"
    ELSE ""
After(s, e) == s
=============================================================================
