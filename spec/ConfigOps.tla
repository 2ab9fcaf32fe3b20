----------------------------- MODULE ConfigOps ------------------------------
(***************************************************************************)
(* The settings of an index: what is given takes effect, what is not given *)
(* has its default, what cannot be used is refused. Values are texts.      *)
(* given is a sequence of [k, kind, v].                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fresh == [x |-> 0]
Ints == {"cleanupIntervalSeconds", "maxConnections", "efConstruction", "ef", "dynamicEfMin", "dynamicEfMax", "dynamicEfFactor",
         "vectorCacheMaxObjects", "flatSearchCutoff", "pq.segments", "pq.centroids"}
Bools == {"skip", "pq.enabled", "pq.bitCompression"}
Encoders == {"kmeans", "tile"}
Distributions == {"log-normal", "normal"}
Default == [k \in Ints \cup Bools \cup {"distance", "pq.encoder.type", "pq.encoder.distribution"} |->
    CASE k = "cleanupIntervalSeconds" -> "300" [] k = "maxConnections" -> "64" [] k = "efConstruction" -> "128" [] k = "ef" -> "-1"
      [] k = "dynamicEfMin" -> "100" [] k = "dynamicEfMax" -> "500" [] k = "dynamicEfFactor" -> "8"
      [] k = "vectorCacheMaxObjects" -> "1000000000000" [] k = "flatSearchCutoff" -> "40000" [] k = "pq.segments" -> "0" [] k = "pq.centroids" -> "256"
      [] k \in Bools -> "FALSE" [] k = "distance" -> "cosine" [] k = "pq.encoder.type" -> "kmeans" [] OTHER -> "log-normal"]

Has(given, k) == \E i \in DOMAIN given : given[i].k = k
Get(given, k) == given[CHOOSE i \in DOMAIN given : given[i].k = k]
Text(g) == CASE g.kind = "huge" -> "9223372036854775807" [] g.kind = "str" -> g.v [] OTHER -> ToString(g.v)
Value(given, k) == IF Has(given, k) THEN Text(Get(given, k)) ELSE Default[k]
TooSmall(given, k) == Has(given, k) /\ Get(given, k).kind # "huge" /\ Get(given, k).v < 4
Refused(given) == \/ \E i \in DOMAIN given : given[i].kind = "bad"
                  \/ TooSmall(given, "maxConnections") \/ TooSmall(given, "efConstruction")
                  \/ Has(given, "pq.encoder.type") /\ Get(given, "pq.encoder.type").v \notin Encoders
                  \/ Has(given, "pq.encoder.distribution") /\ Get(given, "pq.encoder.distribution").v \notin Distributions

Immutable == {"efConstruction", "maxConnections", "cleanupIntervalSeconds"}
Expect(e) == CASE e.op = "parse" -> IF e.shape = "nil" THEN "ok" ELSE IF e.shape # "map" THEN "err" ELSE IF Refused(e.given) THEN "err" ELSE "ok"
               [] e.op = "update" -> IF \E k \in Immutable : Value(e.old, k) # Value(e.new, k) THEN "err" ELSE "ok"
               [] e.op = "validate" -> IF e.missing = <<>> THEN "ok" ELSE "err"
               [] e.op = "encoder" -> IF e.name \in Encoders THEN "ok" ELSE "err"
               [] e.op = "distribution" -> IF e.name \in Distributions THEN "ok" ELSE "err"
Judge(s, e) ==
    IF e.res = "panic" THEN "the call panicked"
    ELSE IF e.res # Expect(e) THEN (IF e.res = "err" THEN "usable settings were refused" ELSE "unusable settings were accepted")
    ELSE IF e.op = "parse" /\ e.res = "ok" /\ \E k \in DOMAIN Default : e.out[k] # (IF e.shape = "nil" THEN Default[k] ELSE Value(e.given, k)) THEN "a setting does not have its value"
    ELSE ""
After(s, e) == s
=============================================================================
