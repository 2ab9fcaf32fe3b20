------------------------------ MODULE DistOps -------------------------------
(***************************************************************************)
(* The distance functions, on vectors of small whole numbers, where every  *)
(* one of them is a whole number that can be computed exactly; the         *)
(* normalisation of vectors of length 9; and distances on the globe.       *)
(* Recorded distances are in thousandths.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Fresh == [x |-> 0]
AbsI(x) == IF x < 0 THEN -x ELSE x
Sum(f(_, _), a, b) == FoldLeftDomain(LAMBDA acc, i : acc + f(a[i], b[i]), 0, a)
D(metric, a, b) ==
    CASE metric = "cosine" -> 1 - Sum(LAMBDA x, y : x * y, a, b)
      [] metric = "dot" -> -Sum(LAMBDA x, y : x * y, a, b)
      [] metric = "l2" -> Sum(LAMBDA x, y : (x - y) * (x - y), a, b)
      [] metric = "manhattan" -> Sum(LAMBDA x, y : AbsI(x - y), a, b)
      [] metric = "hamming" -> Sum(LAMBDA x, y : IF x = y THEN 0 ELSE 1, a, b)

\* ten thousand times the cosine of a multiple of 15 degrees
Quarter == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
RECURSIVE Cos(_)
Cos(a) == IF a < 0 THEN Cos(-a) ELSE IF a > 360 THEN Cos(a - 360) ELSE IF a > 180 THEN Cos(360 - a)
          ELSE IF a > 90 THEN -Cos(180 - a) ELSE Quarter[a \div 15 + 1]
Sin(a) == Cos(90 - a)
Div(x) == IF x < 0 THEN -((-x) \div 10000) ELSE x \div 10000
\* ten thousand times the cosine of the angle between two places <<latitude, longitude>>
Between(p, q) == Div(Sin(p[1]) * Sin(q[1]) + Cos(p[1]) * Div(Cos(q[1]) * Cos(p[2] - q[2])))

\* metres along a meridian or the equator
Straight(p, q) == (p[2] = q[2]) \/ (p[1] = 0 /\ q[1] = 0 /\ AbsI(p[2] - q[2]) <= 180)
Degrees(p, q) == AbsI(p[1] - q[1]) + AbsI(p[2] - q[2])

Judge(s, e) ==
    IF e.res = "panic" THEN "the call panicked"
    ELSE CASE e.op = "dist" ->
                IF Len(e.a) # Len(e.b) THEN (IF e.res = "err" THEN "" ELSE "vectors of different dimension have a distance")
                ELSE IF e.res = "err" THEN "two vectors of one dimension have no distance"
                ELSE IF e.d # 1000 * D(e.metric, e.a, e.b) THEN "the distance is wrong" ELSE ""
           [] e.op = "norm" ->
                IF Len(e.out) # Len(e.v) THEN "the normalised vector has another dimension"
                ELSE IF \E i \in DOMAIN e.v : AbsI(e.out[i] - 1000 * e.v[i]) > 2 THEN "the normalised vector is wrong" ELSE ""
           [] e.op = "geo" ->
                IF e.res = "err" THEN "two places have no distance"
                ELSE IF e.nan THEN "the distance is not a number"
                ELSE IF Straight(e.p, e.q) /\ AbsI(e.m - 111195 * Degrees(e.p, e.q)) > 40 THEN "the distance on the globe is wrong"
                ELSE IF AbsI(e.cos - Between(e.p, e.q)) > 8 THEN "the distance on the globe is wrong" ELSE ""
           [] OTHER -> ""
After(s, e) == s
=============================================================================
