------------------------------- MODULE Meeting ------------------------------
(* Do two segments meet, and where?  Run on all pairs of segments of a small *)
(* grid.  The computation is the usual one: the determinants of the two      *)
(* linear equations, parallel ones treated apart (they meet only where they  *)
(* share an end), then a comparison of the determinants to see whether the   *)
(* common point of the lines is on both segments.  It is compared with what  *)
(* meeting means (module Geo).                                               *)
EXTENDS Geo, Json
CONSTANTS NX, NY,
          Variant,     \* "ok", or a mistake: "line" (the second segment may be extended), "open" (ends do not count),
                       \* "side" (the sign of the determinant is forgotten)
          Tell
VARIABLES a, b, c, d, det, q1, q2, res, pc
vars == <<a, b, c, d, det, q1, q2, res, pc>>
Grid == (0..(NX - 1)) \X (0..(NY - 1))
None == <<>>
Init == /\ a \in Grid /\ b \in Grid /\ a # b
        /\ c = a /\ d = b /\ det = 0 /\ q1 = 0 /\ q2 = 0 /\ res = None /\ pc = "first"
Second == /\ pc = "first"
          /\ pc' = "solve"
          /\ \E x, y \in Grid : x # y /\ c' = x /\ d' = y
          /\ UNCHANGED <<a, b, det, q1, q2, res>>
\* a + (b - a) * q1 / det = c + (d - c) * q2 / det
Solve == LET u == <<b[1] - a[1], b[2] - a[2]>>
             v == <<d[1] - c[1], d[2] - c[2]>>
             w == <<c[1] - a[1], c[2] - a[2]>>
             D == u[1] * v[2] - u[2] * v[1]
         IN /\ pc = "solve"
            /\ pc' = "bound"
            /\ det' = D
            /\ q1' = w[1] * v[2] - w[2] * v[1]
            /\ q2' = w[1] * u[2] - w[2] * u[1]
            /\ UNCHANGED <<a, b, c, d, res>>
In(q) == LET m == IF Variant = "side" THEN Abs(q) ELSE IF det < 0 THEN -q ELSE q
         IN IF Variant = "open" THEN m > 0 /\ m < Abs(det) ELSE m >= 0 /\ m <= Abs(det)
Common == {a, b} \cap {c, d}
\* The point as a fraction: <<x, y, denominator>>
Bound == /\ pc = "bound"
         /\ pc' = "done"
         /\ res' = IF det = 0 THEN (IF Common = {} THEN None ELSE LET p == CHOOSE p \in Common : TRUE IN <<p[1], p[2], 1>>)
                   ELSE IF In(q1) /\ (Variant = "line" \/ In(q2))
                        THEN <<a[1] * det + (b[1] - a[1]) * q1, a[2] * det + (b[2] - a[2]) * q1, det>>
                   ELSE None
         /\ Tell => PrintT("@" \o ToJson([s |-> <<a, b, c, d>>, par |-> det = 0, x |-> res', on |-> OnSeg(c, a, b),
                                           side |-> Sgn(Cross(a, b, c)), eq |-> {a, b} = {c, d}]))
         /\ UNCHANGED <<a, b, c, d, det, q1, q2>>
Next == Second \/ Solve \/ Bound
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* The fraction p / n is a point of the segment s-t
Lies(p, s, t) == LET n == Abs(p[3])
                     g == IF p[3] < 0 THEN -1 ELSE 1
                     up(x) == <<x[1] * n, x[2] * n>>
                 IN OnSeg(<<g * p[1], g * p[2]>>, up(s), up(t))
Refines == pc = "done" =>
    /\ det # 0 => (res # None) = Touch(a, b, c, d)
    /\ res # None => Lies(res, a, b) /\ Lies(res, c, d)
    /\ det = 0 => (res # None) = (Common # {})
=============================================================================
