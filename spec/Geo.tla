-------------------------------- MODULE Geo --------------------------------
(* Exact plane geometry on integer points <<x, y>> : the meaning of "land", *)
(* "sight line" and "touches" used by every other module.  A polygon is a   *)
(* sequence of points, simple and counter-clockwise, with no three          *)
(* consecutive points on a line.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n

\* Twice the signed area of the triangle o, a, b
Cross(o, a, b) == (a[1]-o[1])*(b[2]-o[2]) - (a[2]-o[2])*(b[1]-o[1])
Dot(o, a, b)   == (a[1]-o[1])*(b[1]-o[1]) + (a[2]-o[2])*(b[2]-o[2])
Dist2(a, b)    == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])

InBox(p, a, b) ==
    /\ p[1] <= Max2(a[1], b[1]) /\ p[1] >= Min2(a[1], b[1])
    /\ p[2] <= Max2(a[2], b[2]) /\ p[2] >= Min2(a[2], b[2])
OnSeg(p, a, b) == InBox(p, a, b) /\ Cross(a, b, p) = 0

\* The open segments cross at one point that is an endpoint of neither
Proper(a, b, c, d) ==
    /\ Sgn(Cross(a, b, c)) * Sgn(Cross(a, b, d)) < 0
    /\ Sgn(Cross(c, d, a)) * Sgn(Cross(c, d, b)) < 0
\* The closed segments have a point in common
Touch(a, b, c, d) ==
    \/ Proper(a, b, c, d)
    \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)

Nxt(P, i) == P[IF i = Len(P) THEN 1 ELSE i + 1]
Prv(P, i) == P[IF i = 1 THEN Len(P) ELSE i - 1]
PtsOf(P) == {P[i] : i \in 1..Len(P)}

\* Twice the signed area (fan around the first vertex)
RECURSIVE FanArea(_, _)
FanArea(P, i) == IF i >= Len(P) THEN 0 ELSE Cross(P[1], P[i], P[i+1]) + FanArea(P, i + 1)
Area2(P) == FanArea(P, 2)

OnBoundary(p, P) == \E i \in 1..Len(P) : OnSeg(p, P[i], Nxt(P, i))
\* Ray casting to the east with half-open edges: exact, decides strict interior
Inside(p, P) ==
    /\ ~OnBoundary(p, P)
    /\ Cardinality({i \in 1..Len(P) :
            LET c == P[i]
                d == Nxt(P, i)
            IN /\ (c[2] > p[2]) # (d[2] > p[2])
               /\ Sgn(Cross(c, d, p)) = (IF d[2] > c[2] THEN 1 ELSE -1)}) % 2 = 1

\* Going from v towards t one is at first strictly inside the polygon whose
\* boundary passes u, v, w (counter-clockwise)
InCone(u, v, w, t) ==
    LET o == Cross(u, v, w) IN
    IF o > 0 THEN Cross(v, w, t) > 0 /\ Cross(v, t, u) > 0
    ELSE IF o < 0 THEN ~(Cross(v, u, t) >= 0 /\ Cross(v, t, w) >= 0)
    ELSE Cross(v, w, t) > 0

\* Bounding boxes, only to skip polygons that a segment cannot meet
Box(P) == [x0 |-> CHOOSE m \in {P[i][1] : i \in 1..Len(P)} : \A i \in 1..Len(P) : m <= P[i][1],
           x1 |-> CHOOSE m \in {P[i][1] : i \in 1..Len(P)} : \A i \in 1..Len(P) : m >= P[i][1],
           y0 |-> CHOOSE m \in {P[i][2] : i \in 1..Len(P)} : \A i \in 1..Len(P) : m <= P[i][2],
           y1 |-> CHOOSE m \in {P[i][2] : i \in 1..Len(P)} : \A i \in 1..Len(P) : m >= P[i][2]]
Apart(a, b, B) ==
    \/ (a[1] < B.x0 /\ b[1] < B.x0) \/ (a[1] > B.x1 /\ b[1] > B.x1)
    \/ (a[2] < B.y0 /\ b[2] < B.y0) \/ (a[2] > B.y1 /\ b[2] > B.y1)

\* Some point of the segment a-b lies strictly inside P
CutsInterior(a, b, P) ==
    \/ Inside(a, P) \/ Inside(b, P)
    \/ \E i \in 1..Len(P) :
        LET u == Prv(P, i)
            c == P[i]
            d == Nxt(P, i)
        IN \/ Proper(a, b, c, d)
           \/ a # b /\ OnSeg(a, c, d) /\ a # c /\ a # d /\ Cross(c, d, b) > 0
           \/ a # b /\ OnSeg(b, c, d) /\ b # c /\ b # d /\ Cross(c, d, a) > 0
           \/ /\ OnSeg(c, a, b)
              /\ \/ a # c /\ InCone(u, c, d, a)
                 \/ b # c /\ InCone(u, c, d, b)

\* The segment a-b meets P at most in its own endpoints, as common vertices
\* (or is one of the sides of P)
FreeOf(a, b, P) ==
    /\ ~CutsInterior(a, b, P)
    /\ \A i \in 1..Len(P) :
        LET c == P[i]
            d == Nxt(P, i)
        IN IF {c, d} = {a, b} THEN TRUE
           ELSE IF ~Touch(a, b, c, d) THEN TRUE
           ELSE \/ a \in {c, d} /\ ~OnSeg(b, c, d) /\ ~OnSeg(IF a = c THEN d ELSE c, a, b)
                \/ b \in {c, d} /\ ~OnSeg(a, c, d) /\ ~OnSeg(IF b = c THEN d ELSE c, a, b)

\* A simple, counter-clockwise polygon in normal form
WellFormed(P) ==
    /\ Len(P) >= 3
    /\ Cardinality(PtsOf(P)) = Len(P)
    /\ Area2(P) > 0
    /\ \A i \in 1..Len(P) : Cross(Prv(P, i), P[i], Nxt(P, i)) # 0
    /\ \A i, j \in 1..Len(P) :
          (i < j /\ j # i + 1 /\ ~(i = 1 /\ j = Len(P))) => ~Touch(P[i], Nxt(P, i), P[j], Nxt(P, j))
Disjoint(P, Q) ==
    /\ \A i \in 1..Len(P), j \in 1..Len(Q) : ~Touch(P[i], Nxt(P, i), Q[j], Nxt(Q, j))
    /\ ~Inside(P[1], Q) /\ ~Inside(Q[1], P)

\* Three possible verdicts on the segment a-b and a set of polygons with boxes
\*   "x" it passes through the interior of one, "c" it is clear of all of them
\*   (see FreeOf), "g" it grazes: touches some boundary, enters no interior
Verdict(a, b, polys) ==
    IF \E i \in 1..Len(polys) : ~Apart(a, b, polys[i].box) /\ CutsInterior(a, b, polys[i].v) THEN "x"
    ELSE IF \A i \in 1..Len(polys) : Apart(a, b, polys[i].box) \/ FreeOf(a, b, polys[i].v) THEN "c"
    ELSE "g"

\* Integer square root (floor), for distances: n < 2^30
RECURSIVE ISqrtUp(_, _, _)
ISqrtUp(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2 IN
                           IF m <= 46340 /\ m * m <= n THEN ISqrtUp(n, m, hi) ELSE ISqrtUp(n, lo, m)
ISqrt(n) == ISqrtUp(n, 0, 46341)
=============================================================================
