------------------------------- MODULE Routes -------------------------------
(* What a shortest-path query may answer.  Lengths are planar, in 1/1000 of  *)
(* a grid unit, given as an interval Lo..Hi because they are irrational.     *)
EXTENDS World

INF == 2000000000

\* floor(1000 * sqrt(n)) up to an error of 1, for n <= 20 000 000
Milli(n) == LET s == ISqrt(100 * n)
                r == 100 * n - s * s
            IN 100 * s + (r * 100) \div (2 * s + 1)
\* The hypotenuse of dx, dy >= 0
HypLo(dx, dy) == IF dx <= 3000 /\ dy <= 3000 THEN Milli(dx*dx + dy*dy)
                 ELSE 1000 * Max2(dx, dy)
HypHi(dx, dy) == IF dx <= 3000 /\ dy <= 3000 THEN Milli(dx*dx + dy*dy) + 2
                 ELSE 1000 * (Max2(dx, dy) + 1 + (Min2(dx, dy) * Min2(dx, dy)) \div (2 * Max2(dx, dy)))

\* Length of the direct line, and of the line across the antimeridian
DirectLo(a, b) == HypLo(Abs(a[1]-b[1]), Abs(a[2]-b[2]))
DirectHi(a, b) == HypHi(Abs(a[1]-b[1]), Abs(a[2]-b[2]))
AcrossLo(a, b, W) == HypLo(W - Abs(a[1]-b[1]), Abs(a[2]-b[2]))
AcrossHi(a, b, W) == HypHi(W - Abs(a[1]-b[1]), Abs(a[2]-b[2]))
\* Distance on the cylinder: what search radii are measured with
NearLo(a, b, W) == Min2(DirectLo(a, b), AcrossLo(a, b, W))
NearHi(a, b, W) == Min2(DirectHi(a, b), AcrossHi(a, b, W))

\* An upper bound of the length the network charges for a-b, INF if it need
\* not join them (dv, av: verdicts on the direct line and across)
MustCost(dv, av, a, b, W) ==
    IF dv = "c" THEN DirectHi(a, b)
    ELSE IF av # "c" THEN INF
    ELSE IF dv = "g" THEN Max2(DirectHi(a, b), AcrossHi(a, b, W))
    ELSE AcrossHi(a, b, W)
\* A lower bound of the length of a leg a-b of an answer, INF if it cuts land.
\* A free direct line counts even where the line across would be shorter.
LegCost(dv, av, a, b, W) ==
    IF dv = "c" THEN DirectLo(a, b)
    ELSE IF dv = "g" /\ av = "x" THEN DirectLo(a, b)
    ELSE IF dv = "g" THEN Min2(DirectLo(a, b), AcrossLo(a, b, W))
    ELSE IF av # "x" THEN AcrossLo(a, b, W)
    ELSE INF

Plus(x, y) == IF x >= INF \/ y >= INF \/ x > INF - y THEN INF ELSE x + y
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x

\* Shortest distances from node s over a cost matrix, nodes 1..n, by relaxation
RECURSIVE Relax(_, _, _, _)
Relax(dist, cost, n, k) ==
    LET nd == TLCEval([i \in 1..n |-> MinOf({dist[i]} \cup {Plus(dist[j], cost[j][i]) : j \in 1..n})])
    IN IF k = 0 \/ nd = dist THEN dist ELSE Relax(nd, cost, n, k - 1)
ShortestFrom(s, cost, n) == Relax([i \in 1..n |-> IF i = s THEN 0 ELSE INF], cost, n, n)

\* Verdict on the straight line from s to d the short way round the cylinder.
\* With half a period or more between them either way may be meant.
ShortWay(s, d, cp, W) ==
    LET dx == Abs(s[1] - d[1]) IN
    IF 2 * dx < W THEN DirectV(s, d, cp) ELSE AcrossV(s, d, cp, W)

\* Sum of a sequence of leg costs
RECURSIVE SumFrom(_, _)
SumFrom(q, i) == IF i > Len(q) THEN 0 ELSE Plus(q[i], SumFrom(q, i + 1))
=============================================================================
