----------------------------- MODULE FileFormat -----------------------------
(* The layout of a graph file, all numbers little endian:                   *)
(*   u64 number of polygons; for each: u64 number of vertices, and for each  *)
(*     vertex i32 longitude, i32 latitude in microdegrees;                   *)
(*   for each vertex i (from 0): ceil(i / 8) bytes, bit l of byte k says     *)
(*     whether it is joined to vertex 8k + l;                                *)
(*   u64 number of edges across the meridian; for each edge i, j with j < i: *)
(*     u64 j + (i*i + i) / 2.                                                *)
(* Whatever comes after that means nothing.                                  *)
(* A graph is [polys: sequence of sequences of <<lon, lat>>, edges: set of   *)
(* <<i, j, label>> with j < i and label 1 plain, 2 across].                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CeilDiv(a, b) == (a + b - 1) \div b
\* Numbers below 2^31 suffice; \div and % round down, which is two's complement
U64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0>>
I32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
\* The value of up to four bytes from position p on, with the last one counting as signed
I32At(f, p) == f[p] + 256 * f[p + 1] + 65536 * f[p + 2] + 16777216 * (IF f[p + 3] > 127 THEN f[p + 3] - 256 ELSE f[p + 3])
U64At(f, p) == IF \E k \in 4..7 : f[p + k] # 0 THEN -1 ELSE I32At(f, p)

RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
NVerts(polys) == LET RECURSIVE Sum(_)
                     Sum(i) == IF i > Len(polys) THEN 0 ELSE Len(polys[i]) + Sum(i + 1)
                 IN Sum(1)
Joined(g, i, j) == \E x \in {1, 2} : <<i, j, x>> \in g.edges
PolyBytes(P) == U64(Len(P)) \o Cat([k \in 1..Len(P) |-> I32(P[k][1]) \o I32(P[k][2])], 1)
RowByte(g, i, k) == LET bit(l) == IF 8*k + l < i /\ Joined(g, i, 8*k + l) THEN 1 ELSE 0
                    IN bit(0) + 2*bit(1) + 4*bit(2) + 8*bit(3) + 16*bit(4) + 32*bit(5) + 64*bit(6) + 128*bit(7)
Row(g, i) == [k \in 1..CeilDiv(i, 8) |-> RowByte(g, i, k - 1)]
Number(i, j) == j + (i * i + i) \div 2
\* Numbers of the edges across, ascending
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
AcrossNumbers(g) == Ascending({Number(e[1], e[2]) : e \in {f \in g.edges : f[3] = 2}})
Encode(g) ==
    LET n == NVerts(g.polys)
        a == AcrossNumbers(g)
    IN U64(Len(g.polys)) \o Cat([k \in 1..Len(g.polys) |-> PolyBytes(g.polys[k])], 1)
       \o Cat([k \in 1..n |-> Row(g, k - 1)], 1)
       \o U64(Len(a)) \o Cat([k \in 1..Len(a) |-> U64(a[k])], 1)

\* Reading; "bad" if the file ends too early or makes no sense
RECURSIVE ReadPolys(_, _, _)
ReadPolys(f, p, n) ==   \* <<polygons, next position>>
    IF n = 0 THEN <<<<>>, p>>
    ELSE IF p + 7 > Len(f) THEN <<<<>>, -1>>
    ELSE LET k == U64At(f, p)
             q == p + 8 + 8 * k
         IN IF k < 0 \/ k > 100000 \/ q - 1 > Len(f) THEN <<<<>>, -1>>
            ELSE LET rest == ReadPolys(f, q, n - 1)
                 IN <<<<[v \in 1..k |-> <<I32At(f, p + 8 * v), I32At(f, p + 4 + 8 * v)>>]>> \o rest[1], rest[2]>>
RowStart(p, i) == LET f == i \div 8     \* sum of ceil(k / 8) for k < i
                      r == i % 8
                  IN p + 4 * f * (f + 1) - f + (IF r = 0 THEN 0 ELSE (r - 1) * (f + 1) + f)
Bit(b, l) == (b \div (2^l)) % 2
Bad == [polys |-> <<>>, edges |-> {<<-1, -1, -1>>}]
Decode(f) ==
    IF Len(f) < 8 \/ U64At(f, 1) < 0 \/ U64At(f, 1) > 100000 THEN Bad
    ELSE LET rp == ReadPolys(f, 9, U64At(f, 1))
         IN IF rp[2] < 0 THEN Bad
            ELSE LET n == NVerts(rp[1])
                     m == RowStart(rp[2], n)
                 IN IF m + 7 > Len(f) \/ U64At(f, m) < 0 \/ U64At(f, m) > 10000000 \/ m + 7 + 8 * U64At(f, m) > Len(f) THEN Bad
                    ELSE LET across == {U64At(f, m + 8 * k) : k \in 1..U64At(f, m)}
                         IN [polys |-> rp[1],
                             edges |-> {<<i, j, IF Number(i, j) \in across THEN 2 ELSE 1>> :
                                          <<i, j>> \in {q \in (0..(n - 1)) \X (0..(n - 1)) :
                                              q[2] < q[1] /\ Bit(f[RowStart(rp[2], q[1]) + q[2] \div 8], q[2] % 8) = 1}}]
=============================================================================
