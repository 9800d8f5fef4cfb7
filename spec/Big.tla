-------------------------------- MODULE Big --------------------------------
(* Exact products and sums for map coordinates in microdegrees, which do not *)
(* fit TLC's 32 bit integers: numbers are seven digits to the base 4096,     *)
(* least first, all with the sign of the number or signs mixed (only the     *)
(* value counts; Sgn brings it to normal form).                              *)
EXTENDS Integers, Sequences, TLC
B == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
\* |x| < 2^31; digits carry the sign of x
Digits(x) == LET a == Abs(x)
                 s == IF x < 0 THEN -1 ELSE 1
             IN <<s * (a % B), s * ((a \div B) % B), s * (a \div (B * B))>>
\* Product of two 32 bit numbers
Mul(x, y) == LET a == Digits(x)
                 b == Digits(y)
             IN <<a[1] * b[1], a[1] * b[2] + a[2] * b[1], a[1] * b[3] + a[2] * b[2] + a[3] * b[1],
                  a[2] * b[3] + a[3] * b[2], a[3] * b[3], 0, 0>>
Plus(p, q) == [i \in 1..7 |-> p[i] + q[i]]
Minus(p, q) == [i \in 1..7 |-> p[i] - q[i]]
\* TLA+'s % and \div round towards minus infinity, so every digit but the last becomes 0..B-1
RECURSIVE Carry(_, _)
Carry(p, i) == IF i = 7 THEN p
               ELSE Carry([p EXCEPT ![i] = p[i] % B, ![i + 1] = p[i + 1] + (p[i] \div B)], i + 1)
Sgn(p) == LET n == Carry(p, 1)
          IN IF n[7] < 0 THEN -1 ELSE IF \E i \in 1..7 : n[i] # 0 THEN 1 ELSE 0
\* Product of a seven digit number in normal form and a 32 bit number
MulBig(p, x) == LET d == Digits(x)
                    at(k) == IF k \in 1..7 THEN p[k] ELSE 0
                IN [k \in 1..10 |-> at(k) * d[1] + at(k - 1) * d[2] + at(k - 2) * d[3]]
RECURSIVE CarryL(_, _)
CarryL(p, i) == IF i = Len(p) THEN p
                ELSE CarryL([p EXCEPT ![i] = p[i] % B, ![i + 1] = p[i + 1] + (p[i] \div B)], i + 1)
SgnL(p) == LET n == CarryL(p, 1)
           IN IF n[Len(n)] < 0 THEN -1 ELSE IF \E i \in 1..Len(n) : n[i] # 0 THEN 1 ELSE 0
\* Sign of a*b - c*d
SgnDiff(a, b, c, d) == Sgn(Minus(Mul(a, b), Mul(c, d)))

\* Side of p from a towards b: 1 left, -1 right, 0 on the line
Side(a, b, p) == SgnDiff(b[1] - a[1], p[2] - a[2], b[2] - a[2], p[1] - a[1])
Dist2(a, b) == Plus(Mul(a[1] - b[1], a[1] - b[1]), Mul(a[2] - b[2], a[2] - b[2]))
CmpDist(o, a, b) == Sgn(Minus(Dist2(o, a), Dist2(o, b)))
DotSgn(o, a, b) == Sgn(Plus(Mul(a[1] - o[1], b[1] - o[1]), Mul(a[2] - o[2], b[2] - o[2])))
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnSeg(p, a, b) == Side(a, b, p) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
=============================================================================
