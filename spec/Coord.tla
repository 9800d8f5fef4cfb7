-------------------------------- MODULE Coord --------------------------------
(* Coordinates as values: whole numbers of microdegrees with sums,            *)
(* differences, and multiples and fractions rounded to the nearest (a half     *)
(* away from zero).  Two variables that are assigned in turn; every           *)
(* transition prints the history that takes it and what the two are then.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Places,   \* the coordinates to start with
          Factors,  \* <<numerator, denominator>>, the denominator a power of two
          MaxOps,
          Measure,  \* whether products are small enough to be told
          Variant,  \* "ok", or a mistake: "down" (fractions are rounded down), "even" (halves to even), "turned" (minus the other way around), "half" (only the longitude)
          Tell
PlacesSmall == {<<0, 0>>, <<3, -2>>, <<-5, 1>>, <<7, 7>>}
PlacesLarge == {<<179999999, -89999999>>, <<-180000000, 45000001>>, <<1, 90000000>>}
FactorsSome == {<<1, 2>>, <<-3, 4>>, <<2, 1>>}
FactorsFew == {<<1, 2>>, <<-1, 4>>}
VARIABLES a, b, start, h
vars == <<a, b, start, h>>
Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE 1
\* n * p / q with q a power of two (q > 0)
Times(n, f) == LET m == n * f[1]
                   q == f[2]
                   r == Abs(m) \div q + IF 2 * (Abs(m) % q) >= q THEN 1 ELSE 0
               IN CASE Variant = "down" -> m \div q
                    [] Variant = "even" -> IF 2 * (Abs(m) % q) = q /\ r % 2 = 1 THEN Sign(m) * (r - 1) ELSE Sign(m) * r
                    [] OTHER -> Sign(m) * r
\* n / (p / q), for p a power of two times a sign
Over(n, f) == Times(n, <<Sign(f[1]) * f[2], Abs(f[1])>>)
Two(p) == p \in {1, 2, 4, -1, -2, -4}
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Minus(x, y) == IF Variant = "turned" THEN <<y[1] - x[1], y[2] - x[2]>> ELSE <<x[1] - y[1], x[2] - y[2]>>
Scale(x, f) == <<Times(x[1], f), IF Variant = "half" THEN x[2] ELSE Times(x[2], f)>>
Part(x, f) == <<Over(x[1], f), Over(x[2], f)>>
Init == /\ a \in Places /\ b \in Places /\ start = <<a, b>> /\ h = <<>>
Fits(v) == \A i \in {1, 2} : Abs(v[i]) <= 400000000
Set(r, v, o) == /\ Fits(v)
                /\ IF r = "a" THEN a' = v /\ b' = b ELSE b' = v /\ a' = a
                /\ h' = Append(h, <<r>> \o o)
                /\ UNCHANGED start
Of(r) == IF r = "a" THEN a ELSE b
R == {"a", "b"}
Next == /\ Len(h) < MaxOps
        /\ \E r \in R : \/ \E x, y \in R : Set(r, Plus(Of(x), Of(y)), <<"add", x, y>>) \/ Set(r, Minus(Of(x), Of(y)), <<"sub", x, y>>)
                        \/ \E x \in R : Set(r, <<-Of(x)[1], -Of(x)[2]>>, <<"neg", x, x>>)
                        \/ \E x \in R, f \in Factors : Set(r, Scale(Of(x), f), <<"mul", x, f>>)
                        \/ \E x \in R, f \in Factors : Two(f[1]) /\ Set(r, Part(Of(x), f), <<"div", x, f>>)
        /\ Tell => PrintT("@" \o ToJson([start |-> start, h |-> h', a |-> a', b |-> b',
                               dot |-> IF Measure THEN a'[1] * b'[1] + a'[2] * b'[2] ELSE 0,
                               cross |-> IF Measure THEN a'[1] * b'[2] - a'[2] * b'[1] ELSE 0,
                               sq |-> IF Measure THEN a'[1] * a'[1] + a'[2] * a'[2] ELSE 0]))
View == <<a, b, Len(h)>>
\* What values are like
Near(n, m, q) == 2 * Abs(n * q - m) <= q     \* n is m / q to the nearest
Laws == /\ Plus(a, b) = Plus(b, a)
        /\ Minus(Plus(a, b), b) = a
        /\ Plus(Minus(a, b), b) = a
        /\ \A f \in Factors, x \in {a, b}, i \in {1, 2} :
              /\ Near(Scale(x, f)[i], x[i] * f[1], f[2])
              /\ Scale(<<-x[1], -x[2]>>, f)[i] = -Scale(x, f)[i]
              /\ f[1] = 2 => Part(Scale(x, f), f) = x
Refines == Laws /\ \A f \in {g \in Factors : g[2] = 2 /\ Abs(g[1]) = 1} : \A x \in {a, b}, i \in {1, 2} :
              Abs(2 * Scale(x, f)[i]) \in {Abs(x[i]), Abs(x[i]) + 1}
=============================================================================
