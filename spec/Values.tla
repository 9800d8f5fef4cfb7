-------------------------------- MODULE Values -------------------------------
(* The values of the Python package: coordinates brought into the range of    *)
(* latitudes and longitudes, and polygons as sequences of at least three       *)
(* coordinates, equal exactly if the sequences are.  Numbers are quarters of   *)
(* a degree.  Every value and every pair of sequences is printed.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Turns,    \* how many turns out
          Step,     \* in quarters of a degree
          Points, MaxLen,
          Variant,  \* "ok", or a mistake: "cut" (the remainder has the sign of the number), "once" (one turn at most),
                    \* "two" (two corners are enough), "set" (polygons are equal if they have the same corners)
          Tell
VARIABLES what, done
vars == <<what, done>>
Q == 4
\* The remainder that has the sign of the number
Rem(n, m) == IF n >= 0 THEN n % m ELSE -((-n) % m)
Into(n, half) == IF Variant = "cut" THEN Rem(n + half, 2 * half) - half
                 ELSE IF Variant = "once" THEN IF n >= half THEN n - 2 * half ELSE IF n < -half THEN n + 2 * half ELSE n
                 ELSE ((n + half) % (2 * half)) - half
Seqs == UNION {[1..n -> Points] : n \in 0..MaxLen}
Range(s) == {s[i] : i \in DOMAIN s}
Numbers == {k \in (-(Turns * 360 * Q))..(Turns * 360 * Q) : k % Step = 0}
Accepted(s) == Len(s) >= IF Variant = "two" THEN 2 ELSE 3
Equal(s, t) == IF Variant = "set" THEN Range(s) = Range(t) ELSE s = t
Init == /\ done = FALSE
        /\ \/ \E n \in Numbers : what = [kind |-> "number", n |-> n]
           \/ \E s \in Seqs : what = [kind |-> "ring", s |-> s]
Tells == IF what.kind = "number" THEN [kind |-> "number", n |-> what.n, lon |-> Into(what.n, 180 * Q), lat |-> Into(what.n, 90 * Q)]
         ELSE [kind |-> "ring", s |-> what.s, ok |-> Accepted(what.s), same |-> {t \in Seqs : Accepted(t) /\ Equal(what.s, t)}]
Next == ~done /\ done' = TRUE /\ UNCHANGED what /\ (Tell => PrintT("@" \o ToJson(Tells)))
InRange(n, m, half) == /\ m >= -half /\ m <= half
                       /\ (n - m) % (2 * half) = 0
Refines == IF what.kind = "number" THEN InRange(what.n, Into(what.n, 180 * Q), 180 * Q) /\ InRange(what.n, Into(what.n, 90 * Q), 90 * Q)
           ELSE /\ Accepted(what.s) => Cardinality(DOMAIN what.s) > 2
                /\ Accepted(what.s) => {t \in Seqs : Equal(what.s, t)} = {what.s}
=============================================================================
