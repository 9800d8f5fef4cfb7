------------------------------- MODULE World -------------------------------
(* The earth as CAPI sees it: a cylinder of circumference W grid units cut  *)
(* along the antimeridian.  Longitudes lie in Lo .. Lo+W-1.  Land is a set   *)
(* of pairwise disjoint polygons none of which crosses the cut; seen from a  *)
(* point, land repeats every W units to the east and to the west.           *)
EXTENDS Geo

Shift(p, d) == <<p[1] + d, p[2]>>
ShiftPoly(P, d) == [i \in 1..Len(P) |-> Shift(P[i], d)]
Boxed(P) == [v |-> P, box |-> Box(P)]
\* all copies of the land that a sight line from -W..W can meet
Copies(polys, W) ==
    [i \in 1..(3 * Len(polys)) |->
        LET P == polys[1 + ((i - 1) \div 3)]
            d == <<0, W, -W>>[1 + ((i - 1) % 3)]
        IN Boxed(TLCEval(ShiftPoly(P, d)))]

\* Longitude reduced into Lo .. Lo+W-1
NormX(x, lo, W) == lo + ((x - lo) % W)
Norm(p, lo, W) == <<NormX(p[1], lo, W), p[2]>>

\* How good is the direct line, and the best line across the antimeridian
DirectV(a, b, cp) == Verdict(a, b, cp)
Best(s) == IF "c" \in s THEN "c" ELSE IF "g" \in s THEN "g" ELSE "x"
\* The line across runs the other way round, to the copy of b that is less
\* than a turn away.
AcrossShortV(a, b, cp, W) ==
    Best({Verdict(a, Shift(b, t), cp) : t \in (IF b[1] <= a[1] THEN {W} ELSE {}) \cup (IF b[1] >= a[1] THEN {-W} ELSE {})})
\* Deviation of CAPI that its stored graphs rely on (see known_findings.txt): a
\* clear line to the other copy, more than a turn away, may count as a line
\* across.  It never must.
AcrossV(a, b, cp, W) ==
    LET s == AcrossShortV(a, b, cp, W)
    IN IF s = "c" THEN "c"
       ELSE IF Best({Verdict(a, Shift(b, W), cp), Verdict(a, Shift(b, -W), cp)}) # "x" THEN "g"
       ELSE "x"

(* The label a visibility graph may give to the pair a, b:                   *)
(*   0 not joined, 1 joined by the direct line, 2 joined across the          *)
(* antimeridian.  A clear direct line wins.  A line that grazes land may     *)
(* count as free or as blocked.                                              *)
LabelsFor(dv, av) ==
    IF dv = "c" THEN {1}
    ELSE (IF dv = "g" THEN {1} ELSE {})
         \cup (IF av = "c" THEN {2} ELSE IF av = "g" THEN {0, 2} ELSE {0})
AllowedLabels(a, b, cp, W) == LabelsFor(DirectV(a, b, cp), AcrossV(a, b, cp, W))
=============================================================================
