-------------------------------- MODULE Ring --------------------------------
(* How a polygon comes to its canonical notation, run on every notation of   *)
(* every small polygon: a shape is chosen, then written down with points on  *)
(* its sides, from any of its points, in either direction, with one point    *)
(* repeated and perhaps closed once or twice.  The notation is then cleaned  *)
(* step by step: copies of the previous point are dropped, then copies of    *)
(* the first at the end, then points that are no corners, and at last the    *)
(* direction is set.  What comes out has to be the corners of the shape,     *)
(* counter-clockwise, each once.                                             *)
EXTENDS Geo, Json
CONSTANTS NX, NY, Corners,   \* the grid, the numbers of corners
          Variant,           \* "ok", or a mistake: "repeats" (corners are judged with copies still there), "wrap" (the last point is not judged against the first), "left" (only turns
                             \* to the left are corners), "direction" (the direction is kept)
          Tell
VARIABLES shape, ring, out, pc
vars == <<shape, ring, out, pc>>

Grid == (0..(NX - 1)) \X (0..(NY - 1))
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Later(a) == {p \in Grid : Less(a, p)}
Shapes(a, n) == IF n = 3 THEN {t \in {<<a, b, c>> : b, c \in Later(a)} : WellFormed(t)}
                ELSE IF n = 4 THEN {t \in {<<a, b, c, d>> : b, c, d \in Later(a)} : Cardinality(PtsOf(t)) = 4 /\ WellFormed(t)}
                ELSE {t \in {<<a, b, c, d, e>> : b, c, d, e \in Later(a)} : Cardinality(PtsOf(t)) = 5 /\ WellFormed(t)}
\* The points of the grid on the side after corner i, in their order
RECURSIVE Ordered(_, _)
Ordered(S, a) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : Dist2(a, x) <= Dist2(a, y) IN <<m>> \o Ordered(S \ {m}, a)
Between(i) == LET a == shape[i]
                  b == Nxt(shape, i)
              IN {p \in Grid \ {a, b} : OnSeg(p, a, b)}
RECURSIVE Written(_, _)
Written(extra, i) == IF i > Len(shape) THEN <<>> ELSE <<shape[i]>> \o Ordered(Between(i) \cap extra, shape[i]) \o Written(extra, i + 1)
Turn(s, k) == [i \in 1..Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
Back(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Twice(s, k) == IF k = 0 THEN s ELSE SubSeq(s, 1, k) \o SubSeq(s, k, Len(s))
Closed(s, n) == s \o [i \in 1..n |-> s[1]]

Init == /\ pc = "start" /\ ring = <<>> /\ out = <<>>
        /\ shape \in {<<p, n>> : p \in Grid, n \in Corners}
Choose == /\ pc = "start"
          /\ pc' = "shape"
          /\ shape' \in Shapes(shape[1], shape[2])
          /\ UNCHANGED <<ring, out>>
Write == /\ pc = "shape"
         /\ pc' = "written"
         /\ \E extra \in SUBSET UNION {Between(i) : i \in 1..Len(shape)} : ring' = Written(extra, 1)
         /\ UNCHANGED <<shape, out>>
Vary == /\ pc = "written"
        /\ pc' = "given"
        /\ \E k \in 0..(Len(ring) - 1), r \in 0..Len(ring), n \in 0..2 :
              LET t == Closed(Twice(Turn(ring, k), r), n)
              IN \/ ring' = t
                 \/ ring' = Back(t)
        /\ out' = <<>>
        /\ UNCHANGED shape
\* Copies of the previous point, one by one
Repeat(s) == {i \in 2..Len(s) : s[i] = s[i - 1]}
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Unique == /\ pc = "given"
          /\ LET rs == IF Variant = "repeats" THEN {} ELSE Repeat(out)
             IN IF out = <<>> THEN out' = ring /\ pc' = pc
                ELSE IF rs # {} THEN out' = Without(out, CHOOSE i \in rs : \A j \in rs : i <= j) /\ pc' = pc
                ELSE out' = out /\ pc' = "open"
          /\ UNCHANGED <<shape, ring>>
Open == /\ pc = "open"
        /\ IF Len(out) > 1 /\ out[1] = out[Len(out)]
           THEN /\ out' = SubSeq(out, 1, Len(out) - 1)
                /\ pc' = pc
           ELSE out' = out /\ pc' = "corners"
        /\ UNCHANGED <<shape, ring>>
Prev(s, i) == s[IF i = 1 THEN Len(s) ELSE i - 1]
IsCorner(s, i) ==
    LET a == Prev(s, i)
        b == s[i]
        c == Nxt(s, i)
    IN IF Variant = "wrap" /\ i = Len(s) THEN TRUE
       ELSE IF Variant = "left" THEN Cross(a, b, c) > 0
       ELSE Cross(a, b, c) # 0 \/ Dot(b, a, c) > 0
RECURSIVE Kept(_, _)
Kept(s, i) == IF i > Len(s) THEN <<>> ELSE (IF IsCorner(s, i) THEN <<s[i]>> ELSE <<>>) \o Kept(s, i + 1)
Clean == /\ pc = "corners"
         /\ out' = Kept(out, 1)
         /\ pc' = "direction"
         /\ UNCHANGED <<shape, ring>>
Direct == /\ pc = "direction"
          /\ out' = IF Variant # "direction" /\ Len(out) > 2 /\ Area2(out) < 0 THEN Back(out) ELSE out
          /\ pc' = "done"
          /\ Tell => PrintT("@" \o ToJson([ring |-> ring, shape |-> shape]))
          /\ UNCHANGED <<shape, ring>>
Next == Choose \/ Write \/ Vary \/ Unique \/ Open \/ Clean \/ Direct
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refines == pc = "done" => Len(out) = Len(shape) /\ \E k \in 0..(Len(out) - 1) : Turn(out, k) = shape
=============================================================================
