----------------------------- MODULE SpatialIndex ---------------------------
(* The index of land edges, run on all small worlds: polygons are added one  *)
(* at a time, their edges are kept with the boxes around them, and questions *)
(* are answered by looking at the edges whose boxes come into question.      *)
(* The answers are compared with their meaning over the whole land, and the  *)
(* questions that have one certain answer are printed, to be replayed on the *)
(* real index near the equator, where the sphere and the map agree.          *)
EXTENDS World, Json
CONSTANTS NX, NY, Kind,   \* as in Sweep
          Variant,        \* "ok", or a mistake: "ends" (distances to edges are those to their ends), "box" (an edge is only
                          \* considered for a segment if the box of one of them holds an end of the other), "parity" (corners
                          \* on the ray count twice), "last" (only the polygon added last is kept)
          Tell
VARIABLES polys, left, index, q, ans, pc
vars == <<polys, left, index, q, ans, pc>>

Grid == (0..(NX - 1)) \X (0..(NY - 1))
Wide == ((-1)..NX) \X ((-1)..NY)
Less(p, s) == p[1] < s[1] \/ (p[1] = s[1] /\ p[2] < s[2])
Triangles == TLCEval({t \in {<<a, b, c>> : a, b, c \in Grid} : Less(t[1], t[2]) /\ Less(t[1], t[3]) /\ Cross(t[1], t[2], t[3]) > 0})
Quads(a) == {t \in {<<a, b, c, d>> : b, c, d \in {p \in Grid : Less(a, p)}} : Cardinality(PtsOf(t)) = 4 /\ WellFormed(t)}
EdgesOf(P) == {<<P[k], Nxt(P, k)>> : k \in 1..Len(P)}
Verts == UNION {PtsOf(polys[i]) : i \in 1..Len(polys)}
Land == UNION {EdgesOf(polys[i]) : i \in 1..Len(polys)}

(* Squares of distances from p to an edge as fractions <<n, d>> *)
D2(p, e) == IF Dot(e[1], e[2], p) > 0 /\ Dot(e[2], e[1], p) > 0
            THEN <<Cross(e[1], e[2], p) * Cross(e[1], e[2], p), Dist2(e[1], e[2])>>
            ELSE <<Min2(Dist2(p, e[1]), Dist2(p, e[2])), 1>>
Ends(p, e) == <<Min2(Dist2(p, e[1]), Dist2(p, e[2])), 1>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Lt(x, y) == x[1] * y[2] < y[1] * x[2]

(* Answers from the index *)
Measured(p, e) == IF Variant = "ends" THEN Ends(p, e) ELSE D2(p, e)
Nearest(p) == {e \in index : \A f \in index : Leq(Measured(p, e), Measured(p, f))}
Overlap(p, s, e) == IF Variant = "box" THEN InBox(p, e[1], e[2]) \/ InBox(s, e[1], e[2]) \/ InBox(e[1], p, s) \/ InBox(e[2], p, s)
                    ELSE ~Apart(p, s, [x0 |-> Min2(e[1][1], e[2][1]), x1 |-> Max2(e[1][1], e[2][1]),
                                       y0 |-> Min2(e[1][2], e[2][2]), y1 |-> Max2(e[1][2], e[2][2])])
Crossed(p, s) == {e \in index : Overlap(p, s, e) /\ Touch(p, s, e[1], e[2])}
Ray(p, e) == IF Variant = "parity" THEN (e[1][2] >= p[2]) # (e[2][2] > p[2]) ELSE (e[1][2] > p[2]) # (e[2][2] > p[2])
Holds(p) == /\ \A e \in index : ~OnSeg(p, e[1], e[2])
            /\ Cardinality({e \in index : Ray(p, e) /\ Sgn(Cross(e[1], e[2], p)) = (IF e[2][2] > e[1][2] THEN 1 ELSE -1)}) % 2 = 1

(* What the answers mean *)
IsInside(p) == \E i \in 1..Len(polys) : Inside(p, polys[i])
OnEdge(p) == \E e \in Land : OnSeg(p, e[1], e[2])
\* Certain on the sphere as well: crossing properly, or at a common corner, or apart
Sure(p, s, e) == \/ Proper(p, s, e[1], e[2]) \/ ~Touch(p, s, e[1], e[2])
                 \/ p \in {e[1], e[2]} \/ s \in {e[1], e[2]}
None == <<>>
Init == /\ polys \in IF Kind = "four" THEN {<<<<p>>>> : p \in Grid} ELSE {<<t>> : t \in Triangles}
        /\ left = <<>> /\ index = {} /\ q = None /\ ans = None /\ pc = "world"
Choose == /\ pc = "world"
          /\ pc' = "add"
          /\ polys' \in IF Kind = "three" THEN {polys}
                        ELSE IF Kind = "four" THEN {<<t>> : t \in Quads(polys[1][1])}
                        ELSE {<<polys[1], t>> : t \in {u \in Triangles : Less(polys[1][1], u[1]) /\ Disjoint(polys[1], u)}}
          /\ left' = polys'
          /\ UNCHANGED <<index, q, ans>>
Add == /\ pc = "add" /\ left # <<>>
       /\ index' = (IF Variant = "last" THEN {} ELSE index) \cup EdgesOf(Head(left))
       /\ left' = Tail(left)
       /\ UNCHANGED <<polys, q, ans, pc>>
Expected == [polys |-> polys,
             inside |-> {p \in Wide : IsInside(p)},
             outside |-> {p \in Wide : p \in Verts \/ (~IsInside(p) /\ ~OnEdge(p))},
             near |-> {<<p, {e \in Land : \A f \in Land : Leq(D2(p, e), D2(p, f))}>> : p \in Wide},
             far |-> {<<p, {<<e, D2(p, e)>> : e \in Land}>> : p \in Wide},
             cross |-> {<<p, s, {e \in Land : Sure(p, s, e) /\ Touch(p, s, e[1], e[2])}, {e \in Land : ~Touch(p, s, e[1], e[2])}>> :
                            <<p, s>> \in {x \in Wide \X Wide : x[1] # x[2] /\ (x[1][1] + 2 * x[1][2] + x[2][1] + x[2][2]) % 3 = 0}}]
Built == /\ pc = "add" /\ left = <<>>
         /\ pc' = "ask"
         /\ Tell => PrintT("@" \o ToJson(Expected))
         /\ UNCHANGED <<polys, left, index, q, ans>>
Ask == /\ pc = "ask" /\ ~Tell
       /\ pc' = "done"
       /\ \/ \E p \in Wide : q' = <<"inside", p>> /\ ans' = Holds(p)
          \/ \E p \in Wide : q' = <<"near", p>> /\ ans' = Nearest(p)
          \/ \E p, s \in Wide : p # s /\ q' = <<"cross", p, s>> /\ ans' = Crossed(p, s)
       /\ UNCHANGED <<polys, left, index>>
Next == Choose \/ Add \/ Built \/ Ask
Spec == Init /\ [][Next]_vars
Refines == pc = "done" =>
    CASE q[1] = "inside" -> ans = IsInside(q[2])
      [] q[1] = "near" -> ans # {} /\ \A e \in ans : \A f \in Land : Leq(D2(q[2], e), D2(q[2], f))
      [] q[1] = "cross" -> ans = {e \in Land : Touch(q[2], q[3], e[1], e[2])}
=============================================================================
