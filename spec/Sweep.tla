------------------------------- MODULE Sweep -------------------------------
(* The rotational sweep that finds the vertices visible from a point, run on  *)
(* all small worlds: one polygon of three or four corners or two disjoint     *)
(* triangles on a grid, watched from every point at sea and every vertex.     *)
(* A step of the sweep handles one vertex, in counter-clockwise order from    *)
(* due east: edges that end there are closed, the vertex is visible if no     *)
(* open edge lies before it, and edges that begin there are opened.  What the *)
(* sweep sees is compared with the exact meaning of sight lines (module Geo), *)
(* and every world and observer is printed with what must and must not be     *)
(* seen, to be replayed on the real code.                                     *)
EXTENDS World, Json
CONSTANTS NX, NY,      \* the grid
          Kind,        \* "three", "four": one polygon of so many corners; "two": two triangles
          Variant,     \* "ok", or a mistake: "first" (only the open edge that was nearest when it was opened is considered),
                       \* "initial" (edges across the first ray are not open from the start), "barrier" (a vertex sees
                       \* through the polygon it belongs to)
          Tell
VARIABLES polys, o, todo, open, seen, pc
vars == <<polys, o, todo, open, seen, pc>>

Grid == (0..(NX - 1)) \X (0..(NY - 1))
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* Every polygon once: counter-clockwise, from its least corner
Triangles == TLCEval({t \in {<<a, b, c>> : a, b, c \in Grid} : Less(t[1], t[2]) /\ Less(t[1], t[3]) /\ Cross(t[1], t[2], t[3]) > 0})
Quads(a) == {t \in {<<a, b, c, d>> : b, c, d \in {p \in Grid : Less(a, p)}} :
                /\ Cardinality(PtsOf(t)) = 4 /\ WellFormed(t)}
Verts(ps) == UNION {PtsOf(ps[i]) : i \in 1..Len(ps)}
Edges(ps) == UNION {{<<ps[i][k], Nxt(ps[i], k)>> : k \in 1..Len(ps[i])} : i \in 1..Len(ps)}
AtSea(p, ps) == \A i \in 1..Len(ps) : p \in PtsOf(ps[i]) \/ (~OnBoundary(p, ps[i]) /\ ~Inside(p, ps[i]))

\* Directions from o, counted counter-clockwise from due east
Quad(p) == LET x == p[1] - o[1]
               y == p[2] - o[2]
           IN IF y = 0 /\ x > 0 THEN 1 ELSE IF x > 0 /\ y > 0 THEN 2 ELSE IF x = 0 /\ y > 0 THEN 3
              ELSE IF x < 0 /\ y > 0 THEN 4 ELSE IF y = 0 /\ x < 0 THEN 5 ELSE IF x < 0 /\ y < 0 THEN 6
              ELSE IF x = 0 /\ y < 0 THEN 7 ELSE 8
Before(p, q) == \/ Quad(p) < Quad(q)
                \/ /\ Quad(p) = Quad(q)
                   /\ \/ Cross(o, p, q) > 0
                      \/ Cross(o, p, q) = 0 /\ Dist2(o, p) < Dist2(o, q)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<m>> \o Sorted(S \ {m})

\* Edges across the ray from o to the east, with the square of (about) the distance where
Ahead(e) == /\ o \notin {e[1], e[2]}
            /\ (e[1][2] - o[2]) * (e[2][2] - o[2]) < 0
            /\ Sgn(Cross(e[1], e[2], o)) = (IF e[2][2] > e[1][2] THEN 1 ELSE -1)
Where(e) == LET x == e[1][1] + ((e[2][1] - e[1][1]) * (o[2] - e[1][2])) \div (e[2][2] - e[1][2]) - o[1] IN x * x
First == IF Variant = "initial" THEN {} ELSE {<<e, Where(e)>> : e \in {x \in Edges(polys) : Ahead(x)}}

Incident(v) == {e \in Edges(polys) : v \in {e[1], e[2]}}
Other(e, v) == IF e[1] = v THEN e[2] ELSE e[1]
Left(v) == {e \in Incident(v) : Cross(o, v, Other(e, v)) > 0}
Right(v) == {e \in Incident(v) : Cross(o, v, Other(e, v)) < 0}

\* The open edge meets the sight line before its end
Blocks(e, v) ==
    IF Cross(e[1], e[2], o) = 0 /\ Cross(e[1], e[2], v) = 0 THEN o \in {e[1], e[2]}
    ELSE Touch(o, v, e[1], e[2]) /\ ~OnSeg(v, e[1], e[2])
Considered(opened) == IF Variant # "first" \/ opened = {} THEN {x[1] : x \in opened}
                      ELSE {(CHOOSE x \in opened : \A y \in opened : x[2] <= y[2])[1]}
OwnLand(v) == /\ Variant # "barrier"
              /\ \E i \in 1..Len(polys), k \in 1..4 : k <= Len(polys[i]) /\ polys[i][k] = o
                     /\ InCone(Prv(polys[i], k), o, Nxt(polys[i], k), v)

Blank == /\ todo = <<>> /\ open = {} /\ seen = {}
Init == /\ o = <<0, 0>> /\ Blank
        /\ pc = "world"
        /\ polys \in IF Kind = "four" THEN {<<<<p>>>> : p \in Grid} ELSE {<<t>> : t \in Triangles}
Choose == /\ pc = "world"
          /\ pc' = "observer"
          /\ polys' \in IF Kind = "three" THEN {polys}
                        ELSE IF Kind = "four" THEN {<<q>> : q \in Quads(polys[1][1])}
                        ELSE {<<polys[1], t>> : t \in {u \in Triangles : Less(polys[1][1], u[1]) /\ Disjoint(polys[1], u)}}
          /\ UNCHANGED <<o, todo, open, seen>>
Watch == /\ pc = "observer"
         /\ pc' = "start"
         /\ o' \in {p \in Grid : AtSea(p, polys)}
         /\ UNCHANGED <<polys, todo, open, seen>>
Start == /\ pc = "start"
         /\ pc' = "sweep"
         /\ todo' = Sorted(Verts(polys) \ {o})
         /\ open' = First
         /\ UNCHANGED <<polys, o, seen>>
Handle == /\ pc = "sweep"
          /\ todo # <<>>
          /\ LET v == Head(todo)
                 left == {x \in open : x[1] \notin Right(v)}
             IN /\ seen' = IF ~OwnLand(v) /\ \A e \in Considered(left) : ~Blocks(e, v) THEN seen \cup {v} ELSE seen
                /\ open' = left \cup {<<e, Dist2(o, v)>> : e \in Left(v)}
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<polys, o, pc>>

Boxes == [i \in 1..Len(polys) |-> Boxed(polys[i])]
MustSee == {v \in Verts(polys) \ {o} : Verdict(o, v, TLCEval(Boxes)) = "c"}
MustNot == {v \in Verts(polys) \ {o} : Verdict(o, v, TLCEval(Boxes)) = "x"}
Finish == /\ pc = "sweep"
          /\ todo = <<>>
          /\ pc' = "done"
          /\ Tell => PrintT("@" \o ToJson([polys |-> polys, o |-> o, must |-> MustSee, not |-> MustNot]))
          /\ UNCHANGED <<polys, o, todo, open, seen>>
Next == Choose \/ Watch \/ Start \/ Handle \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* Nothing is seen through land, and everything in clear sight is seen
Refines == pc = "done" => MustSee \subseteq seen /\ seen \cap MustNot = {}
=============================================================================
