------------------------------- MODULE Shore -------------------------------
(* Points on land moved to the nearest shore, on all small worlds: the sides  *)
(* of all polygons are gone through one by one, and the nearest so far is     *)
(* kept with the foot of the point on it.  In the end no point of any shore   *)
(* may be nearer.  Points at sea and corners are left alone.  For every world *)
(* it is printed where each of its points may be moved to, to be replayed on  *)
(* the real code.                                                             *)
EXTENDS Geo, Json
CONSTANTS NX, NY, Kind,   \* as in Sweep
          Variant,        \* "ok", or a mistake: "line" (sides are taken for the lines they lie on), "corner" (the nearest corner is
                          \* taken), "first" (the nearest
                          \* side of the first polygon is taken), "last" (the nearest of two sides is not kept), "sea" (points at
                          \* sea are moved too)
          Tell
VARIABLES polys, p, todo, best, moved, pc
vars == <<polys, p, todo, best, moved, pc>>

Grid == (0..(NX - 1)) \X (0..(NY - 1))
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Triangles == TLCEval({t \in {<<a, b, c>> : a, b, c \in Grid} : Less(t[1], t[2]) /\ Less(t[1], t[3]) /\ Cross(t[1], t[2], t[3]) > 0})
Quads(a) == {t \in {<<a, b, c, d>> : b, c, d \in {x \in Grid : Less(a, x)}} :
                /\ Cardinality(PtsOf(t)) = 4 /\ WellFormed(t)}
Sides == UNION {{<<polys[i][k], Nxt(polys[i], k)>> : k \in 1..Len(polys[i])} : i \in 1..Len(polys)}
OnLand(x) == \E i \in 1..Len(polys) : Inside(x, polys[i])
Shores(x) == \E i \in 1..Len(polys) : OnBoundary(x, polys[i]) /\ x \notin PtsOf(polys[i])

\* A foot is <<x, y, n>>: the point (x / n, y / n)
Corner(v) == <<v[1], v[2], 1>>
FootOf(a, b) == LET t == Dot(a, b, p)
                    n == Dist2(a, b)
                IN <<a[1] * n + t * (b[1] - a[1]), a[2] * n + t * (b[2] - a[2]), n>>
Between(a, b) == Dot(a, b, p) > 0 /\ Dot(b, a, p) > 0
\* Square of the distance of p and a foot, as <<numerator, denominator>>
Far(f) == <<(f[1] - p[1] * f[3]) * (f[1] - p[1] * f[3]) + (f[2] - p[2] * f[3]) * (f[2] - p[2] * f[3]), f[3] * f[3]>>
Closer(f, g) == Far(f)[1] * Far(g)[2] < Far(g)[1] * Far(f)[2]
NearestOf(S) == {f \in S : \A g \in S : ~Closer(g, f)}
On(e) == LET ends == {Corner(e[1]), Corner(e[2])}
         IN IF Variant = "corner" THEN NearestOf(ends)
            ELSE IF Variant = "line" THEN {FootOf(e[1], e[2])}
            ELSE IF Between(e[1], e[2]) THEN {FootOf(e[1], e[2])}
            ELSE NearestOf(ends)
Considered == IF Variant = "first" THEN {<<polys[1][k], Nxt(polys[1], k)>> : k \in 1..Len(polys[1])} ELSE Sides

Init == /\ p = <<0, 0>> /\ todo = {} /\ best = {} /\ moved = <<>>
        /\ pc = "world"
        /\ polys \in IF Kind = "four" THEN {<<<<x>>>> : x \in Grid} ELSE {<<t>> : t \in Triangles}
Choose == /\ pc = "world"
          /\ pc' = "point"
          /\ polys' \in IF Kind = "three" THEN {polys}
                        ELSE IF Kind = "four" THEN {<<q>> : q \in Quads(polys[1][1])}
                        ELSE {<<polys[1], t>> : t \in {u \in Triangles : polys[1][1] # u[1] /\ Disjoint(polys[1], u)}}
          /\ UNCHANGED <<p, todo, best, moved>>
Left == {x \in Grid \ DOMAIN moved : ~Shores(x)}
Take == /\ pc = "point"
        /\ Left # {}
        /\ p' = CHOOSE x \in Left : \A y \in Left \ {x} : Less(x, y)
        /\ best' = {}
        /\ IF OnLand(p') \/ Variant = "sea" THEN pc' = "scan" /\ todo' = Considered /\ moved' = moved
           ELSE pc' = pc /\ todo' = todo /\ moved' = moved @@ (p' :> {Corner(p')})
        /\ UNCHANGED polys
\* The sides come in any order; equally near ones are both kept
Scan == /\ pc = "scan"
        /\ todo # {}
        /\ LET e == CHOOSE x \in todo : TRUE
           IN /\ todo' = todo \ {e}
              /\ best' = IF Variant = "last" /\ On(e) # {} THEN On(e) ELSE NearestOf(best \cup On(e))
        /\ UNCHANGED <<polys, p, moved, pc>>
Move == /\ pc = "scan"
        /\ todo = {}
        /\ moved' = moved @@ (p :> best)
        /\ pc' = "point"
        /\ UNCHANGED <<polys, p, todo, best>>
Finish == /\ pc = "point"
          /\ Left = {}
          /\ pc' = "done"
          /\ Tell => PrintT("@" \o ToJson([polys |-> polys, moved |-> {[p |-> x, land |-> OnLand(x), to |-> moved[x]] : x \in DOMAIN moved}]))
          /\ UNCHANGED <<polys, p, todo, best, moved>>
Next == Choose \/ Take \/ Scan \/ Move \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(********************************* the meaning ******************************)
Parts == 12
\* The foot lies on a side
Ashore(f) == \E e \in Sides : LET a == <<e[1][1] * f[3], e[1][2] * f[3]>>
                                  b == <<e[2][1] * f[3], e[2][2] * f[3]>>
                              IN OnSeg(<<f[1], f[2]>>, a, b)
\* No twelfth of any side is nearer
Nearest(f) == \A e \in Sides, t \in 0..Parts :
    ~Closer(<<e[1][1] * Parts + t * (e[2][1] - e[1][1]), e[1][2] * Parts + t * (e[2][2] - e[1][2]), Parts>>, f)
Refines == pc = "point" /\ p \in DOMAIN moved =>
    IF OnLand(p) THEN moved[p] # {} /\ \A f \in moved[p] : Ashore(f) /\ Nearest(f)
    ELSE moved[p] = {Corner(p)}
Ends == <>(pc = "done")
=============================================================================
