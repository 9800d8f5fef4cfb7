------------------------------- MODULE Query -------------------------------
(* A path query from beginning to end, on all small worlds: from a point s to *)
(* every other point.  Points on land are refused; a straight line that is    *)
(* free is the answer; otherwise the ends are joined to the vertices they see *)
(* and the shortest way over the vertices is found by settling one vertex     *)
(* after the other.  The answers are compared with what an answer is: a chain *)
(* of lines of which none passes through land, as short as any over vertices  *)
(* in clear sight.  Every world and s is printed with what may be answered    *)
(* for each destination, to be replayed on the real code.                     *)
EXTENDS Routes, Json
CONSTANTS NX, NY, Kind,   \* as in Sweep
          Variant,        \* "ok", or a mistake: "proper" (a straight line is free unless it crosses a side properly), "through" (the
                          \* vertices of a polygon count as joined to each other), "nearest" (an end is joined to the nearest
                          \* vertex in sight only), "land" (nothing is refused), "far" (the vertex farthest away is settled next)
          Tell
VARIABLES polys, s, sight, dist, settled, ans, pc
vars == <<polys, s, sight, dist, settled, ans, pc>>

Grid == (0..(NX - 1)) \X (0..(NY - 1))
Wide == ((-1)..NX) \X ((-1)..NY)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Triangles == TLCEval({t \in {<<a, b, c>> : a, b, c \in Grid} : Less(t[1], t[2]) /\ Less(t[1], t[3]) /\ Cross(t[1], t[2], t[3]) > 0})
Quads(a) == {t \in {<<a, b, c, d>> : b, c, d \in {p \in Grid : Less(a, p)}} :
                /\ Cardinality(PtsOf(t)) = 4 /\ WellFormed(t)}
Verts == UNION {PtsOf(polys[i]) : i \in 1..Len(polys)}
OnLand(p) == \E i \in 1..Len(polys) : Inside(p, polys[i])
\* On a side but not at a vertex: not judged
Shore(p) == p \notin Verts /\ \E i \in 1..Len(polys) : OnBoundary(p, polys[i])
Asked == {p \in Wide : ~Shore(p)}
\* The verdicts on all straight lines from a vertex or s to a point
Points == Verts \cup {s}
Sight == LET boxes == TLCEval([i \in 1..Len(polys) |-> Boxed(polys[i])])
         IN [p \in Points |-> [q \in Asked |-> IF p = q THEN "c" ELSE Verdict(p, q, boxes)]]
V(a, b) == sight[a][b]
\* 1/1000 of the side of a cell, rounded down
Roots == TLCEval([n \in 0..((NX + 1) * (NX + 1) + (NY + 1) * (NY + 1)) |-> ISqrt(1000000 * n)])
Lo(a, b) == Roots[Dist2(a, b)]

(********************************* the machine ******************************)
Free(a, b) ==
    IF Variant = "proper" THEN \A i \in 1..Len(polys), k \in 1..4 : k <= Len(polys[i]) => ~Proper(a, b, polys[i][k], Nxt(polys[i], k))
    ELSE V(a, b) # "x"
Sees(v, a) == \/ V(v, a) # "x"
              \/ Variant = "through" /\ \E i \in 1..Len(polys) : {v, a} \subseteq PtsOf(polys[i])
\* The vertices an end is joined to
Joined(p) == LET vs == {v \in Verts \ {p} : Sees(v, p)}
             IN IF Variant # "nearest" \/ vs = {} THEN vs
                ELSE {CHOOSE v \in vs : \A u \in vs : Lo(p, v) < Lo(p, u) \/ (Lo(p, v) = Lo(p, u) /\ ~Less(u, v))}

Init == /\ s = <<0, 0>> /\ sight = <<>> /\ dist = <<>> /\ settled = {} /\ ans = <<>>
        /\ pc = "world"
        /\ polys \in IF Kind = "four" THEN {<<<<p>>>> : p \in Grid} ELSE {<<t>> : t \in Triangles}
Choose == /\ pc = "world"
          /\ pc' = "source"
          /\ polys' \in IF Kind = "three" THEN {polys}
                        ELSE IF Kind = "four" THEN {<<q>> : q \in Quads(polys[1][1])}
                        ELSE {<<polys[1], t>> : t \in {u \in Triangles : Less(polys[1][1], u[1]) /\ Disjoint(polys[1], u)}}
          /\ UNCHANGED <<s, sight, dist, settled, ans>>
Ask == /\ pc = "source"
       /\ s' \in Asked
       /\ pc' = "look"
       /\ UNCHANGED <<polys, sight, dist, settled, ans>>
Look == /\ pc = "look"
        /\ sight' = TLCEval(Sight)
        /\ pc' = IF OnLand(s) /\ Variant # "land" THEN "refuse" ELSE "connect"
        /\ UNCHANGED <<polys, s, dist, settled, ans>>
Refuse == /\ pc = "refuse"
          /\ ans' = [d \in Asked |-> -1]
          /\ pc' = "told"
          /\ UNCHANGED <<polys, s, sight, dist, settled>>
Connect == /\ pc = "connect"
           /\ dist' = TLCEval([v \in Verts |-> IF v = s THEN 0 ELSE IF v \in Joined(s) THEN Lo(s, v) ELSE INF])
           /\ pc' = "settle"
           /\ UNCHANGED <<polys, s, sight, settled, ans>>
Better(x, y) == IF Variant = "far" THEN x > y ELSE x < y
Settle == /\ pc = "settle"
          /\ \E v \in Verts \ settled : dist[v] < INF
          /\ LET open == {v \in Verts \ settled : dist[v] < INF}
                 v == CHOOSE v \in open : \A u \in open : ~Better(dist[u], dist[v])
             IN /\ settled' = settled \cup {v}
                /\ dist' = TLCEval([u \in Verts |-> IF u \in settled \/ u = v \/ ~Sees(v, u) THEN dist[u]
                                                     ELSE Min2(dist[u], dist[v] + Lo(v, u))])
          /\ UNCHANGED <<polys, s, sight, ans, pc>>
Answer == /\ pc = "settle"
          /\ \A v \in Verts \ settled : dist[v] >= INF
          /\ ans' = TLCEval([d \in Asked |->
                        IF OnLand(d) /\ Variant # "land" THEN -1
                        ELSE IF d = s THEN 0
                        ELSE IF Free(s, d) THEN Lo(s, d)
                        ELSE IF d \in Verts THEN dist[d]
                        ELSE MinOf({INF} \cup {Plus(dist[v], Lo(v, d)) : v \in Joined(d)})])
          /\ pc' = "told"
          /\ UNCHANGED <<polys, s, sight, dist, settled>>

(********************************* the meaning ******************************)
\* Lengths of the shortest chains of lines that surely count as free, and that perhaps do
RECURSIVE InARow(_)
InARow(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : TRUE IN <<p>> \o InARow(S \ {p})
Chain(ok) ==
    LET q == TLCEval(InARow(Points))
        n == Cardinality(Points)
        me == CHOOSE i \in 1..n : q[i] = s
        cost == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 0 ELSE IF V(q[i], q[j]) \in ok THEN Lo(q[i], q[j]) ELSE INF])])
        ds == ShortestFrom(me, cost, n)
    IN [p \in Points |-> ds[CHOOSE i \in 1..n : q[i] = p]]
To(d, c, ok) == IF d = s THEN 0 ELSE MinOf({IF V(p, d) \in ok /\ p # d THEN Plus(c[p], Lo(p, d)) ELSE INF : p \in Points})
Within == LET sure == TLCEval(Chain({"c"}))
              may == TLCEval(Chain({"c", "g"}))
          IN \A d \in Asked :
                IF OnLand(s) \/ OnLand(d) THEN ans[d] = -1
                ELSE /\ ans[d] <= To(d, sure, {"c"}) + 4
                     /\ ans[d] >= To(d, may, {"c", "g"}) - 4
                     /\ V(s, d) = "c" => ans[d] = Lo(s, d)
Refines == pc = "told" => Within

Report == /\ pc = "told"
          /\ pc' = "done"
          /\ Tell => LET sure == TLCEval(Chain({"c"}))
                    IN PrintT("@" \o ToJson([polys |-> polys, s |-> s, land |-> OnLand(s),
                        cut |-> {{a, b} : <<a, b>> \in {x \in Points \X Verts : x[1] # x[2] /\ V(x[1], x[2]) = "x"}},
                        ask |-> {[d |-> d, best |-> IF OnLand(d) \/ OnLand(s) THEN -1 ELSE To(d, sure, {"c"}), straight |-> V(s, d),
                                  cut |-> {p \in Points : p # d /\ V(p, d) = "x"}] : d \in Asked \ {s}}]))
          /\ UNCHANGED <<polys, s, sight, dist, settled, ans>>
Next == Choose \/ Ask \/ Look \/ Refuse \/ Connect \/ Settle \/ Answer \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(pc = "done")
=============================================================================
