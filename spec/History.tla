------------------------------ MODULE History ------------------------------
(* Queries one after the other, alone and in batches, by two computers that   *)
(* share a graph.  Every query works on its own copy of what it needs: the    *)
(* graph stays as it is, and an answer depends on the question only.  All     *)
(* histories are printed with the lengths that must be answered, to be        *)
(* replayed on the real code, end to end in one process.                      *)
EXTENDS Routes, Json
CONSTANTS Lands,       \* worlds: sequences of polygons
          Ports,       \* points to ask for
          Small,       \* a search radius, in 1/1000
          MaxAsked,    \* length of a history
          Batches,     \* whether batches are given, too
          Variant,     \* "ok", or a mistake: "base" (the lines from the ends are added to the shared graph), "memo" (answers are kept
                       \* by their ends), "tree" (the distances are kept by their source), "radius" (a search radius once given stays)
          Tell
VARIABLES polys, qs, base, kept, tree, radius, h, out
vars == <<polys, qs, base, kept, tree, radius, h, out>>

\* Where the two worlds and their ports lie
TwoLands == {<<<<<<1, 1>>, <<4, 0>>, <<2, 4>>>>>>,
             <<<<<<1, 0>>, <<2, 1>>, <<1, 5>>>>, <<<<3, 1>>, <<5, 2>>, <<4, 5>>, <<3, 4>>>>>>}
FourPorts == {<<0, 3>>, <<6, 1>>, <<2, 2>>, <<4, 5>>}
SomePorts == FourPorts \cup {<<1, 1>>, <<1, 0>>, <<4, 3>>}
NoAnswer == -1
Refused == -2
None == {}
Roots == TLCEval([n \in 0..200 |-> ISqrt(1000000 * n)])
Lo(a, b) == Roots[Dist2(a, b)]
VertsOf(P) == UNION {PtsOf(P[i]) : i \in 1..Len(P)}
OnLandOf(p, P) == \E i \in 1..Len(P) : Inside(p, P[i])
V(a, b, P) == Verdict(a, b, TLCEval([i \in 1..Len(P) |-> Boxed(P[i])]))

\* Length of the shortest way over edges (a set of pairs, both ways) among points near enough
RECURSIVE InARow(_)
InARow(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE x \in S : TRUE IN <<p>> \o InARow(S \ {p})
Ways(s, edges, r) ==
    LET pts == {s} \cup {x \in UNION {{e[1], e[2]} : e \in edges} : r < 0 \/ Lo(s, x) <= r}
        row == TLCEval(InARow(pts))
        n == Len(row)
        me == CHOOSE i \in 1..n : row[i] = s
        cost == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 0
                    ELSE IF <<row[i], row[j]>> \in edges \/ <<row[j], row[i]>> \in edges THEN Lo(row[i], row[j]) ELSE INF])])
        ds == ShortestFrom(me, cost, n)
    IN [p \in pts |-> ds[CHOOSE i \in 1..n : row[i] = p]]
Far(ways, d) == IF d \in DOMAIN ways /\ ways[d] < INF THEN ways[d] ELSE NoAnswer
Joins(p, P, ok) == {<<p, v>> : v \in {x \in VertsOf(P) : x # p /\ V(p, x, P) \in ok}}
Net(P, ok) == UNION {Joins(v, P, ok) : v \in VertsOf(P)}
\* What a question means; <<s, d, r>>, r = -1 without a radius
Meaning(q, P, ok) ==
    IF OnLandOf(q[1], P) \/ OnLandOf(q[2], P) THEN Refused
    ELSE IF q[1] = q[2] THEN 0
    ELSE IF V(q[1], q[2], P) \in ok THEN Lo(q[1], q[2])
    ELSE Far(Ways(q[1], Net(P, ok) \cup Joins(q[1], P, ok) \cup Joins(q[2], P, ok), q[3]), q[2])
\* Questions that have one answer: nothing depends on lines that graze, or on a free line out of the radius
Clear(P) ==
    LET shores == {p \in Ports : p \notin VertsOf(P) /\ \E i \in 1..Len(P) : OnBoundary(p, P[i])}
    IN {q \in (Ports \ shores) \X (Ports \ shores) \X {-1, Small} :
            /\ q[1] # q[2]
            /\ Meaning(q, P, {"c"}) = Meaning(q, P, {"c", "g"})
            /\ q[3] >= 0 /\ V(q[1], q[2], P) # "x" => Lo(q[1], q[2]) <= q[3]}

C == {1, 2}
Init == /\ polys \in Lands
        /\ qs = TLCEval([q \in Clear(polys) |-> Meaning(q, polys, {"c"})])
        /\ base = TLCEval(Net(polys, {"c"}))
        /\ kept = [c \in C |-> <<>>] /\ tree = [c \in C |-> <<>>] /\ radius = [c \in C |-> -1]
        /\ h = <<>> /\ out = <<>>

Radius(c, q) == IF Variant = "radius" /\ radius[c] >= 0 THEN radius[c] ELSE q[3]
Found(c, q) ==
    LET s == q[1]
        d == q[2]
        own == base \cup Joins(s, polys, {"c"}) \cup Joins(d, polys, {"c"})
    IN IF Variant = "memo" /\ <<s, d>> \in DOMAIN kept[c] THEN kept[c][<<s, d>>]
       ELSE IF OnLandOf(s, polys) \/ OnLandOf(d, polys) THEN Refused
       ELSE IF V(s, d, polys) = "c" THEN Lo(s, d)
       ELSE IF Variant = "tree" /\ s \in DOMAIN tree[c] THEN Far(tree[c][s], d)
       ELSE Far(Ways(s, own, Radius(c, q)), d)
Remember(c, q, a) ==
    /\ kept' = IF Variant = "memo" THEN [kept EXCEPT ![c] = @ @@ (<<q[1], q[2]>> :> a)] ELSE kept
    /\ tree' = IF Variant = "tree" /\ a # Refused THEN [tree EXCEPT ![c] = @ @@ (q[1] :> Ways(q[1], base \cup Joins(q[1], polys, {"c"}) \cup Joins(q[2], polys, {"c"}), q[3]))]
               ELSE tree
    /\ radius' = IF Variant = "radius" /\ q[3] >= 0 THEN [radius EXCEPT ![c] = q[3]] ELSE radius
    /\ base' = IF Variant = "base" THEN base \cup Joins(q[1], polys, {"c"}) \cup Joins(q[2], polys, {"c"}) ELSE base
Ask(c, q) == /\ Len(h) < MaxAsked
             /\ LET a == Found(c, q)
                IN /\ h' = Append(h, [comp |-> c, ask |-> <<q>>, batch |-> FALSE])
                   /\ out' = Append(out, <<a>>)
                   /\ Remember(c, q, a)
             /\ UNCHANGED <<polys, qs>>
\* A batch has one radius
Give(c, ask) == /\ Len(h) < MaxAsked
                /\ LET as == TLCEval([i \in 1..Len(ask) |-> Found(c, ask[i])])
                   IN /\ h' = Append(h, [comp |-> c, ask |-> ask, batch |-> TRUE])
                      /\ out' = Append(out, as)
                      /\ Remember(c, ask[1], as[1])
                /\ UNCHANGED <<polys, qs>>
Next == \E c \in C, q \in DOMAIN qs : \/ Ask(c, q)
                                      \/ /\ Batches
                                         /\ \E p \in DOMAIN qs : q[3] = p[3] /\ Give(c, <<q, p, q>>)
\* Some long history (for simulation)
Long == \E c \in {RandomElement(C)}, q \in {RandomElement(DOMAIN qs)}, n \in {RandomElement({0, 0, 1, 3, 60})} :
            IF n = 0 THEN Ask(c, q)
            ELSE \E ask \in {[i \in 1..n |-> RandomElement({p \in DOMAIN qs : p[3] = q[3]})]} : Give(c, ask)
Spec == Init /\ [][Next]_vars
Refines == /\ base = Net(polys, {"c"})
           /\ \A i \in 1..Len(h) : out[i] = [k \in 1..Len(h[i].ask) |-> qs[h[i].ask[k]]]
\* Checked along with Refines: told when a history is complete
Told == Tell /\ Len(h) = MaxAsked => PrintT("@" \o ToJson([polys |-> polys, h |-> h, out |-> out]))
=============================================================================
