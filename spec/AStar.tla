------------------------------- MODULE AStar -------------------------------
(* The search behind a path query, on all small networks: nodes at places of  *)
(* the equator of a small earth, any edges between them, direct or across the *)
(* antimeridian, a search radius and a greediness weighting.  The search may  *)
(* take equally good entries of its queue in any order.  Its answer must be a *)
(* route within the weighting of the shortest, and it must answer exactly if  *)
(* there is a route within the radius.  Every network is printed with what    *)
(* may be answered, to be replayed on the real code.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W,          \* once around the earth; places are -W/2 .. W/2-1
          Layouts,    \* sequences of places; the first is the source, the last the destination
          Weights,    \* pairs <<numerator, denominator>>
          Radii,      \* search radii, INF for none
          Variant,    \* "ok", or a mistake: "early" (stops as soon as the destination is met), "closed" (a node that was
                      \* met keeps its first distance), "direct" (the heuristic only knows the direct line), "charge" (an
                      \* edge across is charged the direct length), "beyond" (the radius does not count for nodes already
                      \* at hand), "order" (the queue ignores the way to go)
          Tell
INF == 1000000
VARIABLES x, lab, R, wt, pq, dist, prev, pc
vars == <<x, lab, R, wt, pq, dist, prev, pc>>
N == Len(x)
Nodes == 1..N
Abs(n) == IF n < 0 THEN -n ELSE n
Pairs == {p \in (1..5) \X (1..5) : p[1] < p[2]}
Lab(i, j) == IF i = j THEN 0 ELSE IF i < j THEN lab[<<i, j>>] ELSE lab[<<j, i>>]
Direct(i, j) == Abs(x[i] - x[j])
Around(i, j) == W - Direct(i, j)
Near(i, j) == IF Direct(i, j) < Around(i, j) THEN Direct(i, j) ELSE Around(i, j)
Cost(i, j) == IF Lab(i, j) = 2 THEN Around(i, j) ELSE Direct(i, j)
Charge(i, j) == IF Variant = "charge" THEN Direct(i, j) ELSE Cost(i, j)
H(i) == IF Variant = "direct" THEN Direct(i, N) ELSE Near(i, N)

Init == /\ x \in Layouts
        /\ lab \in [{p \in Pairs : p[2] <= N /\ p # <<1, N>>} \cup {<<1, N>>} -> 0..2]
        /\ R \in Radii /\ wt \in Weights
        /\ pq = {} /\ dist = <<>> /\ prev = <<>>
        /\ pc = "ask"
Key(e) == IF Variant = "order" THEN 0 ELSE e[2] * wt[2] + H(e[1]) * wt[1]
Next_(e) == {j \in Nodes : Lab(e[1], j) # 0}
Better(e, j) == LET g == e[2] + Charge(e[1], j)
                IN IF Variant = "closed" THEN dist[j] = INF ELSE g < dist[j]
Taken(e) == {j \in Next_(e) : Better(e, j) /\ (Near(1, j) <= R \/ (Variant = "beyond" /\ e[1] = 1))}

\* What the network offers: shortest lengths from the source over nodes within the radius
RECURSIVE Relax(_, _)
Relax(d, k) ==
    IF k = 0 THEN d
    ELSE Relax([i \in Nodes |-> LET c == {d[i]} \cup {d[j] + Cost(j, i) : j \in {m \in Nodes : Lab(m, i) # 0 /\ d[m] < INF /\ Near(1, i) <= R}}
                                IN CHOOSE m \in c : \A y \in c : m <= y], k - 1)
Shortest == Relax([i \in Nodes |-> IF i = 1 THEN 0 ELSE INF], N)[N]
Emit == Tell => PrintT("@" \o ToJson([x |-> x, edges |-> {<<p[1], p[2], lab[p]>> : p \in {q \in DOMAIN lab : lab[q] # 0}},
                                      R |-> R, w |-> wt, best |-> Shortest]))
Ask == /\ pc = "ask"
       /\ Emit
       /\ pc' = "search"
       /\ pq' = {<<1, 0>>}
       /\ dist' = [i \in Nodes |-> INF] /\ prev' = [i \in Nodes |-> 0]
       /\ UNCHANGED <<x, lab, R, wt>>
Pop == /\ pc = "search" /\ pq # {}
       /\ \E e \in pq :
            /\ \A f \in pq : Key(e) <= Key(f)
            /\ IF e[1] = N THEN pc' = "found" /\ UNCHANGED <<pq, dist, prev>>
               ELSE LET t == Taken(e)
                    IN /\ pq' = (pq \ {e}) \cup {<<j, e[2] + Charge(e[1], j)>> : j \in t}
                       /\ dist' = [j \in Nodes |-> IF j \in t THEN e[2] + Charge(e[1], j) ELSE dist[j]]
                       /\ prev' = [j \in Nodes |-> IF j \in t THEN e[1] ELSE prev[j]]
                       /\ pc' = IF Variant = "early" /\ N \in t THEN "found" ELSE "search"
       /\ UNCHANGED <<x, lab, R, wt>>
GiveUp == /\ pc = "search" /\ pq = {}
          /\ pc' = "failed"
          /\ UNCHANGED <<x, lab, R, wt, pq, dist, prev>>
Next == Ask \/ Pop \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The route that the predecessors tell, from the destination back to the source
RECURSIVE Back(_, _)
Back(i, k) == IF i = 1 THEN <<1>> ELSE IF k = 0 \/ prev[i] = 0 THEN <<0>> ELSE Append(Back(prev[i], k - 1), i)
Route == Back(N, N)
RECURSIVE LenFrom(_, _)
LenFrom(r, i) == IF i >= Len(r) THEN 0 ELSE Cost(r[i], r[i + 1]) + LenFrom(r, i + 1)
Factor(n) == IF wt[1] <= wt[2] THEN n * wt[2] ELSE n * wt[1]
Found == pc = "found" =>
            /\ Shortest < INF
            /\ Route[1] = 1
            /\ \A i \in 1..(Len(Route) - 1) : Lab(Route[i], Route[i + 1]) # 0 /\ Near(1, Route[i + 1]) <= R
            /\ LenFrom(Route, 1) * wt[2] <= Factor(Shortest)
Failed == pc = "failed" => Shortest = INF
Refines == Found /\ Failed
Ends == <>(pc \in {"found", "failed"})
\* Configurations
Few == {<<-4, -2, 1, 3>>, <<0, -3, 2, -1>>, <<-1, 3, -4, 1>>}
Many == Few \cup {<<-4, 3, 0, -2, 1>>, <<1, -4, 3, -1, 2>>}
WeightsFew == {<<1, 1>>, <<2, 1>>, <<0, 1>>}
WeightsMany == WeightsFew \cup {<<3, 2>>, <<1, 2>>, <<3, 1>>}
RadiiOne == {INF}
RadiiFew == {INF, 2}
RadiiMany == {INF, 1, 2, 3}
=============================================================================
