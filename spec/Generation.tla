----------------------------- MODULE Generation -----------------------------
(* Generating a graph with several workers: each takes the next vertex (the   *)
(* schedule is dynamic), and joins it to every vertex it sees, one directed   *)
(* edge after the other; the store adds each atomically.  A pair may be seen  *)
(* from one end or both, directly, across the meridian, or both, in any       *)
(* order.  Shards do the same for ranges of the shuffled vertices and are     *)
(* merged.  Whatever the schedule and the cut, the result is the same.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Workers, Variant  \* "ok", or a mistake: "last" (the flag added last wins), "once" (an edge that is there is
                               \* not added again), "gap" (a range misses its last vertex)
V == 1..N
VARIABLES sees,   \* sees[v]: what a scan around v finds, as <<other, flag>> with flag 1 direct, 2 across
          cut,    \* vertices 1..cut are the first shard
          next,   \* next vertex to be taken, in each shard
          job,    \* job[s][w]: directed additions that worker w of shard s still has to make
          E       \* E[s]: additions made to the graph of shard s
vars == <<sees, cut, next, job, E>>
Shards == 1..2
First(s) == IF s = 1 THEN 1 ELSE cut + 1
Last(s) == IF s = 1 THEN (IF Variant = "gap" THEN cut - 1 ELSE cut) ELSE N
Pairs == {<<a, b>> \in V \X V : a # b}
\* With a scan of half a turn each pair is seen from one end only
Init == /\ sees \in {f \in [V -> SUBSET ((2..N) \X {1, 2})] : \A v \in V : \A q \in f[v] : v < q[1]}
        /\ cut \in 0..N
        /\ next = [s \in Shards |-> First(s)]
        /\ job = [s \in Shards |-> [w \in Workers |-> <<>>]]
        /\ E = [s \in Shards |-> {}]
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Jobs(v, q) == [k \in 1..(2 * Len(q)) |-> IF k % 2 = 1 THEN <<v, q[(k + 1) \div 2][1], q[(k + 1) \div 2][2]>>
                                         ELSE <<q[k \div 2][1], v, q[k \div 2][2]>>]
Take(s, w) == /\ job[s][w] = <<>> /\ next[s] <= Last(s)
              /\ \E q \in Orders(sees[next[s]]) : job' = [job EXCEPT ![s][w] = Jobs(next[s], q)]
              /\ next' = [next EXCEPT ![s] = @ + 1]
              /\ UNCHANGED <<sees, cut, E>>
Added(X, e) == IF Variant = "last" THEN {f \in X : <<f[1], f[2]>> # <<e[1], e[2]>>} \cup {e}
               ELSE IF Variant = "once" THEN IF \E f \in X : <<f[1], f[2]>> = <<e[1], e[2]>> THEN X ELSE X \cup {e}
               ELSE X \cup {e}
Add(s, w) == /\ job[s][w] # <<>>
             /\ E' = [E EXCEPT ![s] = Added(@, Head(job[s][w]))]
             /\ job' = [job EXCEPT ![s][w] = Tail(@)]
             /\ UNCHANGED <<sees, cut, next>>
\* The first shard is generated, then the second: they share nothing
Busy(s) == next[s] <= Last(s) \/ \E w \in Workers : job[s][w] # <<>>
Next == \E s \in Shards, w \in Workers : /\ \A t \in 1..(s - 1) : ~Busy(t)
                                         /\ Take(s, w) \/ Add(s, w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A s \in Shards : ~Busy(s)
Label(X, a, b) == IF <<a, b, 1>> \in X THEN 1 ELSE IF <<a, b, 2>> \in X THEN 2 ELSE 0
Wanted(a, b) == LET both == {q[2] : q \in {p \in sees[a] : p[1] = b}} \cup {q[2] : q \in {p \in sees[b] : p[1] = a}}
                IN IF 1 \in both THEN 1 ELSE IF 2 \in both THEN 2 ELSE 0
Refines == Done => \A p \in Pairs : Label(E[1] \cup E[2], p[1], p[2]) = Wanted(p[1], p[2])
Finishes == <>Done
=============================================================================
