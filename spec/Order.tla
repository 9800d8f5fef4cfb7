------------------------------- MODULE Order --------------------------------
(* Sorting points around an observer, run on all short lists of points of a  *)
(* small grid: each point in turn is put before the first point that comes   *)
(* after it.  Checked is that the order in which points come is one (no      *)
(* cycles, no gaps), and that the list ends up in it: the observer, then     *)
(* directions counter-clockwise from due east, then distances.               *)
EXTENDS Geo, Json
CONSTANTS R, MaxLen,       \* points with coordinates -R..R around the observer <<0, 0>>
          Variant,         \* "ok", or a mistake: "line" (points on one line through the observer are compared by distance,
                           \* whichever side they are on), "near" (distances do not count), "half" (directions below the observer come first)
          Tell
VARIABLES given, todo, done, pc
vars == <<given, todo, done, pc>>
O == <<0, 0>>
Grid == ((-R)..R) \X ((-R)..R)
Quad(p) == LET x == p[1]
               y == p[2]
           IN IF y = 0 /\ x > 0 THEN 1 ELSE IF x > 0 /\ y > 0 THEN 2 ELSE IF x = 0 /\ y > 0 THEN 3
              ELSE IF x < 0 /\ y > 0 THEN 4 ELSE IF y = 0 /\ x < 0 THEN 5 ELSE IF x < 0 /\ y < 0 THEN 6
              ELSE IF x = 0 /\ y < 0 THEN 7 ELSE 8
\* What the order is
Angle(p, q) == Quad(p) < Quad(q) \/ (Quad(p) = Quad(q) /\ Cross(O, p, q) > 0)
Before(p, q) == IF p = O THEN q # O ELSE IF q = O THEN FALSE
                ELSE Angle(p, q) \/ (~Angle(q, p) /\ Dist2(O, p) < Dist2(O, q))
\* How points are compared
Down(p) == p[2] < 0
Cmp(p, q) ==
    IF p = O \/ q = O THEN p = O /\ q # O
    ELSE IF Cross(O, p, q) = 0 /\ (Variant = "line" \/ Dot(O, p, q) >= 0)
         THEN Variant # "near" /\ Dist2(O, p) < Dist2(O, q)
    ELSE IF Variant = "half" /\ Down(p) # Down(q) THEN Down(p)
    ELSE Angle(p, q)

Init == /\ given \in {<<p>> : p \in Grid} \cup {<<>>}
        /\ todo = <<>> /\ done = <<>> /\ pc = "give"
Give == /\ pc = "give"
        /\ \/ /\ given # <<>> /\ Len(given) < MaxLen
              /\ given' \in {Append(given, p) : p \in Grid}
              /\ UNCHANGED <<todo, pc>>
           \/ pc' = "sort" /\ todo' = given /\ UNCHANGED given
        /\ UNCHANGED done
Put == /\ pc = "sort" /\ todo # <<>>
       /\ LET p == Head(todo)
              after == {i \in 1..Len(done) : Cmp(p, done[i])}
              k == IF after = {} THEN Len(done) + 1 ELSE CHOOSE i \in after : \A j \in after : i <= j
          IN done' = SubSeq(done, 1, k - 1) \o <<p>> \o SubSeq(done, k, Len(done))
       /\ todo' = Tail(todo)
       /\ UNCHANGED <<given, pc>>
End == /\ pc = "sort" /\ todo = <<>>
       /\ pc' = "done"
       /\ Tell => PrintT("@" \o ToJson([given |-> given, sorted |-> done]))
       /\ UNCHANGED <<given, todo, done>>
Next == Give \/ Put \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Refines == pc = "done" => /\ \A i \in 1..(Len(done) - 1) : ~Before(done[i + 1], done[i])
                          /\ \A p \in Grid : Count(done, p) = Count(given, p)
                          /\ Len(done) = Len(given)
\* Sorting is only defined for comparisons that are an order with ties
ASSUME Variant = "ok" =>
    /\ \A p, q \in Grid : ~(Cmp(p, q) /\ Cmp(q, p)) /\ (Cmp(p, q) <=> Before(p, q))
    /\ \A p, q, r \in Grid : (Cmp(p, q) /\ Cmp(q, r) => Cmp(p, r))
                             /\ (~Cmp(p, q) /\ ~Cmp(q, p) /\ ~Cmp(q, r) /\ ~Cmp(r, q) => ~Cmp(p, r) /\ ~Cmp(r, p))
=============================================================================
