------------------------------ MODULE ConcStore ------------------------------
(* Graph under concurrent use, at the level of locks: a reader-writer lock    *)
(* per vertex.  A directed operation on a -> b takes the locks of both, the    *)
(* lower first, changes one cell by a read and a write, and lets go.  Asking   *)
(* for the edge takes both for reading, listing neighbours takes one lock for  *)
(* reading and looks at one cell after the other.  G is the abstract graph,    *)
(* changed in one step at the moment of the write.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NV, Threads, MaxOps,
          Variant   \* "ok", or a mistake: "order" (locks are taken in the order of the call), "unlocked list" (neighbours
                    \* are listed without the lock), "early" (the cell is read before the locks are taken), "shared"
                    \* (changes take the locks for reading only), "one" (changes lock only the vertex they lead to)
V == 1..NV
Pairs == {p \in V \X V : p[1] # p[2]}
Nobody == "nobody"
VARIABLES cell,    \* cell[<<a, b>>]: bits 1 plain, 2 across
          writer, readers,
          th,      \* th[t]: [pc, op, a, b, x, reg, i, seen, left]
          G
vars == <<cell, writer, readers, th, G>>
Or(c, x) == IF (c \div x) % 2 = 1 THEN c ELSE c + x
Idle(left) == [pc |-> "idle", op |-> "none", a |-> 0, b |-> 0, x |-> 0, reg |-> 0, i |-> 0, seen |-> {}, left |-> left]
Init == /\ cell = [p \in Pairs |-> 0] /\ G = cell
        /\ writer = [v \in V |-> Nobody] /\ readers = [v \in V |-> {}]
        /\ th = [t \in Threads |-> Idle(MaxOps)]
Lo(t) == LET s == th[t] IN IF Variant = "order" THEN s.a ELSE IF s.a < s.b THEN s.a ELSE s.b
Hi(t) == LET s == th[t] IN IF Variant = "order" THEN s.b ELSE IF s.a < s.b THEN s.b ELSE s.a
Changes(t) == th[t].op \in {"add", "rem"}
CanTake(t, v) == IF Changes(t) /\ Variant # "shared" THEN writer[v] = Nobody /\ readers[v] = {} ELSE writer[v] = Nobody
Taken(t, v) == IF Changes(t) /\ Variant # "shared" THEN writer' = [writer EXCEPT ![v] = t] /\ UNCHANGED readers
               ELSE readers' = [readers EXCEPT ![v] = @ \cup {t}] /\ UNCHANGED writer
Start(t) == /\ th[t].pc = "idle" /\ th[t].left > 0
            /\ \E p \in Pairs, o \in {"add", "rem", "has", "list"}, x \in {1, 2} :
                 /\ o # "add" => x = 1
                 /\ th' = [th EXCEPT ![t] = [pc |-> "first", op |-> o, a |-> p[1], b |-> p[2], x |-> x,
                                             reg |-> IF Variant = "early" THEN cell[p] ELSE 0, i |-> 1, seen |-> {},
                                             left |-> @.left - 1]]
            /\ UNCHANGED <<cell, writer, readers, G>>
Goto(t, pc) == th' = [th EXCEPT ![t].pc = pc]
Free(t) == Variant = "unlocked list" /\ th[t].op = "list"
First(t) == /\ th[t].pc = "first"
            /\ IF Free(t) THEN UNCHANGED <<writer, readers>> /\ Goto(t, "look")
               ELSE LET v == IF th[t].op = "list" THEN th[t].a ELSE IF Variant = "one" /\ Changes(t) THEN th[t].b ELSE Lo(t)
                    IN /\ CanTake(t, v) /\ Taken(t, v)
                       /\ Goto(t, IF th[t].op = "list" THEN "look" ELSE IF Variant = "one" /\ Changes(t) THEN "read" ELSE "second")
            /\ UNCHANGED <<cell, G>>
Second(t) == /\ th[t].pc = "second" /\ CanTake(t, Hi(t)) /\ Taken(t, Hi(t)) /\ Goto(t, "read") /\ UNCHANGED <<cell, G>>
Read(t) == /\ th[t].pc = "read"
           /\ LET r == IF Variant = "early" /\ Changes(t) THEN th[t].reg ELSE cell[<<th[t].a, th[t].b>>]
              IN th' = [th EXCEPT ![t].reg = r, ![t].pc = IF Changes(t) THEN "write" ELSE "end"]
           /\ UNCHANGED <<cell, writer, readers, G>>
Write(t) == LET p == <<th[t].a, th[t].b>>
                new(c) == IF th[t].op = "add" THEN Or(c, th[t].x) ELSE 0
            IN /\ th[t].pc = "write"
               /\ cell' = [cell EXCEPT ![p] = new(th[t].reg)]
               /\ G' = [G EXCEPT ![p] = new(G[p])]
               /\ Goto(t, "end") /\ UNCHANGED <<writer, readers>>
Look(t) == /\ th[t].pc = "look"
           /\ LET i == th[t].i IN
              th' = [th EXCEPT ![t].seen = IF i # th[t].a /\ cell[<<th[t].a, i>>] # 0 THEN @ \cup {i} ELSE @,
                               ![t].i = i + 1, ![t].pc = IF i = NV THEN "end" ELSE "look"]
           /\ UNCHANGED <<cell, writer, readers, G>>
End(t) == /\ th[t].pc = "end"
          /\ writer' = [v \in V |-> IF writer[v] = t THEN Nobody ELSE writer[v]]
          /\ readers' = [v \in V |-> readers[v] \ {t}]
          /\ th' = [th EXCEPT ![t] = Idle(@.left)]
          /\ UNCHANGED <<cell, G>>
Step(t) == Start(t) \/ First(t) \/ Second(t) \/ Read(t) \/ Write(t) \/ Look(t) \/ End(t)
AllDone == \A t \in Threads : th[t].pc = "idle" /\ th[t].left = 0
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
\* Deadlock freedom is TLC's deadlock check.  What is written is what the abstract graph says,
\* what was read when an answer is complete is what the abstract graph says at that moment.
NoLostUpdate == cell = G
Answers == \A t \in Threads : th[t].pc = "end" =>
              CASE th[t].op = "has" -> th[t].reg = G[<<th[t].a, th[t].b>>]
                [] th[t].op = "list" -> th[t].seen = {b \in V \ {th[t].a} : G[<<th[t].a, b>>] # 0}
                [] OTHER -> TRUE
Perms == Permutations(Threads)
=============================================================================
