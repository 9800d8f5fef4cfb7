-------------------------------- MODULE Batch --------------------------------
(* A batch of queries answered by several threads, which take the next query  *)
(* in turn and handle it in steps: set up, search, store.  A query is one of  *)
(* a few kinds, with the answer it has when asked alone.  In the end every    *)
(* place holds the answer of its own query, whatever the schedule.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,       \* queries, by name; "f..." are those that fail
          MaxLen, Threads,
          Variant,     \* "ok", or a mistake: "append" (answers are kept in the order in which they are found), "shared" (the
                       \* threads share the network built for a query), "stop" (a failure ends the batch), "memo" (an answer is
                       \* kept for the next query of the same thread when that one fails)
          Tell
VARIABLES batch, next, at, mine, net, slots, pc
vars == <<batch, next, at, mine, net, slots, pc>>

Fails(k) == k \in {"f-land", "f-radius"}
Alone(k) == IF Fails(k) THEN <<"error", k>> ELSE <<"path", k>>
T == 1..Threads
Idle == 0
NoNet == "none"
Init == /\ batch = <<>> /\ pc = "give"
        /\ next = 1 /\ at = [t \in T |-> Idle] /\ mine = [t \in T |-> NoNet] /\ net = NoNet /\ slots = <<>>
Give == /\ pc = "give"
        /\ \/ /\ Len(batch) < MaxLen
              /\ \E k \in Kinds : batch' = Append(batch, k)
              /\ UNCHANGED <<pc, slots>>
           \/ /\ pc' = "run"
              /\ slots' = IF Variant = "append" THEN <<>> ELSE [i \in 1..Len(batch) |-> <<>>]
              /\ UNCHANGED batch
        /\ UNCHANGED <<next, at, mine, net>>
Take(t) == /\ pc = "run" /\ at[t] = Idle /\ next <= Len(batch)
           /\ at' = [at EXCEPT ![t] = next]
           /\ next' = next + 1
           \* the network for this query: of the thread, or the shared one
           /\ net' = batch[next]
           /\ mine' = [mine EXCEPT ![t] = batch[next]]
           /\ UNCHANGED <<batch, slots, pc>>
Found(t) == LET k == IF Variant = "shared" THEN net ELSE mine[t]
                own == batch[at[t]]
            IN IF Fails(own) THEN Alone(own) ELSE <<"path", k>>
Store(t) == /\ pc = "run" /\ at[t] # Idle
            /\ LET a == Found(t)
                   i == at[t]
               IN /\ slots' = IF Variant = "append" THEN Append(slots, a)
                              ELSE IF Variant = "memo" /\ a[1] = "error" /\ i > 1 /\ slots[i - 1] # <<>> THEN [slots EXCEPT ![i] = slots[i - 1]]
                              ELSE [slots EXCEPT ![i] = a]
                  /\ next' = IF Variant = "stop" /\ a[1] = "error" THEN Len(batch) + 1 ELSE next
            /\ at' = [at EXCEPT ![t] = Idle]
            /\ UNCHANGED <<batch, mine, net, pc>>
End == /\ pc = "run" /\ next > Len(batch) /\ \A t \in T : at[t] = Idle
       /\ pc' = "done"
       /\ Tell => PrintT("@" \o ToJson([batch |-> batch, answers |-> slots]))
       /\ UNCHANGED <<batch, next, at, mine, net, slots>>
Next == Give \/ End \/ \E t \in T : Take(t) \/ Store(t)
Fair == WF_vars(End) /\ \A t \in T : WF_vars(Take(t)) /\ WF_vars(Store(t))
Spec == Init /\ [][Next]_vars /\ Fair
View == <<batch, next, at, slots, pc, IF Variant = "shared" THEN net ELSE NoNet>>
Refines == pc = "done" => slots = [i \in 1..Len(batch) |-> Alone(batch[i])]
Ends == pc = "run" ~> pc = "done"
=============================================================================
