------------------------------- MODULE Periodic ------------------------------
(* Longitudes on a circle of W units cut between -H and H (W = 2H + 1, like   *)
(* the real 360000001 microdegrees between -180000000 and 180000000).         *)
(* A longitude is brought into the range by whole turns, one after the other; *)
(* it counts as over the meridian while it is outside; and it has one copy a  *)
(* turn further in either direction.                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS H, Turns,
          Variant,     \* "ok", or a mistake: "once" (one turn at most), "late" (the unit beyond H counts as inside), "even" (a turn is
                       \* 2H units), "down" (only longitudes above the range are brought back)
          Tell
VARIABLES given, x, pc
vars == <<given, x, pc>>
W == 2 * H + 1
Turn == IF Variant = "even" THEN 2 * H ELSE W
Above(y) == IF Variant = "late" THEN y > H + 1 ELSE y > H
Below(y) == Variant # "down" /\ y < -H
Init == /\ given \in {k * W + y : k \in (-Turns)..Turns, y \in (-H)..H}
        /\ x = given /\ pc = "turn"
Back == /\ pc = "turn" /\ (Above(x) \/ Below(x))
        /\ x' = IF Above(x) THEN x - Turn ELSE x + Turn
        /\ pc' = IF Variant = "once" THEN "end" ELSE pc
        /\ UNCHANGED given
Stay == /\ pc = "turn" /\ ~Above(x) /\ ~Below(x)
        /\ pc' = "end"
        /\ UNCHANGED <<given, x>>
Report == /\ pc = "end"
          /\ pc' = "done"
          /\ Tell => PrintT("@" \o ToJson([given |-> given, c |-> x, over |-> given \notin (-H)..H]))
          /\ UNCHANGED <<given, x>>
Next == Back \/ Stay \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refines == pc = "done" => /\ x \in (-H)..H
                          /\ (given - x) % W = 0
                          /\ given \in (-H)..H => x = given
Ends == <>(pc = "done")
=============================================================================
