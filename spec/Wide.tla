-------------------------------- MODULE Wide ---------------------------------
(* Lands that run across the whole map and have details of a microdegree:     *)
(* corners as flat as corners get, necks a few microdegrees wide at the end   *)
(* of shores of a hundred degrees.  The rules are those of Isles; only the    *)
(* numbers no longer fit, so the sides points lie on are told by Big: check   *)
(* with  Cross <- SideOf  and  Area2 <- TurnOf.                               *)
EXTENDS Isles
BG == INSTANCE Big
SideOf(o, a, b) == BG!Side(o, a, b)
RECURSIVE FanFrom(_, _)
FanFrom(P, i) ==
    IF i >= Len(P) THEN <<0, 0, 0, 0, 0, 0, 0>>
    ELSE BG!Carry(BG!Plus(FanFrom(P, i + 1),
              LET o == P[1]
                  a == P[i]
                  b == P[i + 1]
              IN BG!Minus(BG!Mul(a[1] - o[1], b[2] - o[2]), BG!Mul(a[2] - o[2], b[1] - o[1]))), 1)
TurnOf(P) == BG!Sgn(FanFrom(P, 2))
=============================================================================
