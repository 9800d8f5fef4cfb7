-------------------------------- MODULE Reader --------------------------------
(* Reading a shapefile.  A record is a kind and rings, each a list of points  *)
(* as they stand in the file (the closing vertex included); in the file the   *)
(* points of all rings stand in one list, with the places where parts begin.  *)
(* The machine is the reader: it walks the records, and the points of each up *)
(* to the second part.  TLC makes all files of a few records.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds,      \* kinds of records other than polygons
          Rings,      \* kinds of rings: see Ring
          MaxRecords, MaxRings,
          Variant,    \* "ok", or a mistake: "all parts" (runs on into the further parts), "each part" (every part becomes a polygon),
                      \* "closing" (the closing vertex is kept), "two" (rings of two corners are taken), "four" (triangles are not),
                      \* "kind" (polygons with heights are taken), "stop" (a record of another kind ends the reading),
                      \* "carry" (points of a ring too small stay), "repeat" (a corner met before closes the ring),
                      \* "next part" (a small first ring lets the second be taken)
          Tell
VARIABLES file, pc, rec, at, cur, out
vars == <<file, pc, rec, at, cur, out>>

Ring(kind, r, k) ==
    LET p(c) == <<r, k, c>>
    IN IF kind = "one" THEN <<p(1), p(1)>>
       ELSE IF kind = "two" THEN <<p(1), p(2), p(1)>>
       ELSE IF kind = "three" THEN <<p(1), p(2), p(3), p(1)>>
       ELSE IF kind = "four" THEN <<p(1), p(2), p(3), p(4), p(1)>>
       ELSE IF kind = "twice" THEN <<p(1), p(2), p(2), p(3), p(1)>>          \* a corner twice in a row
       ELSE <<p(1), p(2), p(3), p(1), p(4), p(5), p(1)>>                      \* "back": comes by its first corner
RingSeqs(n) == UNION {[1..k -> Rings] : k \in 1..n}
Records == {[kind |-> k, rings |-> <<"three">>] : k \in Kinds} \cup {[kind |-> "polygon", rings |-> s] : s \in RingSeqs(MaxRings)}

\* The list of points and the starts of the parts (from 0) as they stand in the file
RECURSIVE Points(_, _, _), Starts(_, _, _, _)
Points(rc, r, k) == IF k > Len(rc.rings) THEN <<>> ELSE Ring(rc.rings[k], r, k) \o Points(rc, r, k + 1)
Starts(rc, r, k, n) == IF k > Len(rc.rings) THEN <<>> ELSE <<n>> \o Starts(rc, r, k + 1, n + Len(Ring(rc.rings[k], r, k)))

Init == file = <<>> /\ pc = "write" /\ rec = 1 /\ at = 0 /\ cur = <<>> /\ out = <<>>
Write == /\ pc = "write"
         /\ \/ /\ Len(file) < MaxRecords
               /\ \E x \in Records : file' = Append(file, x)
               /\ UNCHANGED pc
            \/ pc' = "record" /\ UNCHANGED file
         /\ UNCHANGED <<rec, at, cur, out>>

Pts == Points(file[rec], rec, 1)
Parts == Starts(file[rec], rec, 1, 0)
Taken(k) == k = "polygon" \/ (Variant = "kind" /\ k \in {"polygonz", "polygonm"})
Enter == /\ pc = "record" /\ rec <= Len(file)
         /\ IF Taken(file[rec].kind) THEN pc' = "point" /\ UNCHANGED rec
            ELSE IF Variant = "stop" THEN pc' = "done" /\ UNCHANGED rec
            ELSE rec' = rec + 1 /\ UNCHANGED pc
         /\ at' = 0
         /\ cur' = IF Variant = "carry" THEN cur ELSE <<>>
         /\ UNCHANGED <<file, out>>
PartBegins == \E i \in 2..Len(Parts) : Parts[i] = at
Enough == Len(cur) > (IF Variant = "two" THEN 2 ELSE IF Variant = "four" THEN 4 ELSE 3)
Made == IF Enough THEN Append(out, IF Variant = "closing" THEN cur ELSE SubSeq(cur, 1, Len(cur) - 1)) ELSE out
Closed == Variant = "repeat" /\ Len(cur) > 1 /\ \E i \in 1..(Len(cur) - 1) : cur[i] = cur[Len(cur)]
Point == /\ pc = "point"
         /\ IF at = Len(Pts) \/ Closed \/ (PartBegins /\ ~(Variant = "all parts")
                                           /\ ~(Variant = "next part" /\ ~Enough) /\ Variant # "each part")
            THEN /\ out' = Made
                 /\ cur' = IF Enough THEN <<>> ELSE cur
                 /\ rec' = rec + 1
                 /\ pc' = "record"
                 /\ UNCHANGED at
            ELSE /\ out' = IF PartBegins /\ Variant = "each part" THEN Made ELSE out
                 /\ cur' = Append(IF PartBegins /\ Variant \in {"each part", "next part"} THEN <<>> ELSE cur, Pts[at + 1])
                 /\ at' = at + 1
                 /\ UNCHANGED <<rec, pc>>
         /\ UNCHANGED file
End == /\ pc = "record" /\ rec > Len(file)
       /\ pc' = "done"
       /\ UNCHANGED <<file, rec, at, cur, out>>

\* What the file means
RECURSIVE Meaning(_, _)
Meaning(f, i) ==
    IF i > Len(f) THEN <<>>
    ELSE (IF f[i].kind = "polygon" /\ Len(Ring(f[i].rings[1], i, 1)) > 3
          THEN LET g == Ring(f[i].rings[1], i, 1) IN <<SubSeq(g, 1, Len(g) - 1)>> ELSE <<>>) \o Meaning(f, i + 1)
Read == /\ pc = "done"
        /\ pc' = "told"
        /\ Tell => PrintT("@" \o ToJson([file |-> file, out |-> out]))
        /\ UNCHANGED <<file, rec, at, cur, out>>
Next == Write \/ Enter \/ Point \/ End \/ Read
Fair == WF_vars(Enter \/ Point \/ End \/ Read)
Spec == Init /\ [][Next]_vars /\ Fair
Refines == pc \in {"done", "told"} => out = Meaning(file, 1)
Ends == pc = "record" ~> pc = "told"
=============================================================================
