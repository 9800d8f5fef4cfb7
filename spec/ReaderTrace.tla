----------------------------- MODULE ReaderTrace -----------------------------
(* Reading shapefiles.  Points are numbered by their exact longitude and     *)
(* latitude; a record is its kind and its rings as they stand in the file,   *)
(* closing vertex included.                                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, why
vars == <<tid, l, why>>
Ev == Traces[tid][l]

Wanted(r) == r.kind = "POLYGON" /\ Len(r.rings) > 0 /\ Len(r.rings[1]) > 3
RECURSIVE Meaning(_, _)
Meaning(rs, i) ==
    IF i > Len(rs) THEN <<>>
    ELSE (IF Wanted(rs[i]) THEN <<SubSeq(rs[i].rings[1], 1, Len(rs[i].rings[1]) - 1)>> ELSE <<>>) \o Meaning(rs, i + 1)
Complaints(e) ==
    IF e.e # "read" THEN {"unknown event"}
    ELSE IF e.thrown # "" THEN {"failed"}
    ELSE (IF e.out # Meaning(e.records, 1) THEN
             IF Len(e.out) # Len(Meaning(e.records, 1)) THEN {"number of polygons"} ELSE {"polygon wrong"} ELSE {})
         \cup (IF e.same = 0 THEN {"file changed"} ELSE {})
Init == tid \in 1..Len(Traces) /\ l = 1 /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
