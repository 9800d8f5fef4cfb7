----------------------------- MODULE FileTrace -----------------------------
(* Files written by the real code, read as FileFormat says: they must hold   *)
(* the graph that was saved.                                                 *)
EXTENDS FileFormat, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, why
vars == <<tid, l, why>>
Ev == Traces[tid][l]
Triples(es) == {<<es[i][1], es[i][2], es[i][3]>> : i \in 1..Len(es)}
Complaints(e) ==
    IF e.e = "file" THEN
        IF e.thrown # "" THEN {"error"}
        ELSE LET g == TLCEval(Decode(e.bytes))
             IN IF g = Bad THEN {"not a graph file"}
                ELSE (IF g.polys # e.polys THEN {"polygons in file"} ELSE {})
                     \cup (IF g.edges # Triples(e.edges) THEN {"edges in file"} ELSE {})
    ELSE {"unknown event"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
