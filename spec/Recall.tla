-------------------------------- MODULE Recall --------------------------------
(* What was answered before is answered again.  The state is the answers told *)
(* so far, by question; a question is the ends, however their longitudes are  *)
(* written, the search radius, the weight of the guess and whether ends on    *)
(* land are moved off it.  Two answers agree if both are refusals, if they    *)
(* are the same path or if both lead around something at the same length.     *)
(* What an answer has to be is said elsewhere (CapiTrace); no geometry is     *)
(* needed here, so many questions in crowded waters can be gone through.      *)
EXTENDS Routes, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, w, told, why
vars == <<tid, l, w, told, why>>
Ev == Traces[tid][l]

Point(p) == IF w.W = 0 THEN p ELSE Norm(p, w.lo, w.W)
Question(q, e) == <<Point(q[1]), Point(q[2]), e.mx, e.wn, e.wd, e.corr>>
Leg(a, b) == IF w.W = 0 THEN DirectLo(a, b) ELSE Min2(DirectLo(a, b), AcrossLo(a, b, w.W))
Length(path) == SumFrom([i \in 1..(Len(path) - 1) |-> Leg(path[i], path[i + 1])], 1)
Agree(x, y) ==
    \/ x.ok = y.ok /\ x.path = y.path /\ x.off = y.off
    \/ /\ x.ok /\ y.ok /\ x.off = 0 /\ y.off = 0
       /\ Len(x.path) > 2 /\ Len(y.path) > 2
       /\ Abs(Length(x.path) - Length(y.path)) <= 4 * (Len(x.path) + Len(y.path))

\* Questions and answers of an event, in order
Asked(e) == IF e.e = "path" THEN <<[q |-> Question(<<e.s, e.d>>, e), r |-> e.r]>>
            ELSE IF e.e = "batch" THEN [i \in 1..Len(e.rs) |-> [q |-> Question(e.qs[i], e), r |-> e.rs[i]]]
            ELSE <<>>
RECURSIVE Learn(_, _, _)
Learn(known, asked, i) ==
    IF i > Len(asked) THEN known
    ELSE Learn(IF asked[i].q \in DOMAIN known THEN known ELSE (asked[i].q :> asked[i].r) @@ known, asked, i + 1)
Complaints(e) ==
    IF e.e = "world" THEN {}
    ELSE IF e.e \notin {"path", "batch"} THEN {"unknown event"}
    ELSE IF e.e = "batch" /\ Len(e.rs) # Len(e.qs) THEN {"batch size"}
    ELSE LET a == TLCEval(Asked(e))
             after == TLCEval(Learn(told, a, 1))
         IN IF \E i \in 1..Len(a) : ~Agree(after[a[i].q], a[i].r) THEN {"changed answer"} ELSE {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = [W |-> 0] /\ told = << >> /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ w' = IF Ev.e = "world" THEN [W |-> Ev.W, lo |-> Ev.lo] ELSE w
        /\ told' = IF Ev.e = "world" THEN << >>
                   ELSE IF "batch size" \in why' THEN told ELSE Learn(told, Asked(Ev), 1)
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
