----------------------------- MODULE IndexTrace -----------------------------
(* The spatial index of land edges, in microdegrees around a point of the    *)
(* equator, where the sphere and the map agree.  The state is the land.      *)
(* Judged is what is at least two microdegrees away from being different.    *)
EXTENDS Geo, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, polys, edges, why
vars == <<tid, l, polys, edges, why>>
Ev == Traces[tid][l]

EdgesOf(ps) == UNION {{<<ps[i][k], Nxt(ps[i], k)>> : k \in 1..Len(ps[i])} : i \in 1..Len(ps)}
Vertices == UNION {PtsOf(polys[i]) : i \in 1..Len(polys)}
\* Distance from p to the edge, rounded (error at most 2)
DistE(p, e) ==
    LET a == e[1]
        b == e[2]
        k == Max2(1, 32767 \div (ISqrt(Dist2(a, b)) + 1))   \* finer, as far as the numbers stay small
    IN IF Dot(a, b, p) > 0 /\ Dot(b, a, p) > 0 THEN (k * Abs(Cross(a, b, p))) \div Max2(1, ISqrt(k * k * Dist2(a, b)))
       ELSE Min2(ISqrt(Dist2(p, a)), ISqrt(Dist2(p, b)))
\* A report <<a, b>> stands for the edge in either direction
Unify(s) == IF s \in edges THEN s ELSE <<s[2], s[1]>>
IsEdge(s) == s \in edges \/ <<s[2], s[1]>> \in edges
Reported(e) == {Unify(e.segs[i]) : i \in 1..Len(e.segs)}

Near(p, e, d) == DistE(p, e) <= d
ContainedComplaints(e) ==
    IF e.p \in Vertices THEN (IF e.v = 1 THEN {"vertex contained"} ELSE {})
    ELSE IF \E x \in edges : Near(e.p, x, 4) THEN {}
    ELSE IF (e.v = 1) # (\E i \in 1..Len(polys) : Inside(e.p, polys[i])) THEN {"contained wrong"} ELSE {}

\* The segment p-q meets the edge for certain / certainly does not
SurelyMeets(p, q, x) ==
    \/ p \in {x[1], x[2]} \/ q \in {x[1], x[2]}
    \/ Proper(p, q, x[1], x[2]) /\ ~Near(p, x, 4) /\ ~Near(q, x, 4)
         /\ DistE(x[1], <<p, q>>) > 4 /\ DistE(x[2], <<p, q>>) > 4
SurelyApart(p, q, x) ==
    /\ p \notin {x[1], x[2]} /\ q \notin {x[1], x[2]}
    /\ ~Touch(p, q, x[1], x[2])
    /\ ~Near(p, x, 4) /\ ~Near(q, x, 4) /\ DistE(x[1], <<p, q>>) > 4 /\ DistE(x[2], <<p, q>>) > 4
CrossComplaints(e) ==
    (IF \E x \in edges : SurelyMeets(e.p, e.q, x) /\ (e.v = 0 \/ x \notin Reported(e)) THEN {"crossing missed"} ELSE {})
    \cup (IF (\A x \in edges : SurelyApart(e.p, e.q, x)) /\ e.v = 1 THEN {"crossing invented"} ELSE {})
    \cup (IF \E i \in 1..Len(e.segs) : ~IsEdge(e.segs[i]) \/ SurelyApart(e.p, e.q, Unify(e.segs[i]))
          THEN {"crossing invented"} ELSE {})
    \cup (IF (e.v = 1) # (Len(e.segs) > 0) THEN {"crossing disagrees"} ELSE {})
    \cup (IF Cardinality(Reported(e)) # Len(e.segs) THEN {"crossing twice"} ELSE {})
    \cup (IF \E i \in 1..(Len(e.segs) - 1) : DistE(e.p, e.segs[i]) > DistE(e.p, e.segs[i + 1]) + 4
          THEN {"crossings unordered"} ELSE {})
ClosestComplaints(e) ==
    IF e.thrown # "" THEN (IF polys # <<>> THEN {"no closest"} ELSE {})
    ELSE (IF ~IsEdge(e.seg) THEN {"not an edge"} ELSE {})
         \cup (IF \E x \in edges : DistE(e.p, x) + 4 < DistE(e.p, e.seg) THEN {"not the closest"} ELSE {})
WithinComplaints(e) ==
    (IF \E i \in 1..Len(e.segs) : ~IsEdge(e.segs[i]) THEN {"not an edge"} ELSE {})
    \cup (IF \E x \in edges : DistE(e.p, x) + 4 < e.d /\ x \notin Reported(e) THEN {"near edge missed"} ELSE {})
    \cup (IF \E i \in 1..Len(e.segs) : DistE(e.p, e.segs[i]) > e.d + 4 THEN {"far edge reported"} ELSE {})
    \cup (IF Cardinality(Reported(e)) # Len(e.segs) THEN {"edge twice"} ELSE {})

Complaints(e) ==
    IF e.e = "land" THEN
        IF \A i \in 1..Len(e.polys) : WellFormed(e.polys[i]) /\ \A j \in 1..Len(e.polys) : i < j => Disjoint(e.polys[i], e.polys[j])
        THEN {} ELSE {"bad world"}
    ELSE IF e.e # "closest" /\ e.thrown # "" THEN {"error"}
    ELSE IF e.e = "contained" THEN ContainedComplaints(e)
    ELSE IF e.e = "crosses" THEN CrossComplaints(e)
    ELSE IF e.e = "closest" THEN ClosestComplaints(e)
    ELSE IF e.e = "within" THEN WithinComplaints(e)
    ELSE {"unknown event"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ polys = <<>> /\ edges = {} /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ polys' = IF Ev.e = "land" THEN Ev.polys ELSE polys
        /\ edges' = IF Ev.e = "land" THEN EdgesOf(Ev.polys) ELSE edges
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == why \cap {"unknown event", "bad world"} = {}
Accepted == why \cap Focus = {}
=============================================================================
