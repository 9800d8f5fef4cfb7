-------------------------------- MODULE Isles --------------------------------
(* Worlds of many islands, hundreds of corners, too many to judge every pair: *)
(* what is told of such a world is a sample of its graph, of views and of     *)
(* paths, each judged by the geometry of its own line; and the paths among a  *)
(* few points are held against each other: no way is longer than two others   *)
(* that lead to the same place, and a place reached by parts is reached.      *)
(* The state is the world and the lengths of the ways told so far.            *)
EXTENDS Routes, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, w, ways, why
vars == <<tid, l, w, ways, why>>
Ev == Traces[tid][l]

MkWorld(e) ==
    [W |-> e.W, lo |-> e.lo,
     cp |-> TLCEval(IF e.W = 0 THEN [i \in 1..Len(e.polys) |-> Boxed(e.polys[i])] ELSE Copies(e.polys, e.W)),
     vs |-> TLCEval(UNION {PtsOf(e.polys[i]) : i \in 1..Len(e.polys)}),
     \* no line leads the longer way round, so the network charges for the shorter one
     half |-> LET xs == TLCEval(UNION {{p[1] : p \in PtsOf(e.polys[i])} : i \in 1..Len(e.polys)})
              IN e.W = 0 \/ 2 * ((CHOOSE m \in xs : \A x \in xs : m >= x) - MinOf(xs)) < e.W - 2000]
Ordinary(e) ==
    /\ \A i \in 1..Len(e.polys) : WellFormed(e.polys[i])
    /\ LET b == TLCEval([i \in 1..Len(e.polys) |-> Box(e.polys[i])])
       IN \A i, j \in 1..Len(e.polys) : i < j =>
            \/ Apart(<<b[i].x0, b[i].y0>>, <<b[i].x1, b[i].y1>>, b[j])
            \/ Disjoint(e.polys[i], e.polys[j])
DV(a, b) == DirectV(a, b, w.cp)
AV(a, b) == IF w.W = 0 THEN "x" ELSE AcrossV(a, b, w.cp, w.W)

\* Pairs of vertices and how the graph joins them
PairComplaints(a, b, x) ==
    LET dv == DV(a, b)
        av == IF w.W = 0 /\ x = 2 THEN "g" ELSE AV(a, b)
    IN (IF (x = 1 /\ dv = "x") \/ (x = 2 /\ av = "x" /\ dv = "x") THEN {"cuts land"} ELSE {})
       \cup (IF x = 0 /\ x \notin LabelsFor(dv, av) THEN {"not joined"} ELSE {})
       \cup (IF x # 0 /\ x \notin LabelsFor(dv, av) /\ (dv # "x" \/ av # "x") THEN {"wrong flag"} ELSE {})
       \cup (IF x \notin 0..2 THEN {"asymmetric"} ELSE {})
GraphComplaints(e) ==
    (IF e.off = 1 \/ e.n # Cardinality(w.vs) THEN {"vertices"} ELSE {})
    \cup UNION {PairComplaints(e.pairs[i][1], e.pairs[i][2], e.pairs[i][3]) : i \in 1..Len(e.pairs)}

\* A view: some vertices and whether they are seen directly and across
OnLand(p) == \E i \in 1..Len(w.cp) : ~Apart(p, p, w.cp[i].box) /\ (OnBoundary(p, w.cp[i].v) \/ Inside(p, w.cp[i].v))
ViewComplaints(e) ==
    IF e.off = 1 THEN {"vertices"}
    ELSE IF e.o \notin w.vs /\ OnLand(e.o) THEN {}
    ELSE LET one(v, direct, across) ==
               LET ups == e.half = 0 \/ v[2] >= e.o[2]
                   dv == DV(e.o, v)
                   av == AV(e.o, v)
               IN (IF direct = 1 /\ (dv = "x" \/ ~ups) THEN {"sees through land"} ELSE {})
                  \cup (IF across = 1 /\ (av = "x" \/ ~ups) THEN {"sees through land across"} ELSE {})
                  \cup (IF direct = 0 /\ dv = "c" /\ ups THEN {"does not see"} ELSE {})
                  \cup (IF across = 0 /\ av = "c" /\ ups THEN {"does not see across"} ELSE {})
         IN UNION {one(e.vs[i][1], e.vs[i][2], e.vs[i][3]) : i \in 1..Len(e.vs)}
            \cup (IF e.strange = 1 THEN {"vertices"} ELSE {})

\* Ways among points at sea.  A way that no line has to be straight for is as
\* long as its legs; one that fails is without end.
Leg(a, b) == LegCost(DV(a, b), AV(a, b), a, b, w.W)
Length(p) == SumFrom([i \in 1..(Len(p) - 1) |-> Leg(p[i], p[i + 1])], 1)
Way(r) == IF r.ok THEN [len |-> Length(r.path), legs |-> Len(r.path) - 1] ELSE [len |-> INF, legs |-> 0]
WayComplaints(e) ==
    LET p == e.r.path
        x == Way(e.r)
        mids == {v \in w.vs \cup {k[1] : k \in DOMAIN ways} : <<e.s, v>> \in DOMAIN ways /\ <<v, e.d>> \in DOMAIN ways}
        over(v) == Plus(ways[<<e.s, v>>].len, ways[<<v, e.d>>].len)
        slack(v) == 4 * (4 + x.legs + ways[<<e.s, v>>].legs + ways[<<v, e.d>>].legs)
        shorter == {v \in mids : over(v) < INF /\ x.len > over(v) + slack(v)}
    IN IF \E v \in {e.s, e.d} \ w.vs : OnLand(v) THEN {}
       ELSE IF ~e.r.ok THEN
           (IF ShortWay(e.s, e.d, w.cp, w.W) = "c" \/ shorter # {} \/ (<<e.d, e.s>> \in DOMAIN ways /\ ways[<<e.d, e.s>>].len < INF)
            THEN {"no route"} ELSE {})
       ELSE IF e.r.off = 1 \/ Len(p) = 0 \/ p[1] # e.s \/ p[Len(p)] # e.d THEN {"ends"}
       ELSE (IF x.len >= INF THEN {"cuts land"} ELSE {})
            \cup (IF \E i \in 2..(Len(p) - 1) : p[i] \notin w.vs THEN {"strange point"} ELSE {})
            \cup (IF w.half /\ x.len < INF /\ (\/ shorter # {}
                                     \/ (ShortWay(e.s, e.d, w.cp, w.W) = "c" /\ x.len > NearHi(e.s, e.d, w.W) + 4 * Len(p))
                                     \/ (<<e.d, e.s>> \in DOMAIN ways /\ x.len > Plus(ways[<<e.d, e.s>>].len, 4 * (4 + x.legs + ways[<<e.d, e.s>>].legs))))
                  THEN {"too long"} ELSE {})

Complaints(e) ==
    IF e.e = "world" THEN (IF Ordinary(e) THEN {} ELSE {"bad world"})
    ELSE IF e.e = "graph" THEN GraphComplaints(e)
    ELSE IF e.e = "view" THEN ViewComplaints(e)
    ELSE IF e.e = "path" THEN WayComplaints(e)
    ELSE {"unknown event"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = [none |-> TRUE] /\ ways = << >> /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ w' = IF Ev.e = "world" THEN MkWorld(Ev) ELSE w
        /\ ways' = IF Ev.e = "world" THEN << >>
                   ELSE IF Ev.e = "path" THEN (<<Ev.s, Ev.d>> :> Way(Ev.r)) @@ ways ELSE ways
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == why \cap {"bad world", "unknown event"} = {}
Accepted == why \cap Focus = {}
=============================================================================
