------------------------------ MODULE CapiTrace ------------------------------
(* Executions of CAPI against the specification.  A trace is a sequence of   *)
(* events, each an API call with its arguments and its result in grid units. *)
(* The state is what the calls build up: the world (land), the visibility    *)
(* graph observed for it and the network that the world demands.  Every      *)
(* event is judged against the state; the judgement is a set of complaints.  *)
(* A check is about the complaints in Focus.                                 *)
EXTENDS Routes, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, w, g, need, last, why
vars == <<tid, l, w, g, need, last, why>>

Ev == Traces[tid][l]
None == [none |-> TRUE]

(***************************** worlds and graphs ****************************)
VertSet(polys) == UNION {PtsOf(polys[i]) : i \in 1..Len(polys)}
RECURSIVE Concat(_, _)
Concat(polys, i) == IF i > Len(polys) THEN <<>> ELSE polys[i] \o Concat(polys, i + 1)

MkWorld(e) ==
    LET cp == TLCEval(IF e.W = 0 THEN [i \in 1..Len(e.polys) |-> Boxed(e.polys[i])] ELSE Copies(e.polys, e.W))
        vs == TLCEval(Concat(e.polys, 1))
    IN [W |-> e.W, lo |-> e.lo, wide |-> e.wide, polys |-> e.polys, cp |-> cp, vs |-> vs,
        dv |-> TLCEval([i \in 1..Len(vs) |-> TLCEval([j \in 1..Len(vs) |->
                IF i < j THEN DirectV(vs[i], vs[j], cp) ELSE "-"])]),
        av |-> TLCEval([i \in 1..Len(vs) |-> TLCEval([j \in 1..Len(vs) |->
                IF i < j /\ e.W > 0 THEN AcrossV(vs[i], vs[j], cp, e.W) ELSE "x"])])]
Ordinary(e) ==
    /\ \A i \in 1..Len(e.polys) : WellFormed(e.polys[i])
    /\ \A i, j \in 1..Len(e.polys) : i < j => Disjoint(e.polys[i], e.polys[j])
DV(i, j) == IF i < j THEN w.dv[i][j] ELSE w.dv[j][i]
AV(i, j) == IF i < j THEN w.av[i][j] ELSE w.av[j][i]

\* The matrix a graph event carries, by vertex of the world
Lab(e, a, b) == LET i == CHOOSE k \in 1..Len(e.verts) : e.verts[k] = a
                    j == CHOOSE k \in 1..Len(e.verts) : e.verts[k] = b
                IN e.m[i][j]
LabelComplaints(e) ==
    LET n == Len(w.vs)
        pos == TLCEval([i \in 1..n |-> CHOOSE k \in 1..Len(e.verts) : e.verts[k] = w.vs[i]])
        pair(i, j) ==
            LET x == e.m[pos[i]][pos[j]]
                dv == DV(i, j)
                \* a world without copies says nothing about sights around the earth
                av == IF w.W = 0 /\ x = 2 THEN "g" ELSE AV(i, j)
            IN (IF (x = 1 /\ dv = "x") \/ (x = 2 /\ av = "x" /\ dv = "x") THEN {"cuts land"} ELSE {})
               \cup (IF x = 0 /\ x \notin LabelsFor(dv, av) THEN {"not joined"} ELSE {})
               \cup (IF x # 0 /\ x \notin LabelsFor(dv, av) /\ (dv # "x" \/ av # "x") THEN {"wrong flag"} ELSE {})
               \cup (IF x \notin 0..2 \/ x # e.m[pos[j]][pos[i]] THEN {"asymmetric"} ELSE {})
    IN UNION {pair(i, j) : <<i, j>> \in {p \in (1..n) \X (1..n) : p[1] < p[2]}}
GenComplaints(e) ==
    IF e.off = 1 \/ {e.verts[k] : k \in 1..Len(e.verts)} # VertSet(w.polys) \/ Len(e.verts) # Len(w.vs)
    THEN {"vertices"} ELSE LabelComplaints(e)

(************************ vertices visible from a point *********************)
OnSomeBoundary(p) == \E i \in 1..Len(w.cp) : OnBoundary(p, w.cp[i].v)
OnLand(p) == \E i \in 1..Len(w.cp) : ~Apart(p, p, w.cp[i].box) /\ Inside(p, w.cp[i].v)
Seen(e, v, f) == \E k \in 1..Len(e.vis) : e.vis[k] = <<v[1], v[2], f>>
VisibleComplaints(e) ==
    IF e.off = 1 THEN {"vertices"}
    ELSE IF e.o \notin VertSet(w.polys) /\ (OnSomeBoundary(e.o) \/ OnLand(e.o)) THEN {}
    ELSE LET ups(v) == e.half = 0 \/ v[2] >= e.o[2]
             one(v) ==
               LET dv == DirectV(e.o, v, w.cp)
                   av == IF w.W = 0 THEN "x" ELSE AcrossV(e.o, v, w.cp, w.W)
               IN (IF Seen(e, v, 0) /\ (dv = "x" \/ ~ups(v)) THEN {"sees through land"} ELSE {})
                  \cup (IF Seen(e, v, 1) /\ (av = "x" \/ ~ups(v)) THEN {"sees through land across"} ELSE {})
                  \cup (IF ~Seen(e, v, 0) /\ dv = "c" /\ ups(v) THEN {"does not see"} ELSE {})
                  \cup (IF ~Seen(e, v, 1) /\ av = "c" /\ ups(v) THEN {"does not see across"} ELSE {})
         IN UNION {one(v) : v \in VertSet(w.polys) \ {e.o}}
            \cup (IF \E k \in 1..Len(e.vis) : <<e.vis[k][1], e.vis[k][2]>> \notin VertSet(w.polys)
                  THEN {"vertices"} ELSE {})

(********************************** routes **********************************)
NV == Len(w.vs)
NeedOf(ww) ==
    TLCEval([i \in 1..Len(ww.vs) |-> TLCEval([j \in 1..Len(ww.vs) |->
        IF i = j THEN 0
        ELSE LET x == Min2(i, j)
                 y == Max2(i, j)
             IN MustCost(ww.dv[x][y], ww.av[x][y], ww.vs[i], ww.vs[j], ww.W)])])
Idx(p) == IF p \in VertSet(w.polys) THEN CHOOSE i \in 1..NV : w.vs[i] = p ELSE 0
VDirect(a, b) == LET i == Idx(a)
                     j == Idx(b)
                 IN IF i > 0 /\ j > 0 /\ i # j THEN DV(i, j) ELSE DirectV(a, b, w.cp)
VAcross(a, b) == LET i == Idx(a)
                     j == Idx(b)
                 IN IF w.W = 0 THEN "x" ELSE IF i > 0 /\ j > 0 /\ i # j THEN AV(i, j) ELSE AcrossV(a, b, w.cp, w.W)
Must(a, b) == MustCost(VDirect(a, b), VAcross(a, b), a, b, w.W)
Near(a, b) == IF w.W = 0 THEN DirectLo(a, b) ELSE NearLo(a, b, w.W)
NearUp(a, b) == IF w.W = 0 THEN DirectHi(a, b) ELSE NearHi(a, b, w.W)
\* mx: search radius in 1/1000 units, -1 when unlimited
WithinSurely(s, p, mx) == mx < 0 \/ NearUp(s, p) <= mx
WithinMaybe(s, p, mx) == mx < 0 \/ Near(s, p) <= mx + 2

\* Length of the shortest route the network surely offers (INF: perhaps none)
Offered(s, d, mx) ==
    LET n == NV + 2
        in == TLCEval([i \in 1..n |-> IF i = NV + 1 THEN TRUE
                               ELSE IF i = NV + 2 THEN WithinSurely(s, d, mx)
                               ELSE WithinSurely(s, w.vs[i], mx)])
        srow == TLCEval([i \in 1..NV |-> IF w.vs[i] = s THEN 0 ELSE Must(s, w.vs[i])])
        drow == TLCEval([i \in 1..NV |-> IF w.vs[i] = d THEN 0 ELSE Must(w.vs[i], d)])
        cost == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
                    IF i = j THEN 0
                    ELSE IF ~in[i] \/ ~in[j] THEN INF
                    ELSE IF i <= NV /\ j <= NV THEN need[i][j]
                    ELSE IF i = NV + 1 /\ j <= NV THEN srow[j]
                    ELSE IF j = NV + 1 /\ i <= NV THEN srow[i]
                    ELSE IF i = NV + 2 /\ j <= NV THEN drow[j]
                    ELSE IF j = NV + 2 /\ i <= NV THEN drow[i]
                    ELSE INF])])
    IN ShortestFrom(NV + 1, cost, n)[NV + 2]

(*************************** points moved off land ***************************)
\* Only for worlds in microdegrees near the origin (W = 0), where distances on
\* the map and on the sphere agree.
Near1(c) == {<<c[1] + i, c[2] + j>> : i \in -1..1, j \in -1..1}
LandOf(p) == {i \in 1..Len(w.cp) : Inside(p, w.cp[i].v)}
Sides == {<<i, k>> \in (1..Len(w.polys)) \X (1..60) : k <= Len(w.polys[i])}
SideA(e) == w.polys[e[1]][e[2]]
SideB(e) == Nxt(w.polys[e[1]], e[2])
\* Some point of the side is nearer to p than r
SideNearer(p, e, r) ==
    LET a == SideA(e)
        b == SideB(e)
    IN \/ ISqrt(Dist2(p, a)) + 1 < r \/ ISqrt(Dist2(p, b)) + 1 < r
       \/ /\ Dot(a, b, p) > 0 /\ Dot(b, a, p) > 0
          /\ Abs(Cross(a, b, p)) < (r - 1) * ISqrt(Dist2(a, b))
OnShore(c) == \E e \in Sides : SideNearer(c, e, 4)
\* c is where p on land may be moved to: on the shore, and no shore is nearer
Moved(p, c) == /\ OnShore(c)
               /\ LET r == ISqrt(Dist2(p, c)) IN \A e \in Sides : ~SideNearer(p, e, r - 3)
LegFree(a, b, moveda, movedb) ==
    \E x \in (IF moveda THEN Near1(a) ELSE {a}), y \in (IF movedb THEN Near1(b) ELSE {b}) :
        DirectV(x, y, w.cp) # "x"
CorrectedComplaints(s, d, r) ==
    LET sl == OnLand(s)
        dl == OnLand(d)
        p == r.path
        n == Len(p)
    IN
    IF r.ok = FALSE THEN
        LET from == IF sl THEN UNION {PtsOf(w.cp[i].v) : i \in LandOf(s)} ELSE {}
            to == IF dl THEN UNION {PtsOf(w.cp[i].v) : i \in LandOf(d)} ELSE {}
            m == Len(w.vs) + 2
            cost == TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |->
                    IF i = j THEN 0
                    ELSE IF i <= m - 2 /\ j <= m - 2 THEN need[i][j]
                    ELSE IF i = m - 1 /\ j <= m - 2 THEN
                        (IF sl THEN (IF w.vs[j] \in from THEN 1 ELSE INF) ELSE IF w.vs[j] = s THEN 0 ELSE Must(s, w.vs[j]))
                    ELSE IF j = m /\ i <= m - 2 THEN
                        (IF dl THEN (IF w.vs[i] \in to THEN 1 ELSE INF) ELSE IF w.vs[i] = d THEN 0 ELSE Must(w.vs[i], d))
                    ELSE INF])])
        IN IF ShortestFrom(m - 1, cost, m)[m] < INF THEN {"correction: no route"} ELSE {}
    ELSE IF n = 0 THEN {"correction: ends"}
    ELSE (IF (IF sl THEN ~Moved(s, p[1]) ELSE p[1] # s) \/ (IF dl THEN ~Moved(d, p[n]) ELSE p[n] # d)
          THEN {"correction: ends"} ELSE {})
         \cup (IF \E i \in 2..(n - 1) : p[i] \notin VertSet(w.polys) THEN {"correction: strange point"} ELSE {})
         \cup (IF \E i \in 1..(n - 1) : ~LegFree(p[i], p[i+1], sl /\ i = 1, dl /\ i + 1 = n)
               THEN {"correction: cuts land"} ELSE {})

Judged(p) == p \in VertSet(w.polys) \/ ~OnSomeBoundary(p)
RouteComplaints(s0, d0, r, mx, wn, wd, corr) ==
    LET s == IF w.W = 0 THEN s0 ELSE Norm(s0, w.lo, w.W)
        d == IF w.W = 0 THEN d0 ELSE Norm(d0, w.lo, w.W)
        p == r.path
        straight == ShortWay(s, d, w.cp, w.W)
        isStraight == Len(p) = 2 /\ p[1] = s /\ p[2] = d
    IN
    IF ~Judged(s) \/ ~Judged(d) THEN {}
    ELSE IF corr = 1 /\ (OnLand(s) \/ OnLand(d)) THEN CorrectedComplaints(s, d, r)
    ELSE IF OnLand(s) \/ OnLand(d) THEN (IF r.ok THEN {"answers on land"} ELSE {})
    ELSE IF r.ok = FALSE THEN
        (IF s = d \/ (w.wide = 0 /\ straight = "c" /\ WithinSurely(s, d, mx)) \/ Offered(s, d, mx) < INF THEN {"no route"} ELSE {})
    ELSE IF r.off = 1 \/ Len(p) = 0 THEN {"ends"}
    ELSE IF p[1] # s \/ p[Len(p)] # d THEN {"ends"}
    ELSE IF s = d THEN (IF \E i \in 1..Len(p) : p[i] # s THEN {"detour"} ELSE {})
    ELSE IF isStraight /\ w.wide = 1 THEN {}
    ELSE IF isStraight /\ straight # "x" THEN {}
    ELSE
        LET legs == TLCEval([i \in 1..(Len(p) - 1) |->
                        LegCost(VDirect(p[i], p[i+1]), VAcross(p[i], p[i+1]), p[i], p[i+1], w.W)])
            len == SumFrom(legs, 1)
            best == Offered(s, d, mx)
        IN  (IF \E i \in 1..Len(legs) : legs[i] >= INF THEN {"cuts land"} ELSE {})
            \cup (IF \E i \in 2..(Len(p) - 1) : p[i] \notin VertSet(w.polys) THEN {"strange point"} ELSE {})
            \cup (IF \E i \in 2..Len(p) : ~WithinMaybe(s, p[i], mx) THEN {"outside radius"} ELSE {})
            \cup (IF isStraight \/ w.wide = 1 \/ straight # "c" THEN {}
                  ELSE IF 2 * Abs(s[1] - d[1]) >= w.W /\ w.W > 0 /\ DirectV(s, d, w.cp) # "x"
                          /\ {s, d} \cap VertSet(w.polys) # {}
                       THEN {"detour around a longer direct line"}
                       ELSE {"detour"})
            \cup (IF /\ len < INF /\ best < 200000000
                     /\ len > (IF wn <= wd THEN best ELSE (best * wn) \div wd + 1) + 2 * Len(p)
                  THEN {"too long"} ELSE {})

\* The question asked, however its longitudes are written
Question(s, d, e) == <<IF w.W = 0 THEN s ELSE Norm(s, w.lo, w.W), IF w.W = 0 THEN d ELSE Norm(d, w.lo, w.W),
                       e.mx, e.wn, e.wd, e.corr>>
\* Two answers to the same question: both fail, or both succeed at equal length
AnswerLen(r) ==
    IF ~r.ok THEN -1 ELSE IF Len(r.path) <= 2 THEN 0
    ELSE SumFrom([i \in 1..(Len(r.path) - 1) |->
            LegCost(VDirect(r.path[i], r.path[i+1]), VAcross(r.path[i], r.path[i+1]), r.path[i], r.path[i+1], w.W)], 1)
SameAnswer(r1, r2) ==
    \/ r1.ok = r2.ok /\ r1.path = r2.path
    \/ r1.ok /\ r2.ok /\ r1.off = 0 /\ r2.off = 0
       /\ Len(r1.path) > 2 /\ Len(r2.path) > 2
       /\ Abs(AnswerLen(r1) - AnswerLen(r2)) <= 4 * (Len(r1.path) + Len(r2.path))

PathComplaints(e) ==
    RouteComplaints(e.s, e.d, e.r, e.mx, e.wn, e.wd, e.corr)
    \cup (IF \E k \in 1..Len(last) : last[k].q = Question(e.s, e.d, e)
                                     /\ ~SameAnswer(last[k].r, e.r)
          THEN {"changed answer"} ELSE {})
BatchComplaints(e) ==
    IF Len(e.rs) # Len(e.qs) THEN {"batch size"}
    ELSE UNION {
        (IF e.rs[k].ok = e.rs[k].haserr THEN {"batch error flag"} ELSE {})
        \cup {"batch: " \o c : c \in RouteComplaints(e.qs[k][1], e.qs[k][2], e.rs[k], e.mx, e.wn, e.wd, e.corr)}
        \cup (IF \E x \in 1..Len(last) : last[x].q = Question(e.qs[k][1], e.qs[k][2], e)
                                     /\ ~SameAnswer(last[x].r, e.rs[k])
              THEN {"batch differs"} ELSE {})
        : k \in 1..Len(e.qs)}

(***************************** the observed graph ****************************)
\* The same vertices with the same labels, whatever the order they are listed in
SameGraph(x, y) ==
    /\ Len(x.verts) = Len(y.verts)
    /\ {x.verts[i] : i \in 1..Len(x.verts)} = {y.verts[i] : i \in 1..Len(y.verts)}
    /\ LET pos == TLCEval([i \in 1..Len(x.verts) |-> CHOOSE k \in 1..Len(y.verts) : y.verts[k] = x.verts[i]])
       IN \A i, j \in 1..Len(x.verts) : x.m[i][j] = y.m[pos[i]][pos[j]]
StateComplaints(e) ==
    IF g = None THEN {} ELSE IF e.off = 1 \/ ~SameGraph(g, e) THEN {"graph changed"} ELSE {}

(***************************** longitudes *****************************)
\* In microdegrees: a turn is 360000001, the ordinary range -180000000..180000000
NormComplaints(e) ==
    (IF e.c # Norm(e.p, -180000000, 360000001) THEN {"normalised wrong"} ELSE {})
    \cup (IF (e.over = 1) # (Abs(e.p[1]) > 180000000) THEN {"over the meridian wrong"} ELSE {})
    \cup (IF {e.per[i] : i \in 1..Len(e.per)} # {e.p, Shift(e.p, 360000001), Shift(e.p, -360000001)}
          THEN {"copies wrong"} ELSE {})

(******************************** behaviours ********************************)
Complaints(e) ==
    IF e.e = "world" THEN (IF Ordinary(e) THEN {} ELSE {"bad world"})
    ELSE IF e.e = "gen" THEN GenComplaints(e)
    ELSE IF e.e = "visible" THEN VisibleComplaints(e)
    ELSE IF e.e = "path" THEN PathComplaints(e)
    ELSE IF e.e = "batch" THEN BatchComplaints(e)
    ELSE IF e.e = "norm" THEN NormComplaints(e)
    ELSE IF e.e = "state" THEN StateComplaints(e)
    ELSE {"unknown event"}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ w = None /\ g = None /\ need = <<>> /\ last = <<>> /\ why = {}
World(e) == /\ e.e = "world"
            /\ w' = MkWorld(e)
            /\ need' = IF e.routes = 1 THEN NeedOf(w') ELSE <<>>
            /\ g' = None /\ last' = <<>>
Graph(e) == /\ e.e \in {"gen", "state"}
            /\ g' = [verts |-> e.verts, m |-> e.m]
            /\ UNCHANGED <<w, need, last>>
Query(e) == /\ e.e \in {"visible", "batch", "norm"}
            /\ UNCHANGED <<w, g, need, last>>
Path(e) ==  /\ e.e = "path"
            /\ last' = Append(last, [q |-> Question(e.s, e.d, e), r |-> e.r])
            /\ UNCHANGED <<w, g, need>>
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ World(Ev) \/ Graph(Ev) \/ Query(Ev) \/ Path(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

Sound == why \cap {"bad world", "unknown event"} = {}
Accepted == why \cap Focus = {}
=============================================================================
