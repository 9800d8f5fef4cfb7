----------------------------- MODULE FacadeTrace -----------------------------
(* The Python interface: folders of graphs made from shapefiles, merged and  *)
(* asked for paths.  The state: what each folder holds, what the core makes  *)
(* of each shapefile, what the core answers to each question, and the shards *)
(* generated so far.                                                         *)
EXTENDS Store, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, core, fs, shards, answers, why
vars == <<tid, l, core, fs, shards, answers, why>>
Ev == Traces[tid][l]

Triples(es) == {<<es[i][1], es[i][2], es[i][3]>> : i \in 1..Len(es)}
Graph(o) == [kind |-> "plain", polys |-> o.polys, verts |-> o.verts, E |-> Triples(o.edges)]
Threw(e) == e.thrown # ""
Exists(p) == p \in DOMAIN fs
SamePolys(g, h) == Range(g.polys) = Range(h.polys)
Whole(g, h) == Same(g, h) /\ Len(g.verts) = Len(h.verts) /\ SamePolys(g, h)

\* A call that writes to folder out must make it, or fail and leave it alone
Writes(e, expected) ==
    IF e.before # "" THEN
        (IF ~Threw(e) THEN {"overwrote"} ELSE {})
        \cup (IF e.after # e.before THEN {"overwrote"} ELSE {})
    ELSE IF Threw(e) THEN {"failed"}
    ELSE IF e.made.thrown # "" THEN {"no graph"}
    ELSE expected
GenerateComplaints(e) ==
    Writes(e, IF e.made.thrown = "" /\ ~Whole(Graph(e.made), core[e.shp]) THEN {"wrong graph"} ELSE {})
\* The shards of one shapefile, seed and number of splits: what is known of them
Key(e) == <<e.shp, e.seed, e.n>>
Mine(e) == SelectSeq(shards, LAMBDA s : s.key = Key(e))
RECURSIVE MergeAll(_, _)
Complete(ss, n) == \A k \in 0..(n - 1) : \E i \in 1..Len(ss) : ss[i].k = k
MergeAll(ss, i) == IF i > Len(ss) THEN {} ELSE EdgesOf(ss[i].g) \cup MergeAll(ss, i + 1)
RangeComplaints(e) ==
    LET g == Graph(e.made)
        ss == Append(Mine(e), [key |-> Key(e), k |-> e.k, g |-> g, r |-> e.ranges])
        lo(i) == ss[i].r[1][1]
        hi(i) == ss[i].r[1][2]
        nv == Len(core[e.shp].verts)
    IN Writes(e,
        (IF ~SamePolys(g, core[e.shp]) \/ Verts(g) # Verts(core[e.shp]) THEN {"wrong graph"} ELSE {})
        \cup (IF ~(EdgesOf(g) \subseteq EdgesOf(core[e.shp])) THEN
                 \* a shard may know a pair only across the meridian
                 (IF {<<x[1], x[2]>> : x \in g.E} \subseteq {<<x[1], x[2]>> : x \in core[e.shp].E} THEN {} ELSE {"wrong graph"})
              ELSE {})
        \cup (IF Complete(ss, e.n) /\ ~Same([g EXCEPT !.E = MergeAll(ss, 1)], core[e.shp]) THEN {"shards miss edges"} ELSE {})
        \cup (IF \A i \in 1..Len(ss) : Len(ss[i].r) = 1 THEN
                 (IF e.ranges[1][3] # e.seed THEN {"wrong seed"} ELSE {})
                 \cup (IF \E i, j \in 1..Len(ss) : ss[i].k < ss[j].k /\ lo(i) < hi(i) /\ lo(j) < hi(j)
                                               /\ lo(i) < hi(j) /\ lo(j) < hi(i) THEN {"shards overlap"} ELSE {})
                 \cup (IF \E i \in 1..Len(ss) : lo(i) < 0 \/ hi(i) > nv THEN {"shards leave the range"} ELSE {})
                 \cup (IF Complete(ss, e.n) /\ \E v \in 0..(nv - 1) : \A i \in 1..Len(ss) : ~(lo(i) <= v /\ v < hi(i))
                       THEN {"shards miss a vertex"} ELSE {})
              ELSE {}))
MergeComplaints(e) ==
    LET gs == [i \in 1..Len(e.ins) |-> fs[e.ins[i]]]
    IN Writes(e, IF e.made.thrown = "" /\ ~Whole(Graph(e.made), Merge(gs)) THEN {"wrong graph"} ELSE {})

\* Paths: the facade's answer is the core's answer to the same question
CoreAnswer(q) == LET i == CHOOSE k \in 1..Len(answers) : answers[k].q = q IN answers[i].r
AskComplaints(e) ==
    LET r == CoreAnswer(e.q)
    IN IF r.ok THEN (IF Threw(e) THEN {"failed"} ELSE IF e.path # r.path THEN {"wrong path"} ELSE {})
       ELSE (IF Threw(e) THEN {} ELSE {"answered a failing query"})
BatchComplaints(e) ==
    IF Threw(e) THEN {"failed"}
    ELSE IF Len(e.paths) # Len(e.qs) THEN {"batch size"}
    ELSE (IF \E i \in 1..Len(e.qs) : LET r == CoreAnswer(e.qs[i]) IN
                IF r.ok THEN e.none[i] = 1 \/ e.paths[i] # r.path ELSE e.none[i] = 0
          THEN {"wrong path"} ELSE {})
         \cup (IF e.warnings # Cardinality({i \in 1..Len(e.qs) : ~CoreAnswer(e.qs[i]).ok}) THEN {"warnings"} ELSE {})

Complaints(e) ==
    IF e.e \in {"core", "answer"} THEN {}
    ELSE IF e.e = "generate" THEN GenerateComplaints(e)
    ELSE IF e.e = "range" THEN RangeComplaints(e)
    ELSE IF e.e = "merge" THEN MergeComplaints(e)
    ELSE IF e.e = "still" THEN (IF e.made.thrown # "" \/ ~Whole(Graph(e.made), fs[e.out]) THEN {"changed"} ELSE {})
    ELSE IF e.e = "open" THEN (IF Threw(e) THEN {"failed"} ELSE {})
    ELSE IF e.e = "ask" THEN AskComplaints(e)
    ELSE IF e.e = "batch" THEN BatchComplaints(e)
    ELSE {"unknown event"}
Set(f, k, v) == (k :> v) @@ f
Wrote(e) == e.before = "" /\ ~Threw(e) /\ e.made.thrown = ""
Init == tid \in 1..Len(Traces) /\ l = 1 /\ core = <<>> /\ fs = <<>> /\ shards = <<>> /\ answers = <<>> /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ core' = IF Ev.e = "core" THEN Set(core, Ev.shp, Graph(Ev)) ELSE core
        /\ fs' = IF Ev.e \in {"generate", "range", "merge"} /\ Wrote(Ev) THEN Set(fs, Ev.out, Graph(Ev.made)) ELSE fs
        /\ shards' = IF Ev.e = "range" /\ Wrote(Ev)
                     THEN Append(shards, [key |-> Key(Ev), k |-> Ev.k, g |-> Graph(Ev.made), r |-> Ev.ranges]) ELSE shards
        /\ answers' = IF Ev.e = "answer" THEN Append(answers, [q |-> Ev.q, r |-> Ev.r]) ELSE answers
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
