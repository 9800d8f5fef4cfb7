----------------------------- MODULE StoreTrace -----------------------------
(* Executions of the graph store (graphs, overlays, files, merging) against *)
(* Store.  Vertices are small numbers; 0 stands for a coordinate that no    *)
(* graph of the scenario should know of.                                    *)
EXTENDS Store, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, gs, files, texts, why
vars == <<tid, l, gs, files, texts, why>>
Ev == Traces[tid][l]
G == gs[Ev.id]

Triples(es) == {<<es[i][1], es[i][2], es[i][3]>> : i \in 1..Len(es)}
SetOfPolys(ps) == {ps[i] : i \in 1..Len(ps)}

\* What a full observation of a graph (vertices, edges with labels, neighbours, polygons) must show
Observed(g, e) ==
    (IF Range(e.verts) # Verts(g) \/ Len(e.verts) # Len(g.verts) \/ e.all # Len(g.verts) THEN {"vertices"} ELSE {})
    \cup (IF g.kind = "plain" /\ e.ordered = 1 /\ e.verts # g.verts THEN {"vertex order"} ELSE {})
    \cup (IF Triples(e.edges) # EdgesOf(g) THEN {"edges"} ELSE {})
    \cup (IF \E i \in 1..Len(e.nb) : \/ Range(e.nb[i]) # Out(g, e.verts[i])
                                     \/ Len(e.nb[i]) # Cardinality(Out(g, e.verts[i]))
          THEN {"neighbours"} ELSE {})
    \cup (IF e.ordered = 1 /\ e.polys # g.polys THEN {"polygons"} ELSE {})
    \cup (IF SetOfPolys(e.polys) # SetOfPolys(g.polys) \/ Len(e.polys) # Len(g.polys) THEN {"polygons"} ELSE {})

\* Taken as they are: graphs whose making is not the matter here
Taken(e) == [kind |-> "plain", polys |-> e.polys, verts |-> e.verts, E |-> Triples(e.edges)]

Threw(e) == e.thrown # ""
EdgeOp(e) == e.e \in {"add", "adddir", "rem", "remdir"}
Complaints(e) ==
    IF EdgeOp(e) THEN (IF Threw(e) # Fails(G, e.a, e.b) THEN {"error wrong"} ELSE {})
    ELSE IF e.e = "edge" THEN
        (IF Threw(e) # Fails(G, e.a, e.b) THEN {"error wrong"} ELSE {})
        \cup (IF ~Threw(e) /\ e.v # (IF e.a = e.b THEN 0 ELSE Label(G, e.a, e.b)) THEN {"edges"} ELSE {})
    ELSE IF e.e = "nbrs" THEN
        (IF Threw(e) # (G.kind = "plain" /\ ~Known(G, e.a)) THEN {"error wrong"} ELSE {})
        \cup (IF ~Threw(e) /\ (Range(e.nb) # Out(G, e.a) \/ Len(e.nb) # Cardinality(Out(G, e.a)))
              THEN {"neighbours"} ELSE {})
    ELSE IF e.e = "hasvert" THEN (IF (e.v = 1) # Known(G, e.a) \/ Threw(e) THEN {"vertices"} ELSE {})
    ELSE IF e.e = "state" THEN (IF Threw(e) THEN {"error wrong"} ELSE Observed(G, e))
    ELSE IF e.e = "again" THEN   \* the same graph, made again, in whatever order its vertices come
        (IF Range(e.verts) # Verts(G) \/ Len(e.verts) # Len(G.verts) THEN {"vertices"} ELSE {})
        \cup (IF Triples(e.edges) # EdgesOf(G) THEN {"edges"} ELSE {})
        \cup (IF SetOfPolys(e.polys) # SetOfPolys(G.polys) THEN {"polygons"} ELSE {})
    ELSE IF e.e = "eq" THEN
        LET s == Same(gs[e.id], gs[e.id2])
        IN IF Threw(e) \/ (e.eq = 1) # s \/ (e.ne = 1) = s THEN {"equality wrong"} ELSE {}
    ELSE IF e.e = "text" THEN
        IF Threw(e) \/ \E i \in 1..Len(texts) : (texts[i].t = e.t) # Same(texts[i].g, G)
        THEN {"text wrong"} ELSE {}
    ELSE IF e.e \in {"save", "load", "merge", "overlay", "addvert"} THEN (IF Threw(e) THEN {"error wrong"} ELSE {})
    ELSE IF e.e \in {"new", "take", "scribble"} THEN {}
    ELSE {"unknown event"}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ gs = <<>> /\ files = <<>> /\ texts = <<>> /\ why = {}
Set(f, k, v) == (k :> v) @@ f
NewGs(e) ==
    IF e.e = "new" THEN Set(gs, e.id, NewGraph(e.polys))
    ELSE IF e.e = "take" THEN Set(gs, e.id, Taken(e))
    ELSE IF e.e = "overlay" THEN Set(gs, e.id, Overlay(gs[e.base]))
    ELSE IF e.e = "merge" THEN Set(gs, e.id, Merge([i \in 1..Len(e.ids) |-> gs[e.ids[i]]]))
    ELSE IF e.e = "load" THEN Set(gs, e.id, files[e.file])
    ELSE IF e.e = "addvert" THEN Set(gs, e.id, AddVertex(G, e.a))
    ELSE IF EdgeOp(e) /\ ~Fails(G, e.a, e.b) THEN
        Set(gs, e.id, CASE e.e = "add" -> AddBoth(G, e.a, e.b, e.x)
                        [] e.e = "adddir" -> AddDir(G, e.a, e.b, e.x)
                        [] e.e = "rem" -> RemBoth(G, e.a, e.b)
                        [] e.e = "remdir" -> RemDir(G, e.a, e.b))
    ELSE gs
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ gs' = NewGs(Ev)
        /\ files' = IF Ev.e = "save" THEN Set(files, Ev.file, [G EXCEPT !.E = EdgesOf(G)]) ELSE files
        /\ texts' = IF Ev.e = "text" THEN Append(texts, [t |-> Ev.t, g |-> G]) ELSE texts
        /\ l' = l + 1
        /\ UNCHANGED tid
Next == Step \/ Done

Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
