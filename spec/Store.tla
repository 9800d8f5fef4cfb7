------------------------------- MODULE Store -------------------------------
(* The graph store: what a graph is and what its operations do.             *)
(* A graph has a sequence of vertices and a set of facts <<a, b, x>>: since *)
(* the last removal of a -> b an edge a -> b was added with flag x          *)
(* (x = 1: plain, x = 2: flagged as crossing the meridian).  An edge counts *)
(* as crossing only if no addition was plain.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Range(s) == {s[i] : i \in 1..Len(s)}

\* kind: "plain" graphs know their vertices; "overlay" graphs accept new ones
NewGraph(polys) == [kind |-> "plain", polys |-> polys, verts |-> Flat(polys, 1), E |-> {}]
Verts(g) == Range(g.verts)
Known(g, a) == a \in Verts(g)
Label(g, a, b) == IF <<a, b, 1>> \in g.E THEN 1 ELSE IF <<a, b, 2>> \in g.E THEN 2 ELSE 0
EdgesOf(g) == {<<f[1], f[2], Label(g, f[1], f[2])>> : f \in g.E}
Out(g, a) == {f[2] : f \in {h \in g.E : h[1] = a}}

AddVertex(g, a) == IF Known(g, a) THEN g ELSE [g EXCEPT !.verts = Append(@, a)]
Accept(g, a, b) == IF g.kind = "overlay" THEN AddVertex(AddVertex(g, a), b) ELSE g
AddDir(g, a, b, x) == IF a = b THEN g ELSE [Accept(g, a, b) EXCEPT !.E = @ \cup {<<a, b, x>>}]
AddBoth(g, a, b, x) == AddDir(AddDir(g, a, b, x), b, a, x)
RemDir(g, a, b) == [g EXCEPT !.E = @ \ {<<a, b, 1>>, <<a, b, 2>>}]
RemBoth(g, a, b) == RemDir(RemDir(g, a, b), b, a)
\* An operation on a plain graph that names an unknown vertex fails and changes nothing
Fails(g, a, b) == g.kind = "plain" /\ a # b /\ ~(Known(g, a) /\ Known(g, b))

Overlay(g) == [g EXCEPT !.kind = "overlay"]
Same(g, h) == Verts(g) = Verts(h) /\ EdgesOf(g) = EdgesOf(h)

\* Merging: polygons and edges of all of them, a plain edge wins
RECURSIVE MergeFrom(_, _)
MergeFrom(gs, i) ==
    IF i > Len(gs) THEN [kind |-> "plain", polys |-> <<>>, verts |-> <<>>, E |-> {}]
    ELSE LET m == MergeFrom(gs, i + 1)
             g == gs[i]
             more == SelectSeq(g.polys, LAMBDA p : p \notin Range(m.polys))
         IN [kind |-> "plain", polys |-> more \o m.polys, verts |-> Flat(more, 1) \o m.verts,
             E |-> m.E \cup EdgesOf(g) \cup {<<f[2], f[1], f[3]>> : f \in EdgesOf(g)}]
Merge(gs) == MergeFrom(gs, 1)
=============================================================================
