------------------------------ MODULE FileModel ------------------------------
(* A file to which graphs are saved one after the other: it is cut or         *)
(* extended to the size of the new graph (plus some slack) and written over   *)
(* in place, so that what it held before is still there wherever nothing is   *)
(* written.  Loading must give the graph saved last.                          *)
EXTENDS FileFormat, Json
CONSTANTS Sizes,    \* numbers of vertices of the polygons of each graph: a set of sequences
          MaxEdges, \* how many edges a graph may have
          Variant,  \* "ok", or a mistake: "sparse" (zero bytes are not written), "count" (edges across are counted twice)
          Tell
SizesSmall == {<<>>, <<3>>, <<3, 3>>, <<9>>}
SizesLarge == {<<>>, <<3>>, <<4>>, <<3, 3>>, <<9>>, <<4, 4, 9>>}
SizesOne == {<<3>>}
SizesTwo == {<<3>>, <<4>>}
VARIABLES file, saved, last
vars == <<file, saved, last>>
Polys(s) == [i \in 1..Len(s) |-> [k \in 1..s[i] |-> <<20000 * k - 70000, 1000 * k * k - 1000000 * i>>]]
AllEdges(n) == {<<i, j, x>> : i \in 0..(n - 1), j \in 0..(n - 1), x \in {1, 2}}
EdgeSets(n) == LET E == {e \in AllEdges(n) : e[2] < e[1]}
               IN {{}} \cup (IF MaxEdges > 0 THEN {{e} : e \in E} ELSE {})
                  \cup (IF MaxEdges > 1 THEN {{e, f} : e, f \in E} ELSE {})
Graphs == UNION {{[polys |-> Polys(s), edges |-> es] : es \in {q \in EdgeSets(NVerts(Polys(s))) :
              \A e, f \in q : (e[1] = f[1] /\ e[2] = f[2]) => e = f}} : s \in Sizes}
Enc == TLCEval([g \in Graphs |-> TLCEval(Encode(g))])
\* The size that is reserved: for every eight vertices a byte too many
Slack(n) == (n \div 8)
Written(g) ==
    LET b == Enc[g]
    IN IF Variant = "count" THEN
           LET m == Cardinality({e \in g.edges : e[3] = 2})
               at == Len(b) - 8 * (m + 1) + 1
           IN [k \in 1..Len(b) |-> IF k = at THEN 2 * m ELSE b[k]]
       ELSE b
Garbage(n) == [k \in 1..n |-> 255]
Extra(g) == IF Variant = "count" THEN 8 * Cardinality({e \in g.edges : e[3] = 2}) ELSE 0
Save(g) ==
    LET b == TLCEval(Written(g))
        size == Len(b) + Slack(NVerts(g.polys)) + Extra(g)
        old(k) == IF k <= Len(file) THEN file[k] ELSE 0
    IN file' = TLCEval([k \in 1..size |-> IF k > Len(b) \/ (Variant = "sparse" /\ b[k] = 0) THEN old(k) ELSE b[k]])
Init == /\ file \in {<<>>, Garbage(5), Garbage(400)}
        /\ saved = 0
        /\ last = [polys |-> <<>>, edges |-> {}]
Emit(g) == Tell => PrintT("@" \o ToJson([polys |-> g.polys, edges |-> g.edges, bytes |-> Enc[g]]))
Next == /\ saved < 2
        /\ \E g \in Graphs : Save(g) /\ last' = g /\ (saved = 0 /\ file = <<>> => Emit(g))
        /\ saved' = saved + 1
View == vars
Refines == saved > 0 => Decode(file) = last
=============================================================================
