----------------------------- MODULE MergeModel -----------------------------
(* Merging and comparing, on all small graphs: merging is commutative,       *)
(* associative and idempotent, and two graphs are the same exactly if each    *)
(* edge has the same label.  Every pair is printed with its merge and with    *)
(* whether the two are the same, to be replayed on the real code.             *)
EXTENDS Store, Json
CONSTANTS Variant,  \* "ok", or a mistake: "last" (the flag of the graph merged last wins), "first" (only edges that are
                    \* new to the merged graph are taken)
          Tell, Large
A == <<1, 2, 3>>
B == <<4, 5, 6>>
VARIABLES x, y, done
vars == <<x, y, done>>
Sym(es) == es \cup {<<e[2], e[1], e[3]>> : e \in es}
\* All symmetric graphs on A; a few on A and B, on B alone, and one-way ones
LabelsOf(ps) == [ps -> 0..2]
FromLabels(f) == {<<p[1], p[2], f[p]>> : p \in {q \in DOMAIN f : f[q] # 0}}
G(polys, es) == [kind |-> "plain", polys |-> polys, verts |-> Flat(polys, 1), E |-> es]
OnA == {G(<<A>>, Sym(FromLabels(f))) : f \in LabelsOf({<<1, 2>>, <<2, 3>>, <<3, 1>>})}
OnAB == {G(ps, Sym(FromLabels(f))) : ps \in {<<A, B>>, <<B, A>>}, f \in LabelsOf({<<1, 4>>, <<6, 5>>} \cup (IF Large THEN {<<1, 2>>} ELSE {}))}
OnB == {G(<<B>>, Sym(FromLabels(f))) : f \in LabelsOf({<<4, 5>>})}
OneWay == {G(<<A>>, FromLabels(f)) : f \in LabelsOf({<<1, 2>>, <<3, 2>>})}
Graphs == OnA \cup OnAB \cup OnB \cup OneWay \cup {G(<<>>, {})}

MergedBy(gs) ==
    IF Variant = "ok" THEN Merge(gs)
    ELSE LET m == Merge(gs)
             lab(i, a, b) == Label([gs[i] EXCEPT !.E = Sym(@)], a, b)
             k == Len(gs)
             pick(a, b) == IF Variant = "last" THEN IF lab(k, a, b) # 0 THEN lab(k, a, b) ELSE lab(1, a, b)
                           ELSE IF lab(1, a, b) # 0 THEN lab(1, a, b) ELSE lab(k, a, b)
         IN [m EXCEPT !.E = {<<e[1], e[2], pick(e[1], e[2])>> : e \in @}]
Emit == Tell => PrintT("@" \o ToJson([a |-> [polys |-> x.polys, edges |-> x.E], b |-> [polys |-> y.polys, edges |-> y.E],
                                      verts |-> MergedBy(<<x, y>>).verts, edges |-> EdgesOf(MergedBy(<<x, y>>)),
                                      same |-> Same(x, y)]))
Init == x \in Graphs /\ y \in Graphs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ Emit /\ UNCHANGED <<x, y>>
Symmetric(g) == EdgesOf(g) = Sym(EdgesOf(g))
Laws == /\ Same(MergedBy(<<x, y>>), MergedBy(<<y, x>>))
        /\ Same(MergedBy(<<MergedBy(<<x, y>>), y>>), MergedBy(<<x, y>>))
        /\ Symmetric(x) => Same(MergedBy(<<x, x>>), x)
        /\ Same(MergedBy(<<x, MergedBy(<<y, x>>)>>), MergedBy(<<MergedBy(<<x, y>>), x>>))
Refines == Laws
=============================================================================
