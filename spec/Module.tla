------------------------------- MODULE Module --------------------------------
(* The graphs of the Python module: names for graphs that are shared, files,  *)
(* merges, and computers that keep the graph they were given.  A graph is a   *)
(* set of facts as in Store.  A name may be dropped at any time; what others   *)
(* hold lives on.  Land is a long wall with the corners 1, 2, 3, 4: there is a *)
(* route past it exactly if 1 or 4 is joined to 2 or 3.  Every transition      *)
(* prints the shortest history that takes it, with what there is to see then.  *)
EXTENDS Store, Json
CONSTANTS Pairs,    \* the edges that are added
          MaxOps, MaxHeap,
          Variant,  \* "ok", or a mistake: "alias" (a merge with nothing new is the first graph itself), "lazy" (a file is written
                    \* from what the graph is when it is read), "freed" (a computer has an empty graph after the name is dropped),
                    \* "flag" (additions forget the flag)
          Tell
Wall == <<1, 2, 3, 4>>
Far == <<5, 6, 7, 8>>    \* another one, on the other side of the earth
PairsTwo == {<<1, 2>>, <<1, 3>>}
PairsThree == PairsTwo \cup {<<3, 4>>}
Names == {"x", "y"}
None == 0
VARIABLES real,   \* heap: the graphs; name, file, comp: which one they stand for (a file: one of its own that nobody changes)
          ghost,  \* the same without mistakes
          h
vars == <<real, ghost, h>>
Empty == NewGraph(<<Wall, Far>>)
At(s, n) == s.heap[s.name[n]]
Has(s, n) == s.name[n] # None
Fresh(s, n, g) == [s EXCEPT !.heap = Append(@, g), !.name[n] = Len(s.heap) + 1]
Room(s) == Len(s.heap) < MaxHeap

\* What an operation does to a state; v: the mistake
May(o, s) == CASE o[1] = "new" -> Room(s)
               [] o[1] = "add" -> Has(s, o[2]) /\ s.comp # s.name[o[2]]
               [] o[1] = "alias" -> Has(s, o[3]) /\ s.name[o[2]] # s.name[o[3]]
               [] o[1] = "drop" -> Has(s, o[2])
               [] o[1] = "save" -> Has(s, o[2]) /\ Room(s)
               [] o[1] = "load" -> s.file # None /\ Room(s)
               [] o[1] = "merge" -> Has(s, o[3]) /\ Has(s, o[4]) /\ Room(s)
               [] o[1] = "comp" -> Has(s, o[2]) /\ s.comp # s.name[o[2]]
Does(o, s, v) ==
    CASE o[1] = "new" -> Fresh(s, o[2], Empty)
      [] o[1] = "add" -> [s EXCEPT !.heap[s.name[o[2]]] = AddBoth(@, o[3], o[4], IF v = "flag" THEN 1 ELSE o[5])]
      [] o[1] = "alias" -> [s EXCEPT !.name[o[2]] = s.name[o[3]]]
      [] o[1] = "drop" -> LET t == [s EXCEPT !.name[o[2]] = None]
                          IN IF v = "freed" /\ s.comp = s.name[o[2]] THEN [t EXCEPT !.heap[s.comp] = Empty] ELSE t
      [] o[1] = "save" -> [s EXCEPT !.heap = Append(@, At(s, o[2])), !.file = IF v = "lazy" THEN s.name[o[2]] ELSE Len(s.heap) + 1]
      [] o[1] = "load" -> Fresh(s, o[2], s.heap[s.file])
      [] o[1] = "merge" -> LET m == Merge(<<At(s, o[3]), At(s, o[4])>>)
                           IN IF v = "alias" /\ Same(m, At(s, o[3])) THEN [s EXCEPT !.name[o[2]] = s.name[o[3]]] ELSE Fresh(s, o[2], m)
      [] o[1] = "comp" -> [s EXCEPT !.comp = s.name[o[2]]]

Operations == {<<o, n>> : o \in {"new", "drop", "save", "load", "comp"}, n \in Names}
              \cup {<<"add", n, p[1], p[2], l>> : n \in Names, p \in Pairs, l \in {1, 2}}
              \cup {<<"alias", n, k>> : n, k \in Names}
              \cup {<<"merge", n, k, l>> : n, k, l \in Names}
\* What there is to see
Passes(g) == \E i \in {1, 4}, j \in {2, 3} : Label(g, i, j) # 0
Seen(s) == [graphs |-> [n \in {k \in Names : Has(s, k)} |-> EdgesOf(At(s, n))],
            same |-> IF Has(s, "x") /\ Has(s, "y") THEN <<Same(At(s, "x"), At(s, "y"))>> ELSE <<>>,
            passes |-> IF s.comp # None THEN <<Passes(s.heap[s.comp])>> ELSE <<>>]
Init == LET s == [heap |-> <<Empty>>, name |-> [n \in Names |-> IF n = "x" THEN 1 ELSE None], file |-> None, comp |-> None]
        IN real = s /\ ghost = s /\ h = << <<"new", "x">> >>
Next == /\ Len(h) < MaxOps
        /\ \E o \in Operations : /\ May(o, real) /\ May(o, ghost)
                                 /\ real' = Does(o, real, Variant) /\ ghost' = Does(o, ghost, "ok")
                                 /\ h' = Append(h, o)
        /\ Tell => PrintT("@" \o ToJson([h |-> h', see |-> Seen(real')]))
View == <<real, ghost, Len(h)>>
Refines == Seen(real) = Seen(ghost)
=============================================================================
