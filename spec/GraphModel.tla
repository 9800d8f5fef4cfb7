----------------------------- MODULE GraphModel -----------------------------
(* How Graph keeps its edges: one cell of two bits (plain, crossing) per     *)
(* ordered pair in a flat array with n cells per column, moved to a larger   *)
(* array when a vertex is added.  The ghost variable g is the abstract graph *)
(* of Store; the cells must always mean exactly g.  Each transition prints   *)
(* the shortest history that takes it, to be replayed on the real code.      *)
EXTENDS Store, Json
CONSTANTS Verts0,   \* vertices of the polygons: a sequence
          New,      \* vertices that may be added
          Strange,  \* vertices nobody knows
          Pairs,    \* pairs that operations are about
          Variant,  \* "ok", or a mistake: "stride" (copied with the new stride), "overwrite" (an addition replaces the bits)
          Tell
\* Values for the constants
Triangle == <<1, 2, 3>>
PairsSmall == {<<1, 2>>, <<2, 1>>, <<2, 4>>, <<4, 2>>, <<3, 3>>}
PairsLarge == PairsSmall \cup {<<2, 3>>}
VARIABLES verts, arr, g, h
vars == <<verts, arr, g, h>>
N == Len(verts)
IndexOf(v) == CHOOSE i \in 1..N : verts[i] = v
Knows(v) == v \in Range(verts)
At(i, j, n) == (i - 1) + n * (j - 1) + 1
Cell(a, b) == arr[At(IndexOf(a), IndexOf(b), N)]
LabelOf(c) == IF c % 2 = 1 THEN 1 ELSE IF c = 2 THEN 2 ELSE 0
Or(c, x) == IF (c \div x) % 2 = 1 THEN c ELSE c + x

\* One directed change of the array
Put(ar, a, b, c) == [ar EXCEPT ![At(IndexOf(a), IndexOf(b), N)] = c]
AddD(ar, a, b, x) == IF a = b THEN ar
                     ELSE Put(ar, a, b, IF Variant = "overwrite" THEN x ELSE Or(ar[At(IndexOf(a), IndexOf(b), N)], x))
RemD(ar, a, b) == IF a = b THEN ar ELSE Put(ar, a, b, 0)
Failing(a, b) == a # b /\ ~(Knows(a) /\ Knows(b))

Operation(o, a, b, x) ==
    /\ IF Failing(a, b) THEN UNCHANGED <<arr, g>>
       ELSE /\ arr' = CASE o = "add" -> AddD(AddD(arr, a, b, x), b, a, x)
                        [] o = "adddir" -> AddD(arr, a, b, x)
                        [] o = "rem" -> RemD(RemD(arr, a, b), b, a)
                        [] o = "remdir" -> RemD(arr, a, b)
            /\ g' = CASE o = "add" -> AddBoth(g, a, b, x)
                      [] o = "adddir" -> AddDir(g, a, b, x)
                      [] o = "rem" -> RemBoth(g, a, b)
                      [] o = "remdir" -> RemDir(g, a, b)
    /\ UNCHANGED verts
    /\ h' = Append(h, <<o, a, b, x, IF Failing(a, b) THEN 1 ELSE 0>>)
AddVert(v) ==
    /\ IF Knows(v) THEN UNCHANGED <<verts, arr>>
       ELSE /\ verts' = Append(verts, v)
            /\ arr' = [k \in 1..((N + 1) * (N + 1)) |->
                         LET i == ((k - 1) % (N + 1)) + 1
                             j == ((k - 1) \div (N + 1)) + 1
                         IN IF i > N \/ j > N THEN 0
                            ELSE arr[At(i, j, IF Variant = "stride" /\ j < N THEN N + 1 ELSE N)]]
    /\ g' = AddVertex(g, v)
    /\ h' = Append(h, <<"addvert", v, v, 0, 0>>)

Init == /\ verts = Verts0
        /\ arr = [k \in 1..(Len(Verts0) * Len(Verts0)) |-> 0]
        /\ g = [kind |-> "plain", polys |-> <<Verts0>>, verts |-> Verts0, E |-> {}]
        /\ h = <<>>
\* The operations on one ordered pair: additions need all flags, the undirected ones only one order
Emit(hh, gg) == Tell => PrintT("@" \o ToJson([h |-> hh, verts |-> gg.verts, edges |-> EdgesOf(gg)]))
Next == /\ \/ \E p \in Pairs : \/ \E o \in {"add", "adddir"}, x \in {1, 2} : Operation(o, p[1], p[2], x)
                               \/ \E o \in {"rem", "remdir"} : Operation(o, p[1], p[2], 0)
           \/ \E p \in Pairs, s \in Strange, o \in {"add", "adddir", "rem", "remdir"} :
                    \/ Operation(o, p[1], s, 1)
                    \/ Operation(o, s, p[1], 1)
           \/ \E v \in New \cup {Verts0[1]} : AddVert(v)
        /\ Emit(h', g')
View == <<verts, arr, EdgesOf(g)>>

Cells == {<<a, b, LabelOf(Cell(a, b))>> : a, b \in Range(verts)}
Refines == /\ verts = g.verts
           /\ {c \in Cells : c[3] # 0} = EdgesOf(g)
           /\ \A a \in Range(verts) : {b \in Range(verts) : Cell(a, b) # 0} = Out(g, a)
           /\ \A a \in Range(verts) : Cell(a, a) = 0
=============================================================================
