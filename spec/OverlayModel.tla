---------------------------- MODULE OverlayModel ----------------------------
(* How ModifiedGraph keeps its changes: entries per ordered pair that say    *)
(* present (with a flag) or removed, over a base graph that it never         *)
(* changes.  g is the abstract copy of the base with the same operations     *)
(* applied; every query of the overlay must answer like g.                   *)
EXTENDS Store, Json
CONSTANTS Base,     \* vertices of the base
          New,      \* vertices that may come
          Pairs,    \* pairs that operations are about
          BasePairs,\* pairs whose base edges vary
          Variant,  \* "ok", or a mistake: "flag" (an addition over a base edge keeps its own flag), "revive" (an
                    \* addition after a removal inherits the base's flag), "erase" (a removal only drops the entry)
          Tell
\* Values for the constants
Triangle == <<1, 2, 3>>
PairsSmall == {<<1, 2>>, <<2, 1>>, <<4, 1>>}
PairsLarge == PairsSmall \cup {<<1, 4>>, <<2, 2>>}
BaseSmall == {<<1, 2>>}
BaseLarge == {<<1, 2>>, <<2, 1>>}
VARIABLES base, over, keys, g, h
vars == <<base, over, keys, g, h>>
Known0 == Range(Base)
None == "none"
BaseHas(a, b) == <<a, b>> \in DOMAIN base /\ base[<<a, b>>] # 0
BaseCrossing(a, b) == BaseHas(a, b) /\ base[<<a, b>>] = 2
Entry(ov, a, b) == ov[<<a, b>>]

AddD(ov, a, b, x) ==
    IF a = b THEN ov
    ELSE LET e == Entry(ov, a, b)
             crossing == x = 2 /\
                CASE e = None -> IF Variant = "flag" THEN TRUE ELSE ~BaseHas(a, b) \/ BaseCrossing(a, b)
                  [] e = "removed" -> IF Variant = "revive" THEN ~BaseHas(a, b) \/ BaseCrossing(a, b) ELSE TRUE
                  [] e = "plain" -> FALSE
                  [] e = "crossing" -> TRUE
         IN [ov EXCEPT ![<<a, b>>] = IF crossing THEN "crossing" ELSE "plain"]
RemD(ov, a, b) == IF a = b THEN ov ELSE [ov EXCEPT ![<<a, b>>] = IF Variant = "erase" THEN None ELSE "removed"]

Operation(o, a, b, x) ==
    /\ over' = CASE o = "add" -> AddD(AddD(over, a, b, x), b, a, x)
                 [] o = "adddir" -> AddD(over, a, b, x)
                 [] o = "rem" -> RemD(RemD(over, a, b), b, a)
                 [] o = "remdir" -> RemD(over, a, b)
    /\ g' = CASE o = "add" -> AddBoth(g, a, b, x)
              [] o = "adddir" -> AddDir(g, a, b, x)
              [] o = "rem" -> RemBoth(g, a, b)
              [] o = "remdir" -> RemDir(g, a, b)
    /\ keys' = keys \cup (IF a = b THEN {} ELSE IF o \in {"add", "rem"} THEN {a, b} ELSE {a})
    /\ UNCHANGED base
    /\ h' = [h EXCEPT !.ops = Append(@, <<o, a, b, x>>)]
AddVert(v) == /\ keys' = IF v \in Known0 THEN keys ELSE keys \cup {v}
              /\ g' = AddVertex(g, v)
              /\ UNCHANGED <<base, over>>
              /\ h' = [h EXCEPT !.ops = Append(@, <<"addvert", v, v, 0>>)]

KnownNow(v) == v \in Known0 \cup keys
Facts(bb) == {<<p[1], p[2], x>> : p \in {q \in DOMAIN bb : bb[q] # 0}, x \in {1, 2}}
Init == /\ base \in [BasePairs -> 0..3]
        /\ over = [p \in Pairs \cup {<<q[2], q[1]>> : q \in Pairs} |-> None]
        /\ keys = {}
        /\ g = [kind |-> "overlay", polys |-> <<Base>>, verts |-> Base,
                E |-> {f \in Facts(base) : (base[<<f[1], f[2]>>] \div f[3]) % 2 = 1}]
        /\ h = [base |-> {<<p[1], p[2], base[p]>> : p \in BasePairs}, ops |-> <<>>]
Emit(hh, gg) == Tell => PrintT("@" \o ToJson([h |-> hh, verts |-> gg.verts, edges |-> EdgesOf(gg)]))
\* New vertices come with additions in both directions or with AddVert: what a one-way edge or a removal says about an
\* unknown vertex is left open
Next == /\ \/ \E p \in Pairs :
                  \/ \E x \in {1, 2} : Operation("add", p[1], p[2], x)
                  \/ KnownNow(p[1]) /\ KnownNow(p[2])
                        /\ \/ \E x \in {1, 2} : Operation("adddir", p[1], p[2], x)
                           \/ \E o \in {"rem", "remdir"} : Operation(o, p[1], p[2], 0)
           \/ \E v \in New \cup {Base[1]} : AddVert(v)
        /\ Emit(h', g')
View == <<base, over, keys, EdgesOf(g)>>

\* What the overlay answers
Has(a, b) == IF <<a, b>> \in DOMAIN over /\ Entry(over, a, b) # None THEN Entry(over, a, b) # "removed" ELSE BaseHas(a, b)
Crossing(a, b) == IF <<a, b>> \in DOMAIN over /\ Entry(over, a, b) # None THEN Entry(over, a, b) = "crossing" ELSE BaseCrossing(a, b)
All == Known0 \cup keys
Refines == /\ All = Verts(g)
           /\ {<<q[1], q[2], IF Crossing(q[1], q[2]) THEN 2 ELSE 1>> : q \in {r \in All \X All : Has(r[1], r[2])}} = EdgesOf(g)
=============================================================================
