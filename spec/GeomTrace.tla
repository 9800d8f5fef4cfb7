----------------------------- MODULE GeomTrace -----------------------------
(* The geometry CAPI is built on, in microdegrees over the whole map and its *)
(* copies: notation of polygons, order around an observer, segments.         *)
(* Every event is one call with its result; there is no state.               *)
EXTENDS Big, Json, IOUtils, FiniteSets
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, why
vars == <<tid, l, why>>
Ev == Traces[tid][l]

(********************************* polygons *********************************)
Nxt(s, i) == s[(i % Len(s)) + 1]
Prv(s, i) == s[IF i = 1 THEN Len(s) ELSE i - 1]
\* One copy of every repeated neighbour, around the ring
Pick(s, keep) == LET ks == {i \in 1..Len(s) : keep[i]}
                     n == Cardinality(ks)
                     RECURSIVE At(_, _)
                     At(i, k) == IF k > n THEN <<>> ELSE IF i > Len(s) THEN <<>>
                                 ELSE IF keep[i] THEN <<s[i]>> \o At(i + 1, k + 1) ELSE At(i + 1, k)
                 IN At(1, 1)
NoRepeats(s) == Pick(s, [i \in 1..Len(s) |-> s[i] # Nxt(s, i)])
\* A vertex on the straight way from its predecessor to its successor is no corner
IsCorner(s, i) == ~(Side(Prv(s, i), Nxt(s, i), s[i]) = 0 /\ DotSgn(s[i], Prv(s, i), Nxt(s, i)) < 0)
Corners(s) == LET r == NoRepeats(s) IN Pick(r, [i \in 1..Len(r) |-> IsCorner(r, i)])
\* Twice the signed area about the first vertex
RECURSIVE AreaFrom(_, _)
AreaFrom(s, i) ==
    IF i >= Len(s) THEN <<0, 0, 0, 0, 0, 0, 0>>
    ELSE Plus(AreaFrom(s, i + 1),
              LET o == s[1]
                  a == s[i]
                  b == s[i + 1]
              IN Carry(Minus(Mul(a[1] - o[1], b[2] - o[2]), Mul(a[2] - o[2], b[1] - o[1])), 1))
CounterClockwise(s) == Sgn(AreaFrom(s, 2)) > 0
Turned(s, k) == [i \in 1..Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
Back(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SameRing(s, t) == Len(s) = Len(t) /\ (Len(s) = 0 \/ \E k \in 0..(Len(s) - 1) : Turned(s, k) = t)
Canonical(s) == LET c == Corners(s) IN IF CounterClockwise(c) THEN c ELSE Back(c)
PolyComplaints(e) ==
    LET c == TLCEval(Canonical(e.ring))
    IN (IF Len(e.out) # Cardinality({e.out[i] : i \in 1..Len(e.out)}) THEN {"vertex twice"} ELSE {})
       \cup (IF \E i \in 1..Len(c) : \A j \in 1..Len(e.out) : e.out[j] # c[i] THEN {"corner lost"} ELSE {})
       \cup (IF \E j \in 1..Len(e.out) : \A i \in 1..Len(c) : e.out[j] # c[i] THEN {"not a corner"} ELSE {})
       \cup (IF ~SameRing(c, e.out) THEN {"not the same ring"} ELSE {})
       \cup (IF e.again # e.out THEN {"notation not stable"} ELSE {})

(**************************** around an observer ****************************)
\* Quadrant of the direction from o to p, counted counter-clockwise from east
Quad(o, p) == LET x == p[1] - o[1]
                  y == p[2] - o[2]
              IN IF y = 0 /\ x > 0 THEN 1 ELSE IF x > 0 /\ y > 0 THEN 2 ELSE IF x = 0 /\ y > 0 THEN 3
                 ELSE IF x < 0 /\ y > 0 THEN 4 ELSE IF y = 0 /\ x < 0 THEN 5 ELSE IF x < 0 /\ y < 0 THEN 6
                 ELSE IF x = 0 /\ y < 0 THEN 7 ELSE 8
\* p may come directly before q
InOrder(o, p, q) ==
    IF p = o THEN TRUE
    ELSE IF q = o THEN FALSE
    ELSE IF Quad(o, p) # Quad(o, q) THEN Quad(o, p) < Quad(o, q)
    ELSE LET s == Side(o, p, q)
         IN IF s = 0 THEN CmpDist(o, p, q) <= 0 ELSE s > 0
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SortComplaints(e) ==
    (IF Len(e.out) # Len(e.pts) \/ \E i \in 1..Len(e.pts) : Count(e.pts, e.pts[i]) # Count(e.out, e.pts[i])
     THEN {"not a permutation"} ELSE {})
    \cup (IF \E i \in 1..(Len(e.out) - 1) : ~InOrder(e.o, e.out[i], e.out[i + 1]) THEN {"not sorted"} ELSE {})

(********************************* segments *********************************)
Parallel(a, b, c, d) == SgnDiff(b[1] - a[1], d[2] - c[2], b[2] - a[2], d[1] - c[1]) = 0
Meet(a, b, c, d) ==
    \/ OnSeg(a, c, d) \/ OnSeg(b, c, d) \/ OnSeg(c, a, b) \/ OnSeg(d, a, b)
    \/ Side(a, b, c) * Side(a, b, d) < 0 /\ Side(c, d, a) * Side(c, d, b) < 0
\* The lines through a, b and c, d meet at a + (b - a) * Q / D; p is within one microdegree of it per axis
\* if |(b - a) * Q - (p - a) * D| <= |D|
MeetsNear(p, a, b, c, d) ==
    LET n == <<b[1] - a[1], b[2] - a[2]>>
        m == <<c[1] - d[1], c[2] - d[2]>>
        q == <<c[1] - a[1], c[2] - a[2]>>
        D0 == Minus(Mul(n[1], m[2]), Mul(n[2], m[1]))
        sg == Sgn(D0)
        D == TLCEval(Carry([i \in 1..7 |-> sg * D0[i]], 1))
        Q == TLCEval(Carry([i \in 1..7 |-> sg * (Mul(m[2], q[1])[i] - Mul(m[1], q[2])[i])], 1))
        one(k) == LET u == MulBig(Q, n[k])
                      v == MulBig(D, p[k] - a[k])
                      w == MulBig(D, 1)
                      diff == [i \in 1..10 |-> u[i] - v[i]]
                  IN SgnL([i \in 1..10 |-> diff[i] - w[i]]) <= 0 /\ SgnL([i \in 1..10 |-> diff[i] + w[i]]) >= 0
    IN one(1) /\ one(2)
SegComplaints(e) ==
    LET a == e.a
        b == e.b
        c == e.c
        d == e.d
        par == Parallel(a, b, c, d)
    IN (IF e.o # Side(a, b, c) THEN {"side wrong"} ELSE {})
       \cup (IF (e.on = 1) # OnSeg(c, a, b) THEN {"on segment wrong"} ELSE {})
       \cup (IF (e.eq = 1) # ({a, b} = {c, d}) THEN {"equality wrong"} ELSE {})
       \cup (IF ~par /\ (Len(e.x) = 1) # Meet(a, b, c, d) THEN {"meeting wrong"} ELSE {})
       \cup (IF ~par /\ Len(e.x) = 1 /\ Meet(a, b, c, d) /\
                ~MeetsNear(e.x[1], a, b, c, d)
             THEN {"meeting point wrong"} ELSE {})
       \cup (IF par /\ Len(e.x) = 1 /\ e.x[1] \notin ({a, b} \cap {c, d}) THEN {"parallel ones meet"} ELSE {})
       \cup (IF par /\ Len(e.x) = 0 /\ {a, b} \cap {c, d} # {} THEN {"common end missed"} ELSE {})

Complaints(e) ==
    IF e.thrown # "" THEN {"error"}
    ELSE IF e.e = "poly" THEN PolyComplaints(e)
    ELSE IF e.e = "sort" THEN SortComplaints(e)
    ELSE IF e.e = "seg" THEN SegComplaints(e)
    ELSE {"unknown event"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ why' = Complaints(Ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
