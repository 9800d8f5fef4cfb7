----------------------------- MODULE ConcTrace -----------------------------
(* Histories of concurrent programs on one graph.  A call takes effect in   *)
(* directed steps, each at some moment between its call and its return: an  *)
(* operation on both directions is two of them, in whichever order, a query *)
(* is one, which must find what it answers.  What happened in between is    *)
(* not seen, so the state is the set of all configurations <<edges, steps   *)
(* not yet taken>> that agree with what was seen so far, for the edges out  *)
(* of each vertex on their own (atomicity is local: a history is atomic if  *)
(* and only if its restriction to each object is).  The history is accepted *)
(* as long as there is such a configuration.                                *)
EXTENDS Store, Json, IOUtils
CONSTANT Focus
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, confs, why
vars == <<tid, l, confs, why>>
Ev == Traces[tid][l]

\* The steps of a call of thread t, each on the edges out of one vertex: <<from, <<t, what, to or result, flag>>>>
Steps(e) ==
    IF e.k \in {"h", "m", "a", "A", "r", "R"} /\ e.a = e.b THEN {}
    ELSE CASE e.k = "a" -> {<<e.a, <<e.t, "add", e.b, e.x>>>>, <<e.b, <<e.t, "add", e.a, e.x>>>>}
           [] e.k = "r" -> {<<e.a, <<e.t, "rem", e.b, 0>>>>, <<e.b, <<e.t, "rem", e.a, 0>>>>}
           [] e.k = "A" -> {<<e.a, <<e.t, "add", e.b, e.x>>>>}
           [] e.k = "R" -> {<<e.a, <<e.t, "rem", e.b, 0>>>>}
           [] e.k = "h" -> {<<e.a, <<e.t, "has", e.b, e.v[1]>>>>}
           [] e.k = "m" -> {<<e.a, <<e.t, "crossing", e.b, e.v[1]>>>>}
           [] e.k = "n" -> {<<e.a, <<e.t, "neighbours", Range(e.v), 0>>>>}
           [] OTHER -> {}
\* R: what was added from one vertex, as <<to, flag>>
Lab(R, b) == IF <<b, 1>> \in R THEN 1 ELSE IF <<b, 2>> \in R THEN 2 ELSE 0
Possible(R, s) ==
    CASE s[2] = "has" -> (s[4] = 1) = (Lab(R, s[3]) # 0)
      [] s[2] = "crossing" -> (s[4] = 1) = (Lab(R, s[3]) = 2)
      [] s[2] = "neighbours" -> s[3] = {f[1] : f \in R}
      [] OTHER -> TRUE
Effect(R, s) ==
    CASE s[2] = "add" -> R \cup {<<s[3], s[4]>>}
      [] s[2] = "rem" -> R \ {<<s[3], 1>>, <<s[3], 2>>}
      [] OTHER -> R
\* Everything that can have happened meanwhile
RECURSIVE Closure(_, _)
Closure(all, new) ==
    LET next == UNION {{<<Effect(c[1], s), c[2] \ {s}>> : s \in {q \in c[2] : Possible(c[1], q)}} : c \in new}
        fresh == next \ all
    IN IF fresh = {} THEN all ELSE Closure(all \cup fresh, fresh)
Concerns(cs, t) == \E c \in cs : \E s \in c[2] : s[1] = t
Returned(cs, t) == IF Concerns(cs, t) THEN {c \in Closure(cs, cs) : \A s \in c[2] : s[1] # t} ELSE cs

\* The answers that do not depend on the schedule
Constant(e) == e.k = "v" => e.v = <<1>>
NoDuplicates(s) == Cardinality(Range(s)) = Len(s)
Triples(es) == {<<es[i][1], es[i][2], es[i][3]>> : i \in 1..Len(es)}
RowOf(ts, a) == {<<f[2], f[3]>> : f \in {g \in ts : g[1] = a}}
Row(R) == {<<f[1], Lab(R, f[1])>> : f \in R}
Vs == 1..8
NewConfs(e) ==
    IF e.e = "call" THEN
        LET st == Steps(e)
        IN [a \in Vs |-> LET mine == {s[2] : s \in {q \in st : q[1] = a}}
                         IN IF mine = {} THEN confs[a] ELSE {<<c[1], c[2] \cup mine>> : c \in confs[a]}]
    ELSE IF e.e = "ret" THEN [a \in Vs |-> Returned(confs[a], e.t)]
    ELSE confs
Complaints(e, new) ==
    IF e.e = "call" THEN
        (IF ~Constant(e) \/ (e.k \in {"h", "m"} /\ e.a = e.b /\ e.v # <<0>>)
            \/ (e.k = "n" /\ ~NoDuplicates(e.v)) \/ (e.v # <<>> /\ e.v[1] \in {-1, -2})
         THEN {"answer wrong"} ELSE {})
    ELSE IF e.e = "ret" THEN (IF \E a \in Vs : new[a] = {} THEN {"not atomic"} ELSE {})
    ELSE IF e.e = "final" THEN
        LET ts == Triples(e.edges)
        IN (IF \E a \in Vs : RowOf(ts, a) \notin {Row(c[1]) : c \in confs[a]} THEN {"final graph wrong"} ELSE {})
           \cup (IF \E i \in 1..Len(e.nb) : Range(e.nb[i]) # {f[1] : f \in RowOf(ts, i)} THEN {"final graph wrong"} ELSE {})
    ELSE IF e.e = "stuck" THEN {"stuck"}
    ELSE {"unknown event"}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ confs = [a \in Vs |-> {<<{}, {}>>}] /\ why = {}
Step == /\ l <= Len(Traces[tid])
        /\ LET new == NewConfs(Ev)
           IN /\ why' = Complaints(Ev, new)
              /\ confs' = new
        /\ l' = l + 1
        /\ UNCHANGED tid
Done == l > Len(Traces[tid]) /\ UNCHANGED vars
Next == Step \/ Done
Sound == "unknown event" \notin why
Accepted == why \cap Focus = {}
=============================================================================
