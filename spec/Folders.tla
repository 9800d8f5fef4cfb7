------------------------------- MODULE Folders -------------------------------
(* Folders of graphs made through the Python interface: generation of a       *)
(* whole graph, of shards of it, and merges, each into a folder that must not *)
(* exist yet.  A graph is told by the places of the shuffled list of vertices *)
(* from which it was explored; a folder remembers what it was asked to hold.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NV,        \* vertices of the shapefile
          Splits,    \* numbers of splits
          MaxOps,
          Variant,   \* "ok", or a mistake: "exists" (writes into a folder that exists), "empty" (does so if it is empty),
                     \* "remainder" (the last shard stops short), "mixed" (sizes are rounded up for the starts only),
                     \* "first" (merging keeps the first only), "into" (a merge goes into its first input as well),
                     \* "from one" (shards are counted from one)
          Tell
VARIABLES fs, kept, ops
vars == <<fs, kept, ops>>
Names == <<"f1", "f2", "f3", "f4", "f5">>
Odd == {"empty", "full", "plain"}
All == 0..(NV - 1)
Absent == [k |-> "absent", cover |-> {}, asked |-> {}]
Thing(k) == [k |-> k, cover |-> {}, asked |-> {}]
Graph(c, a) == [k |-> "graph", cover |-> c, asked |-> a]
Folder == {Names[i] : i \in 1..Len(Names)}
Init == /\ fs = [f \in Folder \cup Odd |-> IF f \in Odd THEN Thing(f) ELSE Absent]
        /\ kept = fs
        /\ ops = <<>>
Fresh == Names[CHOOSE i \in 1..Len(Names) : fs[Names[i]].k = "absent" /\ \A j \in 1..(i - 1) : fs[Names[j]].k # "absent"]
Made == {f \in Folder : fs[f].k = "graph"}
\* The next new folder, or one that is there (of the graphs the last one stands for the others)
Targets == {Fresh} \cup Odd \cup (IF Made = {} THEN {} ELSE {Names[Cardinality(Made)]})

\* What the code computes for shard k of n
Size(n) == IF Variant = "mixed" THEN (NV + n - 1) \div n ELSE NV \div n
Low(k, n) == LET x == Size(n) * (IF Variant = "from one" THEN k + 1 ELSE k) IN IF x > NV THEN NV ELSE x
High(k, n) == IF k = n - 1 /\ Variant # "remainder" THEN NV ELSE LET x == (NV \div n) * (k + 1) IN IF x > NV THEN NV ELSE x
Places(k, n) == {v \in All : Low(k, n) <= v /\ v < High(k, n)}
\* Shards of many splits: the first and the last two
Some(n) == IF n <= 3 THEN 0..(n - 1) ELSE {0, n - 2, n - 1}

May(f) == \/ fs[f].k = "absent"
          \/ Variant = "exists" /\ fs[f].k # "plain"
          \/ Variant = "empty" /\ fs[f].k = "empty"
Put(op, f, g, also) ==
    /\ fs' = IF May(f) THEN [x \in DOMAIN fs |-> IF x = f THEN g ELSE IF x \in also THEN g ELSE fs[x]] ELSE fs
    /\ kept' = IF fs[f].k = "absent" THEN [kept EXCEPT ![f] = g] ELSE kept
    /\ ops' = Append(ops, op)
    /\ Tell => PrintT("@" \o ToJson([ops |-> ops', makes |-> fs[f].k = "absent",
                                     fs |-> [x \in {y \in Folder : fs'[y].k = "graph"} |-> [cover |-> fs'[x].cover, asked |-> fs'[x].asked]]]))
Generate == \E f \in Targets : Put([op |-> "generate", out |-> f], f, Graph(All, {<<0, 1>>}), {})
Range == \E f \in Targets, n \in Splits : \E k \in Some(n) :
             Put([op |-> "range", out |-> f, k |-> k, n |-> n], f, Graph(Places(k, n), {<<k, n>>}), {})
RECURSIVE Cover(_, _), Asked(_, _)
Cover(s, i) == IF i > Len(s) THEN {} ELSE fs[s[i]].cover \cup Cover(s, i + 1)
Asked(s, i) == IF i > Len(s) THEN {} ELSE fs[s[i]].asked \cup Asked(s, i + 1)
Lists == UNION {[1..n -> Made] : n \in 1..2} \cup (IF Cardinality(Made) >= 3 THEN {<<Names[3], Names[1], Names[2]>>} ELSE {})
Merge == \E f \in Targets, s \in Lists :
             Put([op |-> "merge", out |-> f, ins |-> s], f,
                 Graph(IF Variant = "first" THEN fs[s[1]].cover ELSE Cover(s, 1), Asked(s, 1)), IF Variant = "into" THEN {s[1]} ELSE {})
Next == Len(ops) < MaxOps /\ (Generate \/ Range \/ Merge)
View == <<fs, kept, Len(ops)>>

\* What was there stays as it was
Kept == fs = kept
\* All shards of a number of splits make the whole, and no two explore the same vertex
Whole == \A f \in Made, n \in Splits : (\A k \in 0..(n - 1) : <<k, n>> \in fs[f].asked) => fs[f].cover = All
Apart == \A f, g \in Made : (Cardinality(fs[f].asked) = 1 /\ Cardinality(fs[g].asked) = 1) =>
             LET a == CHOOSE x \in fs[f].asked : TRUE
                 b == CHOOSE x \in fs[g].asked : TRUE
             IN a[2] = b[2] /\ a[1] # b[1] => fs[f].cover \cap fs[g].cover = {}
Refines == Kept /\ Whole /\ Apart
=============================================================================
