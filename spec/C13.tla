------------------------------- MODULE C13 -------------------------------
(* The space of cross-product-free join trees, operator assignments and plans *)
(* of a join graph.  A forest of join trees starts with one scan per table;   *)
(* a step joins two connected trees.  The trees in which this ends are the    *)
(* space of join orders; it has to agree with the recursive definition.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, MaxEdges, ScanOps, JoinOps, WithPlans, Sim, Walk

VARIABLES n, G, forest
vars == <<n, G, forest>>

Pairs(k) == {{a, b} : a, b \in 1..k} \ {{a} : a \in 1..k}
Conn(g, A, B) == \E e \in g : e \cap A # {} /\ e \cap B # {}
RECURSIVE Reach(_, _, _)
Reach(g, S, V) == LET X == {v \in V \ S : Conn(g, {v}, S)} IN IF X = {} THEN S ELSE Reach(g, S \cup X, V)
Connected(g, V) == V # {} /\ Reach(g, {CHOOSE v \in V : TRUE}, V) = V

(* trees as nested pairs: <<t>> a scan, <<outer, inner>> a join *)
RECURSIVE Trees(_, _, _), TT(_)
TT(x) == IF Len(x) = 1 THEN {x[1]} ELSE TT(x[1]) \cup TT(x[2])
Trees(g, V, shape) ==
  IF Cardinality(V) = 1 THEN {<<CHOOSE v \in V : TRUE>>}
  ELSE UNION {LET O == Trees(g, A, shape)  I == Trees(g, V \ A, shape) IN {<<p[1], p[2]>> : p \in O \X I} :
              A \in {A \in (SUBSET V) \ {{}, V} : /\ Connected(g, A) /\ Connected(g, V \ A) /\ Conn(g, A, V \ A)
                                                  /\ shape = "left-deep" => Cardinality(V \ A) = 1
                                                  /\ shape = "right-deep" => Cardinality(A) = 1}}
RECURSIVE Plans(_)
Plans(x) == IF Len(x) = 1 THEN {<<o, x[1]>> : o \in ScanOps}
            ELSE {<<p[1], p[2][1], p[2][2]>> : p \in JoinOps \X (Plans(x[1]) \X Plans(x[2]))}
RECURSIVE JoinSets(_)
JoinSets(x) == IF Len(x) = 1 THEN {} ELSE {TT(x)} \cup JoinSets(x[1]) \cup JoinSets(x[2])
\* walks that may continue at a neighbour of any visited node, and jump only when there is none
RECURSIVE Walks(_, _, _, _)
Walks(g, V, w, seen) == LET free == V \ seen  nb == {v \in free : Conn(g, {v}, seen)} IN
  IF free = {} THEN {w} ELSE UNION {Walks(g, V, Append(w, v), seen \cup {v}) : v \in IF nb = {} THEN free ELSE nb}
AllWalks(g, V) == UNION {Walks(g, V, <<v>>, {v}) : v \in V}
Entries(f) == {<<k, f[k]>> : k \in DOMAIN f}
ScanAssignments == {Entries(f) : f \in [1..n -> ScanOps]}
JoinAssignments(x) == {Entries(f) : f \in [JoinSets(x) -> JoinOps]}
\* the base table is joined first: its join partner is a base table
RECURSIVE First(_, _)
First(x, b) == CASE Len(x) = 1 -> FALSE
                 [] Len(x[1]) = 1 /\ Len(x[2]) = 1 -> b \in {x[1][1], x[2][1]}
                 [] OTHER -> First(x[1], b) \/ First(x[2], b)

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Init == n = 0 /\ G = {} /\ forest = {}
Choose == /\ n = 0
          /\ \E k \in Pick(Sizes) : \E g \in Pick(SUBSET Pairs(k)) : Cardinality(g) <= MaxEdges /\ n' = k /\ G' = g /\ forest' = {<<t>> : t \in 1..k}
JoinStep == /\ n > 0 /\ Walk
            /\ \E x \in forest, y \in forest : /\ x # y /\ Conn(G, TT(x), TT(y))
                                               /\ forest' = (forest \ {x, y}) \cup {<<x, y>>}
            /\ UNCHANGED <<n, G>>
Next == Choose \/ JoinStep
Spec == Init /\ [][Next]_vars

V == 1..n
Done == n > 0 /\ Cardinality(forest) = 1
Fresh == n > 0 /\ Cardinality(forest) = n
Emit == Fresh =>
  PrintT("@@" \o ToJson([n |-> n, g |-> G, walks |-> AllWalks(G, V), ok |-> Connected(G, V),
    bushy |-> Trees(G, V, "bushy"), left |-> Trees(G, V, "left-deep"), right |-> Trees(G, V, "right-deep"),
    first |-> [b \in V |-> {x \in Trees(G, V, "bushy") : First(x, b)}],
    scans |-> IF WithPlans THEN ScanAssignments ELSE {},
    joins |-> IF WithPlans THEN {[x |-> x, a |-> JoinAssignments(x)] : x \in Trees(G, V, "bushy")} ELSE {},
    plans |-> IF WithPlans THEN UNION {Plans(x) : x \in Trees(G, V, "bushy")} ELSE {}]))
----------------------------------------------------------------------------
Complete == Done => /\ \A x \in forest : x \in Trees(G, V, "bushy")
                    /\ Connected(G, V)
NoTrees == n > 1 /\ ~Connected(G, V) => Trees(G, V, "bushy") = {}
WalksAreOrders == n > 0 /\ Connected(G, V) => Cardinality(AllWalks(G, V)) = Cardinality(Trees(G, V, "left-deep"))
Linear == n > 0 => /\ Trees(G, V, "left-deep") \subseteq Trees(G, V, "bushy")
                   /\ Cardinality(Trees(G, V, "left-deep")) = Cardinality(Trees(G, V, "right-deep"))
==========================================================================
