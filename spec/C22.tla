-------------------------------- MODULE C22 --------------------------------
(* Histories of relational algebra trees: trees are built bottom up, then any *)
(* node is mutated (another attribute, another input, an input wrapped into a *)
(* new operator, an operator skipped, inputs swapped, nothing at all), maybe  *)
(* becoming the new root.  Trees are values: equal nodes are one node.  The   *)
(* history keeps the tree of each step and what can be observed of it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Depth, Steps

VARIABLES first, tree, hist, phase
vars == <<first, tree, hist, phase>>

N(op, a, k) == [op |-> op, a |-> a, k |-> k]
Rel(a) == N("rel", a, <<>>)

(* ------------------------------------------------ attributes *)
Variants(op) == CASE op = "rel" -> 1..3
                  [] op \in {"sel", "proj", "grp", "ren", "srt", "map", "join", "sub", "relsub"} -> 1..2
                  [] op \in {"semi", "anti"} -> 0..2
                  [] OTHER -> {0}
Unary == {"sel", "proj", "grp", "ren", "srt", "map", "dup", "sub", "relsub"}
Binary == {"join", "cross", "union", "inter", "diff"}
Semi == {"semi", "anti"}

(* ------------------------------------------------ observations *)
E(f, t, c) == [f |-> f, t |-> t, c |-> c]
Col(t, c) == E("col", t, c)
RelCols(a) == CASE a = 1 -> {Col("a", "x"), Col("a", "y")} [] a = 2 -> {Col("a", "x")} [] a = 3 -> {Col("b", "x"), Col("b", "y")}
RelTable(a) == IF a = 3 THEN "b" ELSE "a"
WTable(a) == IF a = 1 THEN "w" ELSE "w2"
\* ren 1 turns a.x into c.x, ren 2 turns a.y into c.y
Renamed(a, e) == IF e.f \in {"col", "plus", "sum"} /\ e.t = "a" /\ e.c = (IF a = 1 THEN "x" ELSE "y") THEN [e EXCEPT !.t = "c"] ELSE e
RECURSIVE Provided(_), Tables(_, _), Leaf(_), Dfs(_)
Provided(v) ==
    CASE v.op = "rel" -> RelCols(v.a)
      [] v.op = "relsub" -> {Col(WTable(v.a), "x")}
      [] v.op = "proj" -> IF v.a = 1 THEN {Col("a", "x")} ELSE {Col("b", "x"), E("plus", "a", "x")}
      [] v.op = "grp" -> IF v.a = 1 THEN {Col("a", "x"), E("count", "", "")} ELSE {E("sum", "a", "y")}
      [] v.op = "ren" -> {Renamed(v.a, e) : e \in Provided(v.k[1])}
      [] v.op = "map" -> Provided(v.k[1]) \cup {E("plus", "a", IF v.a = 1 THEN "x" ELSE "y")}
      [] v.op = "sub" -> Provided(v.k[1]) \cup {E("sub", IF v.a = 1 THEN "1" ELSE "2", "")}
      [] v.op \in {"semi", "anti", "diff"} -> Provided(v.k[1])
      [] v.op \in {"union", "inter"} -> Provided(v.k[1]) \cap Provided(v.k[2])
      [] OTHER -> UNION {Provided(v.k[i]) : i \in DOMAIN v.k}
Tables(v, outerOnly) ==
    CASE v.op = "rel" -> {RelTable(v.a)}
      [] v.op = "relsub" -> {WTable(v.a)} \cup (IF outerOnly THEN {} ELSE Tables(v.k[1], FALSE))
      [] v.op = "sub" -> IF outerOnly THEN {} ELSE Tables(v.k[1], FALSE)
      [] OTHER -> UNION {Tables(v.k[i], outerOnly) : i \in DOMAIN v.k}
Leaf(v) == IF v.k = <<>> THEN <<v>> ELSE IF Len(v.k) = 1 THEN Leaf(v.k[1]) ELSE <<>>
Dfs(v) == IF v.k = <<>> THEN <<v>> ELSE IF Len(v.k) = 1 THEN <<v>> \o Dfs(v.k[1]) ELSE <<v>> \o Dfs(v.k[1]) \o Dfs(v.k[2])
Nodes(v) == LET d == Dfs(v) IN {d[i] : i \in DOMAIN d}
Obs(v) == [provided |-> Provided(v), tables |-> Tables(v, FALSE), outer |-> Tables(v, TRUE), leaf |-> Leaf(v), dfs |-> [i \in DOMAIN Dfs(v) |-> Dfs(v)[i].op]]

(* ------------------------------------------------ mutations *)
RECURSIVE Replace(_, _, _)
Replace(t, v, w) == IF t = v THEN w ELSE [t EXCEPT !.k = [i \in DOMAIN t.k |-> Replace(t.k[i], v, w)]]
\* the inputs of an operator have to fit: (anti) semi joins need a subquery on their right side
Fits(op, i, c) == op \in Semi /\ i = 2 => c.op = "sub"
Extra == {Rel(3), N("sel", 1, <<Rel(1)>>), N("sub", 2, <<N("proj", 1, <<Rel(1)>>)>>), N("cross", 0, <<Rel(1), Rel(3)>>)}
Updates(v, extras) ==
    {[u |-> "same", i |-> 0, a |-> v.a, c |-> <<>>, to |-> v]}
    \cup {[u |-> "attr", i |-> 0, a |-> x, c |-> <<>>, to |-> [v EXCEPT !.a = x]] : x \in Variants(v.op) \ {v.a, 0}}
    \cup UNION {{[u |-> "kid", i |-> i, a |-> v.a, c |-> <<c>>, to |-> [v EXCEPT !.k[i] = c]] : c \in {x \in extras : Fits(v.op, i, x) /\ v \notin Nodes(x)}} : i \in DOMAIN v.k}
    \cup {[u |-> "wrap", i |-> i, a |-> v.a, c |-> <<>>, to |-> [v EXCEPT !.k[i] = N("sel", 2, <<v.k[i]>>)]] : i \in {i \in DOMAIN v.k : Fits(v.op, i, N("sel", 2, <<>>)) /\ v # N("sel", 2, <<v.k[i]>>)}}
    \cup UNION {{[u |-> "skip", i |-> i, a |-> j, c |-> <<>>, to |-> [v EXCEPT !.k[i] = v.k[i].k[j]]] : j \in {j \in DOMAIN v.k[i].k : Fits(v.op, i, v.k[i].k[j])}} : i \in DOMAIN v.k}
    \cup (IF v.op \in Binary THEN {[u |-> "swap", i |-> 0, a |-> v.a, c |-> <<>>, to |-> [v EXCEPT !.k = <<v.k[2], v.k[1]>>]]} ELSE {})
    \cup (IF v.op \in Binary /\ 1 \in Variants(v.op) THEN {[u |-> "both", i |-> 2, a |-> x, c |-> <<Rel(2)>>, to |-> [v EXCEPT !.a = x, !.k[2] = Rel(2)]] : x \in Variants(v.op) \ {v.a}} ELSE {})
Result(t, v, w, root) == IF root THEN w ELSE Replace(t, v, w)

(* ------------------------------------------------ trees *)
T0 == {Rel(a) : a \in 1..3}
Over(T, S) == UNION {{N(op, a, <<t>>) : a \in Variants(op), t \in T} : op \in Unary} \cup UNION {{N(op, a, <<t, s>>) : a \in Variants(op), t \in T, s \in S} : op \in Binary}
              \cup UNION {{N(op, a, <<t, N("sub", 1, <<s>>)>>) : a \in Variants(op), t \in T, s \in S} : op \in Semi}
T1 == Over({Rel(1), Rel(3)}, {Rel(1), Rel(3)})
Few == {N("sel", 1, <<Rel(1)>>), N("union", 0, <<Rel(1), Rel(1)>>), N("semi", 1, <<Rel(1), N("sub", 1, <<Rel(1)>>)>>), N("relsub", 1, <<N("sub", 1, <<N("proj", 1, <<Rel(1)>>)>>)>>), N("join", 1, <<Rel(1), N("sel", 1, <<Rel(1)>>)>>)}
T2 == Over(Few, {Rel(1), N("sel", 1, <<Rel(1)>>)})
RE(S) == RandomElement(S)
RECURSIVE Rnd(_, _)
Rnd(d, pool) == LET k == RE(1..6) IN
    IF d <= 0 \/ k = 1 THEN IF pool = {} \/ RE(1..2) = 1 THEN Rel(RE(1..3)) ELSE RE(pool)
    ELSE IF k \in {2, 3} THEN LET op == RE(Unary) a == RE(Variants(op)) IN N(op, a, <<Rnd(d - 1, pool)>>)
    ELSE IF k = 4 THEN LET op == RE(Semi) a == RE(Variants(op)) s == RE(1..2) IN N(op, a, <<Rnd(d - 1, pool), N("sub", s, <<Rnd(d - 1, pool)>>)>>)
    ELSE LET op == RE(Binary) a == RE(Variants(op)) l == Rnd(d - 1, pool) IN N(op, a, <<l, IF RE(1..3) = 1 /\ l \notin T0 THEN Rnd(d - 2, Nodes(l)) ELSE Rnd(d - 1, pool)>>)

Init == first = <<>> /\ tree = <<>> /\ hist = <<>> /\ phase = "build"
Start(t) == phase = "build" /\ first' = t /\ tree' = t /\ hist' = <<>> /\ phase' = "mutate"
Mutate(v, u, root) == /\ tree' = Result(tree, v, u.to, root)
                      /\ hist' = Append(hist, [at |-> v, u |-> u.u, i |-> u.i, a |-> u.a, c |-> u.c, to |-> u.to, root |-> root, tree |-> tree', obs |-> Obs(tree')])
                      /\ phase' = IF Len(hist') = Steps THEN "done" ELSE "mutate"
                      /\ UNCHANGED first
Next == IF Kind = "all" THEN
            \/ \E t \in T0 \cup T1 \cup (IF Depth > 1 THEN T2 ELSE {}) : Start(t)
            \/ phase = "mutate" /\ \E v \in Nodes(tree) : \E u \in Updates(v, Extra) : \E root \in BOOLEAN : Mutate(v, u, root)
        ELSE
            \/ phase = "build" /\ \E t \in {Rnd(Depth, {})} : t \notin T0 /\ Start(t)
            \/ phase = "mutate" /\ \E v \in {RE(Nodes(tree))} : \E kind \in {RE({u.u : u \in Updates(v, Extra \cup Nodes(first))})} :
                                        \E u \in {RE({u \in Updates(v, Extra \cup Nodes(first)) : u.u = kind})} : \E root \in {RE(1..3) = 1} : Mutate(v, u, root)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ properties of the model *)
\* a mutation changes nothing but the node and those above it
Occurs(v, t) == v \in Nodes(t)
TypeOK == phase # "build" => \A n \in Nodes(tree) : n.a \in Variants(n.op) /\ (n.op \in Semi => n.k[2].op = "sub")
Kept == \A i \in DOMAIN hist : Occurs(hist[i].to, hist[i].tree)
Untouched == \A i \in DOMAIN hist : LET before == IF i = 1 THEN first ELSE hist[i - 1].tree IN
                 hist[i].u = "same" => hist[i].tree = (IF hist[i].root THEN hist[i].at ELSE before)
Emitted == phase = "done" => PrintT("@@" \o ToJson([first |-> first, obs |-> Obs(first), hist |-> hist]))
=============================================================================
