------------------------------- MODULE C05 -------------------------------
(* What a query contains: tables, columns, conjuncts, filters, joins, join    *)
(* graph, cross products, bound tables.  A query grows clause by clause; after*)
(* each step every introspection result is determined from the syntax tree.   *)
(*                                                                            *)
(* expressions: <<"col",t,c>> <<"num",n>> <<"bin",op,l,r>> <<"sum",es>>       *)
(*   <<"cast",e>> <<"fn",es>> <<"case",p,e,f>> <<"agg",e,p or <<>>>>          *)
(*   <<"sub",t,e>>: (SELECT max(t.x) FROM t WHERE t.y = e)   <<"win",e,f,g>>  *)
(* predicates: <<"cmp",op,l,r>> <<"btw",e,l,u>> <<"in",e,es>> <<"insub",e,s>> *)
(*   <<"ex",s>> <<"null",e>> <<"not",p>> <<"and",ps>> <<"or",ps>>             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Names, Inner, Kinds, Joins, MinTabs, MaxTabs, MaxSteps, Depth, Sim

VARIABLES q, step, h
vars == <<q, step, h>>

None == <<>>
Cat(ss) == FlattenSeq(ss)
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
SubIn(t) == t \o "_1"
SubIn2(t) == t \o "_2"

(* ------------------------------------------------ columns in reading order *)
RECURSIVE Cols(_), OwnCols(_)
Cols(x) ==                            \* everything, including nested queries
  CASE x = None -> <<>>
    [] x[1] = "col" -> <<<<x[2], x[3]>>>>
    [] x[1] = "num" -> <<>>
    [] x[1] \in {"bin", "cmp"} -> Cols(x[3]) \o Cols(x[4])
    [] x[1] \in {"sum", "fn", "and", "or"} -> Cat(Map(Cols, x[2]))
    [] x[1] \in {"cast", "null", "not", "ex"} -> Cols(x[2])
    [] x[1] \in {"case", "win", "btw"} -> Cols(x[2]) \o Cols(x[3]) \o Cols(x[4])
    [] x[1] \in {"agg", "insub"} -> Cols(x[2]) \o Cols(x[3])
    [] x[1] = "sub" -> <<<<x[2], "x">>, <<x[2], "y">>>> \o Cols(x[3])
    [] x[1] = "in" -> Cols(x[2]) \o Cat(Map(Cols, x[3]))
\* without the columns that occur in nested queries
OwnCols(x) ==
  CASE x = None -> {}
    [] x[1] = "col" -> {<<x[2], x[3]>>}
    [] x[1] \in {"num", "sub"} -> {}
    [] x[1] \in {"bin", "cmp"} -> OwnCols(x[3]) \cup OwnCols(x[4])
    [] x[1] \in {"sum", "fn", "and", "or"} -> UNION {OwnCols(x[2][i]) : i \in DOMAIN x[2]}
    [] x[1] \in {"cast", "null", "not", "ex"} -> OwnCols(x[2])
    [] x[1] \in {"case", "win", "btw"} -> OwnCols(x[2]) \cup OwnCols(x[3]) \cup OwnCols(x[4])
    [] x[1] \in {"agg", "insub"} -> OwnCols(x[2]) \cup OwnCols(x[3])
    [] x[1] = "in" -> OwnCols(x[2]) \cup UNION {OwnCols(x[3][i]) : i \in DOMAIN x[3]}
Tabs(x) == {c[1] : c \in Range(Cols(x))}
OwnTabs(x) == {c[1] : c \in OwnCols(x)}
RECURSIVE Subs(_)                     \* nested queries, named by their table
Subs(x) ==
  CASE x = None \/ x[1] \in {"col", "num"} -> {}
    [] x[1] \in {"bin", "cmp"} -> Subs(x[3]) \cup Subs(x[4])
    [] x[1] \in {"sum", "fn", "and", "or"} -> UNION {Subs(x[2][i]) : i \in DOMAIN x[2]}
    [] x[1] \in {"cast", "null", "not", "ex"} -> Subs(x[2])
    [] x[1] \in {"case", "win", "btw"} -> Subs(x[2]) \cup Subs(x[3]) \cup Subs(x[4])
    [] x[1] \in {"agg", "insub"} -> Subs(x[2]) \cup Subs(x[3])
    [] x[1] = "in" -> Subs(x[2]) \cup UNION {Subs(x[3][i]) : i \in DOMAIN x[3]}
    [] x[1] = "sub" -> {Tabs(x)}

(* ------------------------------------------- joins, filters, join partners *)
\* BETWEEN and IN are judged like the comparisons they abbreviate
Comparisons(p) == CASE p[1] = "btw" -> <<<<"cmp", ">=", p[2], p[3]>>, <<"cmp", "<=", p[2], p[4]>>>>
                    [] p[1] = "in" -> [i \in DOMAIN p[3] |-> <<"cmp", "=", p[2], p[3][i]>>]
                    [] OTHER -> <<p>>
RECURSIVE IsJoin(_), Pairs(_)
IsJoin(p) == IF p[1] \in {"and", "or"} THEN \E i \in DOMAIN p[2] : IsJoin(p[2][i])
             ELSE IF p[1] = "not" THEN IsJoin(p[2])
             ELSE \E i \in DOMAIN Comparisons(p) : Cardinality(OwnTabs(Comparisons(p)[i])) > 1
Pairs(p) == IF p[1] \in {"and", "or"} THEN UNION {Pairs(p[2][i]) : i \in DOMAIN p[2]}
            ELSE IF p[1] = "not" THEN Pairs(p[2])
            ELSE UNION {LET C == OwnCols(Comparisons(p)[i]) IN {{c, d} : c, d \in C} \ {{c, d} : c, d \in {}} : i \in DOMAIN Comparisons(p)}
JoinPairs(p) == {cd \in Pairs(p) : Cardinality({c[1] : c \in cd}) = 2}
TabPairs(p) == {{c[1] : c \in cd} : cd \in JoinPairs(p)}
RECURSIVE Conjuncts(_)                \* a disjunction is split into its filter branches and its join branches
Conjuncts(p) ==
  IF p[1] = "and" THEN Cat(Map(Conjuncts, p[2]))
  ELSE IF p[1] = "or" THEN
    LET Jn == SelectSeq(p[2], IsJoin)
        Fl == SelectSeq(p[2], LAMBDA x : ~IsJoin(x))
        Or(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s ELSE <<<<"or", s>>>> IN Or(Fl) \o Or(Jn)
  ELSE <<p>>

(* ------------------------------------------------------------ whole queries *)
Virtual(k) == k \in {"sub", "sub2", "cte", "set", "val", "fn"}
Col(t, c) == <<"col", t, c>>
InnerPred(t, k) == IF k \in {"sub", "cte"} THEN <<<<"cmp", "=", Col(SubIn(t), "z"), <<"num", 1>>>>>>
                   ELSE IF k = "sub2" THEN <<<<"cmp", "=", Col(SubIn(t), "x"), Col(SubIn2(t), "x")>>, <<"cmp", "<", Col(SubIn(t), "z"), <<"num", 4>>>>>> ELSE <<>>
InnerTabs(t, k) == IF k \in {"sub", "cte"} THEN {SubIn(t)} ELSE IF k \in {"sub2", "set"} THEN {SubIn(t), SubIn2(t)} ELSE {}
InnerCols(t, k) == CASE k \in {"sub", "cte"} -> <<<<SubIn(t), "x">>, <<SubIn(t), "z">>>>
                     [] k = "sub2" -> <<<<SubIn(t), "x">>, <<SubIn(t), "x">>, <<SubIn2(t), "x">>, <<SubIn(t), "z">>>>
                     [] k = "set" -> <<<<SubIn(t), "x">>, <<SubIn2(t), "x">>>>
                     [] k = "val" -> <<<<t, "x">>, <<t, "y">>>>
                     [] OTHER -> <<>>
With(t, ps) == SelectSeq(ps, LAMBDA p : t \in Tabs(p))
RECURSIVE Reach(_, _, _)
Reach(E, S, V) == LET X == {v \in V \ S : \E s \in S : {s, v} \in E} IN IF X = {} THEN S ELSE Reach(E, S \cup X, V)
Conn(E, V) == V = {} \/ Reach(E, {CHOOSE v \in V : TRUE}, V) = V

\* simplified views: column, operator, values; casts are looked through
RECURSIVE Strip(_)
Strip(e) == IF e[1] = "cast" THEN Strip(e[2]) ELSE e
IsCol(e) == Strip(e)[1] = "col"
IsNum(e) == Strip(e)[1] = "num"
Mirror(o) == CASE o = "<" -> ">" [] o = ">" -> "<" [] OTHER -> o
FilterView(p) == CASE p[1] = "cmp" /\ IsCol(p[3]) /\ IsNum(p[4]) -> <<Strip(p[3]), p[2], <<Strip(p[4])[2]>>>>
                   [] p[1] = "cmp" /\ IsNum(p[3]) /\ IsCol(p[4]) -> <<Strip(p[4]), Mirror(p[2]), <<Strip(p[3])[2]>>>>
                   [] p[1] = "btw" /\ IsCol(p[2]) /\ IsNum(p[3]) /\ IsNum(p[4]) -> <<Strip(p[2]), "BETWEEN", <<Strip(p[3])[2], Strip(p[4])[2]>>>>
                   [] p[1] = "in" /\ IsCol(p[2]) /\ \A i \in DOMAIN p[3] : IsNum(p[3][i]) -> <<Strip(p[2]), "IN", [i \in DOMAIN p[3] |-> Strip(p[3][i])[2]]>>
                   [] p[1] = "null" /\ IsCol(p[2]) -> <<Strip(p[2]), "IS", <<>>>>
                   [] OTHER -> <<>>
SimpleJoin(p) == IF p[1] = "cmp" /\ p[2] = "=" /\ IsCol(p[3]) /\ IsCol(p[4]) THEN <<Strip(p[3]), Strip(p[4])>> ELSE <<>>
\* columns that are transitively equal
IsEquiCols(p) == p[1] = "cmp" /\ p[2] = "=" /\ p[3][1] = "col" /\ p[4][1] = "col"
Classes(ps) == LET E == {OwnCols(ps[i]) : i \in DOMAIN ps}  V == UNION E IN {Reach(E, {v}, V) : v \in V}

ObsOf(q0) ==
  LET K(i) == q0.tabs[i]
      I == DOMAIN q0.tabs
      Vs == {K(i).n : i \in I}
      Ons == Map(LAMBDA x : x.on, SelectSeq(q0.tabs, LAMBDA x : x.on # None))
      Preds == q0.where \o Ons \o Cat([i \in I |-> InnerPred(K(i).n, K(i).k)])
      AllC == Cat(Map(Conjuncts, Preds))
      Filters == SelectSeq(AllC, LAMBDA p : ~IsJoin(p))
      JoinPreds == SelectSeq(AllC, IsJoin)
      Exprs == q0.sel \o q0.grp \o q0.ord \o q0.where \o Ons \o (IF q0.hav = None THEN <<>> ELSE <<q0.hav>>)
      Tables == UNION ({Tabs(Exprs[i]) : i \in DOMAIN Exprs} \cup {Vs} \cup {InnerTabs(K(i).n, K(i).k) : i \in I})
      PredTables == UNION {Tabs(Preds[i]) : i \in DOMAIN Preds}
      FromCols == LET F[i \in 0..Len(q0.tabs)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o (IF K(i).k = "cte" THEN <<>> ELSE InnerCols(K(i).n, K(i).k)) \o Cols(K(i).on) IN F[Len(q0.tabs)]
      CteCols == Cat([i \in I |-> IF K(i).k = "cte" THEN InnerCols(K(i).n, K(i).k) ELSE <<>>])
      Columns == CteCols \o Cat(Map(Cols, q0.sel)) \o FromCols \o Cat(Map(Cols, q0.where)) \o Cat(Map(Cols, q0.grp)) \o Cols(q0.hav) \o Cat(Map(Cols, q0.ord))
      FromSubs == {InnerTabs(K(i).n, K(i).k) : i \in {j \in I : K(j).k \in {"sub", "sub2", "set"}}}
      Subqueries == UNION {Subs(Exprs[i]) : i \in DOMAIN Exprs} \cup FromSubs
      \* each nested query only binds its own table; the others come from the context
      Bound == Vs \cup UNION {InnerTabs(K(i).n, K(i).k) : i \in I} \cup (Inner \cap Tables)
      Between(A, B) == SelectSeq(JoinPreds, LAMBDA p : \E e \in TabPairs(p) : e \cap A # {} /\ e \cap B # {} /\ \E a \in A, b \in B : e = {a, b})
      Edges == UNION {TabPairs(JoinPreds[i]) : i \in DOMAIN JoinPreds}
      Natural == {{K(i - 1).n, K(i).n} : i \in {j \in I : j > 1 /\ K(j).j = "natural"}}
      Cross == Len(q0.tabs) > 0 /\ ~Conn(Edges \cup Natural, Vs)
      Groups(t) == LET J == With(t, JoinPreds)  P(p) == {u \in Vs \cup Tables : {t, u} \in TabPairs(p)} IN
                   {[to |-> G, preds |-> SelectSeq(J, LAMBDA p : P(p) = G)] : G \in {P(J[i]) : i \in DOMAIN J}}
      SmallPairs == {AB \in (SUBSET Vs) \X (SUBSET Vs) : AB[1] # {} /\ AB[2] # {} /\ AB[1] \cap AB[2] = {} /\ Cardinality(AB[1] \cup AB[2]) <= 3}
      Connects(S) == IF Cardinality(S) = 1 THEN S \subseteq PredTables ELSE Conn({e \in Edges : e \subseteq S}, S)
      Kind(t) == IF \E i \in I : K(i).n = t THEN K(CHOOSE i \in I : K(i).n = t).k ELSE "inner"
      \* the physical table behind a reference: a, b are aliases of r, c and d of s, v of u
      Base(t) == IF t = "v" THEN "u" ELSE IF Kind(t) # "base" THEN t ELSE IF t \in {"a", "b"} THEN "r" ELSE "s"
      Bases == {Base(t) : t \in PredTables}
      ColPairs == UNION {JoinPairs(JoinPreds[i]) : i \in DOMAIN JoinPreds}
      Merged == [nodes |-> {[n |-> b, aliases |-> {t \in PredTables : Base(t) = b}] : b \in Bases},
                 edges |-> {[b |-> E, on |-> {[cols |-> cd, preds |-> SelectSeq(JoinPreds, LAMBDA p : cd \in JoinPairs(p))] : cd \in {x \in ColPairs : {Base(c[1]) : c \in x} = E}}]
                              : E \in {{Base(c[1]) : c \in x} : x \in ColPairs}}]
      Implicit == \A i \in I : K(i).j = "comma" /\ K(i).k \in {"base", "cte"}
  IN [tables |-> Tables, columns |-> Range(Columns), iter |-> Columns, filters |-> Filters, joins |-> JoinPreds,
          ff |-> [t \in Vs |-> With(t, Filters)], jf |-> [t \in Vs |-> Groups(t)],
          between |-> {[a |-> AB[1], b |-> AB[2], preds |-> Between(AB[1], AB[2])] : AB \in SmallPairs},
          connects |-> {[s |-> S, r |-> Connects(S)] : S \in (SUBSET Vs) \ {{}}},
          nodes |-> PredTables, edges |-> {[e |-> e, preds |-> SelectSeq(JoinPreds, LAMBDA p : e \in TabPairs(p))] : e \in Edges},
          cross |-> Cross, bound |-> Bound, unbound |-> Tables \ Bound, subs |-> Subqueries, implicit |-> Implicit,
          pairs |-> [i \in DOMAIN JoinPreds |-> JoinPairs(JoinPreds[i])], empty |-> Preds = <<>>,
          merged |-> Merged, views |-> [i \in DOMAIN Filters |-> FilterView(Filters[i])], jviews |-> [i \in DOMAIN JoinPreds |-> SimpleJoin(JoinPreds[i])],
          classes |-> Classes(SelectSeq(JoinPreds, IsEquiCols)),
          scalar |-> Len(q0.sel) = 1 /\ q0.sel[1][1] = "agg" /\ q0.grp = <<>>]

(* --------------------------------------------------------------- generation *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
One(S) == CHOOSE x \in S : TRUE
R(S) == RandomElement(S)
RCol(T) == Col(R(T), R({"x", "y"}))
RECURSIVE RE(_, _), RP(_, _), RSub(_, _)
RSub(d, T) == <<"sub", R(Inner), IF R(1..2) = 1 THEN RCol(T) ELSE <<"num", 2>>>>
RE(d, T) == One({CASE k <= 4 \/ d = 0 -> RCol(T)
                   [] k = 5 -> <<"num", R(1..3)>>
                   [] k \in {6, 7} -> <<"bin", R({"+", "-", "*"}), RE(d - 1, T), RE(d - 1, T)>>
                   [] k = 8 -> <<"sum", <<RE(d - 1, T), RCol(T), RE(d - 1, T)>>>>
                   [] k = 9 -> <<"fn", IF R(1..2) = 1 THEN <<RE(d - 1, T)>> ELSE <<RE(d - 1, T), RE(d - 1, T)>>>>
                   [] k = 10 -> <<"cast", RE(d - 1, T)>>
                   [] k = 11 -> <<"case", RP(d - 1, T), RE(d - 1, T), IF R(1..2) = 1 THEN RE(d - 1, T) ELSE None>>
                   [] OTHER -> RSub(d, T) : k \in {R(1..12)}})
RP(d, T) == One({CASE k <= 4 -> <<"cmp", R({"=", "<", "<>", "="}), RE(d, T), RE(d, T)>>
                   [] k = 5 -> <<"cmp", "=", RCol(T), <<"num", 1>>>>
                   [] k = 6 -> <<"btw", RE(d, T), RE(d, T), RE(d, T)>>
                   [] k = 7 -> <<"in", RE(d, T), IF R(1..2) = 1 THEN <<RE(d, T)>> ELSE <<<<"num", 1>>, RE(d, T)>>>>
                   [] k = 8 -> <<"insub", RE(d, T), RSub(d, T)>>
                   [] k = 9 -> <<"ex", RSub(d, T)>>
                   [] k = 10 -> <<"null", RE(d, T)>>
                   [] k = 11 /\ d > 0 -> <<"not", RP(d - 1, T)>>
                   [] k = 12 /\ d > 0 -> <<"and", <<RP(d - 1, T), RP(d - 1, T)>>>>
                   [] k \in {13, 14} /\ d > 0 -> <<"or", IF R(1..2) = 1 THEN <<RP(d - 1, T), RP(d - 1, T)>> ELSE <<RP(d - 1, T), RP(d - 1, T), RP(d - 1, T)>>>>
                   [] OTHER -> <<"cmp", "=", RCol(T), RCol(T)>> : k \in {R(1..14)}})
\* exhaustive pool over two tables
A == Col("a", "x")
B == Col("b", "y")
E0 == {A, B, <<"num", 1>>}
E1 == E0 \cup {<<"bin", "+", l, r>> : l, r \in E0} \cup {<<"fn", <<A, B>>>>, <<"sub", "u", A>>, <<"sub", "u", <<"num", 2>>>>, <<"sum", <<<<"num", 1>>, <<"num", 2>>, B>>>>}
P1 == {<<"cmp", o, l, r>> : o \in {"="}, l \in E1, r \in E1} \cup {<<"btw", l, m, u>> : l \in E0 \cup {<<"bin", "+", A, B>>}, m \in E0 \cup {<<"bin", "+", A, B>>}, u \in E0}
      \cup {<<"in", l, <<m, u>>>> : l \in E0, m \in E0 \cup {<<"fn", <<A, B>>>>}, u \in E0} \cup {<<"null", e>> : e \in E1} \cup {<<"ex", <<"sub", "u", A>>>>} \cup {<<"insub", e, <<"sub", "u", B>>>> : e \in E0}
F1 == {<<"cmp", "=", A, <<"num", 1>>>>, <<"null", B>>, <<"cmp", "=", A, B>>, <<"cmp", "<", B, A>>, <<"ex", <<"sub", "u", A>>>>}
P2 == {<<"not", p>> : p \in F1} \cup {<<o, <<p, r>>>> : o \in {"and", "or"}, p \in F1, r \in F1}
P3 == {<<"not", p>> : p \in P2} \cup {<<o, <<p, r>>>> : o \in {"and", "or"}, p \in P2, r \in {<<"cmp", "=", A, B>>, <<"null", B>>}}
Pool == P1 \cup P2 \cup P3

Vis == {q.tabs[i].n : i \in DOMAIN q.tabs}
Init == q = [tabs |-> <<>>, where |-> <<>>, sel |-> <<>>, grp |-> <<>>, ord |-> <<>>, hav |-> None] /\ step = "new" /\ h = <<>>
Prefix(S, k) == LET O == SetToSeq(S) IN {O[i] : i \in 1..k}
\* FROM: tables a, b, ... in order
Names4 == <<"a", "b", "c", "d">>
Start == /\ step = "new"
         /\ \E n \in Pick(MinTabs..MaxTabs) :
            \E ks \in (IF Sim THEN {[i \in 1..n |-> R(Kinds)]} ELSE [1..n -> Kinds]) :
            \E js \in (IF Sim THEN {[i \in 1..n |-> IF i = 1 THEN "comma" ELSE R(Joins)]} ELSE {f \in [1..n -> Joins \cup {"comma"}] : n = 0 \/ f[1] = "comma"}) :
            \E ons \in {[i \in 1..n |-> IF js[i] \in {"inner", "left"} THEN (IF Sim THEN RP(1, {Names4[j] : j \in 1..i}) ELSE <<"cmp", "=", A, B>>) ELSE None]} :
            \E s \in {IF Sim /\ n > 0 THEN RE(1, {Names4[j] : j \in 1..n}) ELSE <<"num", 1>>} :
               q' = [q EXCEPT !.tabs = [i \in 1..n |-> [n |-> Names4[i], k |-> ks[i], j |-> js[i], on |-> ons[i]]], !.sel = <<s>>]
         /\ step' = "from" /\ UNCHANGED h
Log == h' = Append(h, [q |-> q', obs |-> ObsOf(q')])
Grow == /\ step \in {"from", "grow"} /\ Len(h) < MaxSteps
        /\ step' = "grow"
        /\ \/ step = "from" /\ UNCHANGED q
           \/ step = "grow" /\ IF ~Sim THEN \E p \in Pool : q' = [q EXCEPT !.where = Append(@, p)]
              ELSE \E k \in Pick(1..10) :
                 \/ k <= 5 /\ Vis # {} /\ \E p \in {RP(Depth, Vis)} : q' = [q EXCEPT !.where = Append(@, p)]
                 \/ k = 5 /\ Vis = {} /\ \E p \in {RP(Depth, Inner)} : q' = [q EXCEPT !.sel = Append(@, <<"case", p, <<"num", 1>>, None>>)]
                 \/ k = 6 /\ Vis # {} /\ \E e \in {RE(Depth, Vis)} : q' = [q EXCEPT !.sel = Append(@, e)]
                 \/ k = 7 /\ Vis # {} /\ \E e \in {RE(Depth, Vis)}, p \in {RP(1, Vis)} : q' = [q EXCEPT !.sel = Append(@, <<"agg", e, IF R(1..2) = 1 THEN p ELSE None>>)]
                 \/ k = 8 /\ Vis # {} /\ \E e \in {RE(1, Vis)}, f \in {RE(1, Vis)}, g \in {RE(1, Vis)} : q' = [q EXCEPT !.sel = Append(@, <<"win", e, f, g>>)]
                 \/ k = 9 /\ Vis # {} /\ \E e \in {RE(1, Vis)} : q' = [q EXCEPT !.grp = Append(@, e)]
                 \/ k = 10 /\ Vis # {} /\ \E e \in {RE(1, Vis)}, p \in {RP(1, Vis)}, w \in {R(1..2)} : q' = IF w = 1 THEN [q EXCEPT !.ord = Append(@, e)] ELSE [q EXCEPT !.hav = p]
        /\ Log
Next == Start \/ Grow
Spec == Init /\ [][Next]_vars

Emit == Len(h) = MaxSteps => PrintT("@@" \o ToJson([h |-> IF Sim THEN h ELSE <<h[MaxSteps]>>]))
----------------------------------------------------------------------------
(* laws, on the most recent observation *)
LastObs == h[Len(h)].obs
Partition == h # <<>> => LET o == LastObs IN
  /\ \A i \in DOMAIN o.joins : o.pairs[i] # {} /\ IsJoin(o.joins[i])
  /\ \A i \in DOMAIN o.filters : ~IsJoin(o.filters[i]) /\ Tabs(o.filters[i]) \subseteq o.tables
  /\ (o.empty <=> o.filters = <<>> /\ o.joins = <<>>)
  /\ {x.e : x \in o.edges} \subseteq {{t, u} : t, u \in o.nodes}
JoinsJoin == h # <<>> => LET o == LastObs IN
  \A x \in o.between : Cardinality(x.a \cup x.b) = 2 => (x.preds # <<>> <=> (x.a \cup x.b) \in {y.e : y \in o.edges})
==========================================================================
