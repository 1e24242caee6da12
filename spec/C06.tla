------------------------------- MODULE C06 -------------------------------
(* Query rewrites.  The state is a query (a syntax tree); each action is one    *)
(* of the library's rewrites, and determines the next tree completely.          *)
(*                                                                            *)
(* expressions: <<"col",t,c>> <<"num",n>> <<"star">> <<"tstar",t>> <<"cnt">>     *)
(*   <<"bin",op,l,r>> <<"sum",es>> <<"cast",e>> <<"fn",es>> <<"case",p,e,f>>     *)
(*   <<"scase",e,v,r>> <<"agg",e,p>> <<"aggd",e>> <<"win",e,f,g,p>> <<"arr",es>> *)
(*   <<"idx",e,i>> <<"slice",e,l,u>> <<"any",e>> <<"q",query>>                   *)
(* predicates: <<"cmp",op,l,r>> <<"btw",e,l,u>> <<"in",e,es>> <<"ex",s>>         *)
(*   <<"null",e>> <<"not",p>> <<"and",ps>> <<"or",ps>>                           *)
(* FROM items: <<"tab",n>> <<"sub",n,query,lateral>> <<"val",n,cols,rows>>       *)
(*   <<"fn",n,e>> <<"join",type,l,r,on>>                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS Mode,      \* "clauses" | "predicates" | "random" | "plain" | "tables"
          MaxSteps, Depth

VARIABLES q, loose, step, h
vars == <<q, loose, step, h>>

None == <<>>
Sim == Mode \notin {"clauses", "predicates"}
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Cat(ss) == FlattenSeq(ss)
U(f(_), s) == UNION {f(s[i]) : i \in DOMAIN s}
Col(t, c) == <<"col", t, c>>
Num(n) == <<"num", n>>
Q0 == [kind |-> "sel", op |-> "", parts |-> <<>>, hint |-> None, expl |-> "", cte |-> <<>>, dist |-> None, sel |-> <<>>, from |-> <<>>, where |-> None,
       grp |-> <<>>, hav |-> None, ord |-> <<>>, lim |-> None]
Proj(e) == [e |-> e, as |-> ""]

(* ------------------------------------------------------ shape of the syntax *)
EPos(t) == CASE t \in {"bin", "cmp"} -> {3, 4}
             [] t \in {"cast", "null", "not", "ex", "aggd", "any", "in"} -> {2}
             [] t \in {"case", "scase", "btw", "slice"} -> {2, 3, 4}
             [] t \in {"agg", "idx"} -> {2, 3}
             [] t = "win" -> {2, 3, 4, 5}
             [] OTHER -> {}
LPos(t) == CASE t \in {"sum", "fn", "series", "and", "or", "arr"} -> {2} [] t = "in" -> {3} [] OTHER -> {}

(* everything below an expression, a FROM item, a query *)
RECURSIVE Tabs(_), TabsS(_), TabsQ(_), ColsE(_), ColsS(_), ColsQ(_), HasQ(_), HasQS(_)
Tabs(x) == IF x = None THEN {} ELSE IF x[1] \in {"col", "tstar"} THEN {x[2]} \ {""} ELSE IF x[1] = "q" THEN TabsQ(x[2])
           ELSE UNION {Tabs(x[i]) : i \in EPos(x[1])} \cup UNION {U(Tabs, x[i]) : i \in LPos(x[1])}
TabsS(s) == CASE s[1] = "tab" -> {s[2]} [] s[1] = "sub" -> {s[2]} \cup TabsQ(s[3]) [] s[1] = "val" -> {s[2]} [] s[1] = "fn" -> {s[2]} \cup Tabs(s[3])
              [] s[1] = "join" -> TabsS(s[3]) \cup TabsS(s[4]) \cup Tabs(s[5])
TabsQ(k) == U(TabsQ, k.parts) \cup UNION {{k.cte[i].n} \cup U(TabsQ, k.cte[i].q) : i \in DOMAIN k.cte} \cup U(Tabs, k.dist) \cup UNION {Tabs(k.sel[i].e) : i \in DOMAIN k.sel} \cup U(TabsS, k.from)
            \cup Tabs(k.where) \cup U(Tabs, k.grp) \cup Tabs(k.hav) \cup UNION {Tabs(k.ord[i].e) : i \in DOMAIN k.ord}
ColsE(x) == IF x = None THEN {} ELSE IF x[1] = "col" THEN {<<x[2], x[3]>>} ELSE IF x[1] = "q" THEN ColsQ(x[2])
            ELSE UNION {ColsE(x[i]) : i \in EPos(x[1])} \cup UNION {U(ColsE, x[i]) : i \in LPos(x[1])}
ColsS(s) == CASE s[1] = "tab" -> {} [] s[1] = "sub" -> ColsQ(s[3]) [] s[1] = "val" -> {<<s[2], s[3][i]>> : i \in DOMAIN s[3]} [] s[1] = "fn" -> ColsE(s[3]) [] s[1] = "join" -> ColsS(s[3]) \cup ColsS(s[4]) \cup ColsE(s[5])
ColsRest(k) == U(ColsE, k.dist) \cup UNION {ColsE(k.sel[i].e) : i \in DOMAIN k.sel} \cup ColsE(k.where) \cup U(ColsE, k.grp) \cup ColsE(k.hav) \cup UNION {ColsE(k.ord[i].e) : i \in DOMAIN k.ord}
ColsQ(k) == U(ColsQ, k.parts) \cup UNION {U(ColsQ, k.cte[i].q) \cup {<<k.cte[i].n, k.cte[i].cols[j]>> : j \in DOMAIN k.cte[i].cols} : i \in DOMAIN k.cte} \cup U(ColsS, k.from) \cup ColsRest(k)
HasQ(x) == x # None /\ (x[1] = "q" \/ (\E i \in EPos(x[1]) : HasQ(x[i])) \/ \E i \in LPos(x[1]) : \E j \in DOMAIN x[i] : HasQ(x[i][j]))
HasQS(s) == CASE s[1] = "join" -> HasQS(s[3]) \/ HasQS(s[4]) \/ HasQ(s[5]) [] s[1] = "sub" -> TRUE [] OTHER -> FALSE
Exprs(k) == k.dist \o [i \in DOMAIN k.sel |-> k.sel[i].e] \o (IF k.where = None THEN <<>> ELSE <<k.where>>) \o k.grp \o (IF k.hav = None THEN <<>> ELSE <<k.hav>>) \o [i \in DOMAIN k.ord |-> k.ord[i].e]
Nested(k) == (\E i \in DOMAIN Exprs(k) : HasQ(Exprs(k)[i])) \/ \E i \in DOMAIN k.from : HasQS(k.from[i])
Implicit(k) == k.kind = "sel" /\ k.from # <<>> /\ \A i \in DOMAIN k.from : k.from[i][1] = "tab"
FromKind(k) == IF \A i \in DOMAIN k.from : k.from[i][1] = "tab" THEN "implicit" ELSE IF Len(k.from) = 1 /\ k.from[1][1] = "join" THEN "explicit" ELSE "mixed"
RECURSIVE Leaves(_)
Leaves(s) == IF s[1] = "join" THEN Leaves(s[3]) \o Leaves(s[4]) ELSE <<s>>

(* ---------------------------------------------------------------- predicates *)
RECURSIVE Conj(_), Nodes(_), Without(_, _), Subst(_, _, _), Frag(_, _)
Conj(p) == IF p = None THEN <<>> ELSE IF p[1] = "and" THEN Cat(Map(Conj, p[2])) ELSE <<p>>
And(ps) == IF ps = <<>> THEN None ELSE IF Len(ps) = 1 THEN ps[1] ELSE <<"and", ps>>
Uniq(s) == FoldLeft(LAMBDA acc, x : IF \E j \in DOMAIN acc : acc[j] = x THEN acc ELSE Append(acc, x), <<>>, s)
Flat(p) == IF p = None THEN None ELSE And(Uniq(Conj(p)))
Nodes(p) == IF p = None THEN {} ELSE {p} \cup (IF p[1] \in {"and", "or"} THEN U(Nodes, p[2]) ELSE IF p[1] = "not" THEN Nodes(p[2]) ELSE {})
Kept(op, ps) == LET s == SelectSeq(ps, LAMBDA x : x # None) IN IF s = <<>> THEN None ELSE IF Len(s) = 1 THEN s[1] ELSE <<op, s>>
Without(p, r) == IF p = None \/ p = r THEN None
                ELSE IF p[1] = "not" THEN (LET c == Without(p[2], r) IN IF c = None THEN None ELSE <<"not", c>>)
                ELSE IF p[1] \in {"and", "or"} THEN Kept(p[1], [i \in DOMAIN p[2] |-> Without(p[2][i], r)]) ELSE p
Subst(p, r, n) == IF p = None THEN None ELSE IF p = r THEN n
                  ELSE IF p[1] = "not" THEN <<"not", Subst(p[2], r, n)>>
                  ELSE IF p[1] \in {"and", "or"} THEN <<p[1], [i \in DOMAIN p[2] |-> Subst(p[2][i], r, n)]>> ELSE p
\* the part of a predicate that only concerns some tables
Frag(p, T) == IF p = None THEN None
              ELSE IF p[1] = "not" THEN (LET c == Frag(p[2], T) IN IF c = None THEN None ELSE <<"not", c>>)
              ELSE IF p[1] \in {"and", "or"} THEN Kept(p[1], [i \in DOMAIN p[2] |-> Frag(p[2][i], T)])
              ELSE IF Tabs(p) \subseteq T THEN p ELSE None

(* ------------------------------------------------------------------ renaming *)
\* R = [cols : set of <<<<t, c>>, <<t, c>>>>, tabs : set of <<t, t>>, pre : BOOLEAN]
TabR(R, t) == IF \E m \in R.tabs : m[1] = t THEN (CHOOSE m \in R.tabs : m[1] = t)[2] ELSE t
ColR(R, t, c) == IF \E m \in R.cols : m[1] = <<t, c>> THEN (CHOOSE m \in R.cols : m[1] = <<t, c>>)[2]
                 ELSE <<TabR(R, t), IF R.pre /\ \E m \in R.tabs : m[1] = t THEN t \o "_" \o c ELSE c>>
RECURSIVE Ren(_, _), RenS(_, _), RenQ(_, _)
Ren(R, x) == IF x = None THEN None
             ELSE IF x[1] = "col" THEN <<"col">> \o ColR(R, x[2], x[3])
             ELSE IF x[1] = "tstar" THEN <<"tstar", TabR(R, x[2])>>
             ELSE IF x[1] = "q" THEN <<"q", RenQ(R, x[2])>>
             ELSE [i \in DOMAIN x |-> IF i \in EPos(x[1]) THEN Ren(R, x[i]) ELSE IF i \in LPos(x[1]) THEN [j \in DOMAIN x[i] |-> Ren(R, x[i][j])] ELSE x[i]]
Rows(R, rows) == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> Ren(R, rows[i][j])]]
RenS(R, s) == CASE s[1] = "tab" -> <<"tab", TabR(R, s[2])>>
                [] s[1] = "sub" -> <<"sub", TabR(R, s[2]), RenQ(R, s[3]), s[4]>>
                [] s[1] = "val" -> <<"val", TabR(R, s[2]), [i \in DOMAIN s[3] |-> ColR(R, s[2], s[3][i])[2]], Rows(R, s[4])>>
                [] s[1] = "fn" -> <<"fn", TabR(R, s[2]), Ren(R, s[3])>>
                [] s[1] = "join" -> <<"join", s[2], RenS(R, s[3]), RenS(R, s[4]), Ren(R, s[5])>>
\* tables that become the same table occur once in FROM
RenQ(R, k) == [k EXCEPT !.parts = [i \in DOMAIN k.parts |-> RenQ(R, k.parts[i])],
                        !.cte = [i \in DOMAIN k.cte |-> [k.cte[i] EXCEPT !.n = TabR(R, @), !.q = [j \in DOMAIN @ |-> RenQ(R, @[j])],
                                                                          !.cols = [j \in DOMAIN @ |-> ColR(R, k.cte[i].n, @[j])[2]], !.rows = Rows(R, @)]],
                        !.dist = [i \in DOMAIN @ |-> Ren(R, @[i])], !.sel = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = Ren(R, @)]],
                        !.from = Uniq([i \in DOMAIN @ |-> RenS(R, @[i])]),
                        !.where = Ren(R, @), !.grp = [i \in DOMAIN @ |-> Ren(R, @[i])], !.hav = Ren(R, @), !.ord = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = Ren(R, @)]]]

(* ------------------------------------------- replacing top-level expressions *)
RECURSIVE TopP(_, _, _), TopS(_, _, _), TopQ(_, _, _), Tops(_)
Rep(x, y, e) == IF e = x THEN y ELSE e
TopP(x, y, p) == IF p = None THEN None
                 ELSE IF p[1] \in {"and", "or"} THEN <<p[1], [i \in DOMAIN p[2] |-> TopP(x, y, p[2][i])]>>
                 ELSE IF p[1] = "not" THEN <<"not", TopP(x, y, p[2])>>
                 ELSE [i \in DOMAIN p |-> IF i \in EPos(p[1]) THEN Rep(x, y, p[i]) ELSE IF i \in LPos(p[1]) THEN [j \in DOMAIN p[i] |-> Rep(x, y, p[i][j])] ELSE p[i]]
TopRows(x, y, rows) == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> Rep(x, y, rows[i][j])]]
TopS(x, y, s) == CASE s[1] = "tab" -> s [] s[1] = "sub" -> <<"sub", s[2], TopQ(x, y, s[3]), s[4]>> [] s[1] = "val" -> <<"val", s[2], s[3], TopRows(x, y, s[4])>>
                   [] s[1] = "fn" -> <<"fn", s[2], Rep(x, y, s[3])>> [] s[1] = "join" -> <<"join", s[2], TopS(x, y, s[3]), TopS(x, y, s[4]), TopP(x, y, s[5])>>
TopQ(x, y, k) == [k EXCEPT !.parts = [i \in DOMAIN k.parts |-> TopQ(x, y, k.parts[i])],
                           !.cte = [i \in DOMAIN k.cte |-> [k.cte[i] EXCEPT !.q = [j \in DOMAIN @ |-> TopQ(x, y, @[j])], !.rows = TopRows(x, y, @)]],
                           !.dist = [i \in DOMAIN @ |-> Rep(x, y, @[i])], !.sel = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = Rep(x, y, @)]],
                           !.from = [i \in DOMAIN @ |-> TopS(x, y, @[i])], !.where = TopP(x, y, @), !.grp = [i \in DOMAIN @ |-> Rep(x, y, @[i])],
                           !.hav = TopP(x, y, @), !.ord = [i \in DOMAIN @ |-> [@[i] EXCEPT !.e = Rep(x, y, @)]]]
PArgs(p) == UNION {{n[i] : i \in EPos(n[1])} \cup UNION {Range(n[i]) : i \in LPos(n[1])} : n \in {m \in Nodes(p) : m[1] \notin {"and", "or", "not"}}}
Tops(k) == {k.sel[i].e : i \in DOMAIN k.sel} \cup PArgs(k.where) \cup Range(k.grp) \cup PArgs(k.hav) \cup {k.ord[i].e : i \in DOMAIN k.ord} \cup U(Tops, k.parts)
           \cup Range(k.dist) \cup UNION {U(Tops, k.cte[i].q) : i \in DOMAIN k.cte}

(* ----------------------------------------------------------- clause by clause *)
ClauseTypes == {"hint", "explain", "cte", "select", "from", "where", "group", "having", "order", "limit"}
Has(k, c) == CASE c = "hint" -> k.hint # None [] c = "explain" -> k.expl # "" [] c = "cte" -> k.cte # <<>> [] c = "select" -> TRUE [] c = "from" -> k.from # <<>>
               [] c = "where" -> k.where # None [] c = "group" -> k.grp # <<>> [] c = "having" -> k.hav # None [] c = "order" -> k.ord # <<>> [] c = "limit" -> k.lim # None
\* copies one clause of query v into query k
Set(k, c, v) == CASE c = "hint" -> [k EXCEPT !.hint = v.hint] [] c = "explain" -> [k EXCEPT !.expl = v.expl] [] c = "cte" -> [k EXCEPT !.cte = v.cte]
                  [] c = "select" -> [k EXCEPT !.sel = v.sel, !.dist = v.dist] [] c = "from" -> [k EXCEPT !.from = v.from] [] c = "where" -> [k EXCEPT !.where = v.where]
                  [] c = "group" -> [k EXCEPT !.grp = v.grp] [] c = "having" -> [k EXCEPT !.hav = v.hav] [] c = "order" -> [k EXCEPT !.ord = v.ord] [] c = "limit" -> [k EXCEPT !.lim = v.lim]
SetAll(k, cs, v) == [k EXCEPT !.hint = IF "hint" \in cs THEN v.hint ELSE @, !.expl = IF "explain" \in cs THEN v.expl ELSE @, !.cte = IF "cte" \in cs THEN v.cte ELSE @,
                              !.sel = IF "select" \in cs THEN v.sel ELSE @, !.dist = IF "select" \in cs THEN v.dist ELSE @, !.from = IF "from" \in cs THEN v.from ELSE @,
                              !.where = IF "where" \in cs THEN v.where ELSE @, !.grp = IF "group" \in cs THEN v.grp ELSE @, !.hav = IF "having" \in cs THEN v.hav ELSE @,
                              !.ord = IF "order" \in cs THEN v.ord ELSE @, !.lim = IF "limit" \in cs THEN v.lim ELSE @]
\* only clauses that are present are replaced; FROM only by the same or a more specific kind
Replaceable(k, v) == {c \in ClauseTypes : Has(v, c) /\ Has(k, c) /\ (c = "from" => FromKind(k) \in {"mixed", FromKind(v)})}

(* ------------------------------------------------------------ larger rewrites *)
SelStar(k) == [k EXCEPT !.sel = <<Proj(<<"star">>)>>, !.dist = None]
SelCount(k) == [k EXCEPT !.sel = <<Proj(<<"cnt">>)>>, !.dist = None]
FromTabs(k) == {k.from[i][2] : i \in DOMAIN k.from}
RECURSIVE Fragment(_, _, _)
Fragment(k, T, pr) ==
  LET In(x) == Tabs(x) \subseteq T
      Ts == SelectSeq(k.sel, LAMBDA p : In(p.e))
      D == IF k.dist = <<<<"all">>>> THEN k.dist ELSE SelectSeq(k.dist, In)
  IN IF k.kind = "set" THEN [k EXCEPT !.parts = [i \in 1..2 |-> Fragment(@[i], T, pr)], !.ord = SelectSeq(@, LAMBDA o : In(o.e))]
     ELSE [Q0 EXCEPT !.cte = SelectSeq(k.cte, LAMBDA w : w.n \in T),
                     !.sel = IF pr = "count_star" THEN <<Proj(<<"cnt">>)>> ELSE IF pr # "keep" \/ Ts = <<>> THEN <<Proj(<<"star">>)>> ELSE Ts,
                     !.dist = IF pr = "keep" THEN D ELSE None,
                     !.from = SelectSeq(k.from, LAMBDA s : s[2] \in T), !.where = Frag(k.where, T), !.grp = SelectSeq(k.grp, In), !.hav = Frag(k.hav, T),
                     !.ord = SelectSeq(k.ord, LAMBDA o : In(o.e)), !.lim = k.lim]
\* conditions of (inner) joins
RECURSIVE Ons(_), InnerOnly(_)
Ons(s) == IF s[1] = "join" THEN Ons(s[3]) \o Ons(s[4]) \o (IF s[5] = None THEN <<>> ELSE <<s[5]>>) ELSE <<>>
InnerOnly(s) == CASE s[1] = "tab" -> TRUE [] s[1] = "join" -> s[2] = "inner" /\ InnerOnly(s[3]) /\ InnerOnly(s[4]) [] OTHER -> FALSE
ToImplicit(k) == [k EXCEPT !.from = Cat(Map(Leaves, @)), !.where = Flat(And((IF @ = None THEN <<>> ELSE <<@>>) \o Cat(Map(Ons, k.from))))]
\* all pairs of columns that have to be equal
RECURSIVE Reach(_, _, _)
Reach(E, S, V) == LET X == {v \in V \ S : \E s \in S : {s, v} \in E} IN IF X = {} THEN S ELSE Reach(E, S \cup X, V)
EquiEdges(ps) == {{<<ps[i][3][2], ps[i][3][3]>>, <<ps[i][4][2], ps[i][4][3]>>} :
                    i \in {j \in DOMAIN ps : ps[j][1] = "cmp" /\ ps[j][2] = "=" /\ ps[j][3][1] = "col" /\ ps[j][4][1] = "col" /\ ps[j][3][2] # ps[j][4][2]}}
Implied(ps) == LET E == EquiEdges(ps)  V == UNION E IN {{v, w} : v \in V, w \in V} \ ({{v} : v \in V} \cup E)
Order2(S) == LET s == SetToSeq(S) IN IF Len(s) = 1 THEN <<s[1], s[1]>> ELSE s
ImpliedPairs(ps) == LET E == EquiEdges(ps)  V == UNION E IN {e \in {{v, w} : v \in V, w \in V} : Cardinality(e) = 2 /\ e \notin E /\ LET v == CHOOSE x \in e : TRUE IN e \subseteq Reach(E, {v}, V)}
CloseEc(k) == LET ps == Conj(k.where)  N == SetToSeq(ImpliedPairs(ps)) IN
  [k EXCEPT !.where = And(ps \o [i \in DOMAIN N |-> LET o == Order2(N[i]) IN <<"cmp", "=", <<"col">> \o o[1], <<"col">> \o o[2]>>])]
\* tables T become a subquery called n
Exported(k, T) == {c \in ColsRest(k) : c[1] \in T}
IntoSub(k, T, n) ==
  LET ps == Conj(k.where)
      Mine == SelectSeq(ps, LAMBDA p : Tabs(p) # {} /\ Tabs(p) \subseteq T)
      Rest == SelectSeq(ps, LAMBDA p : ~(Tabs(p) # {} /\ Tabs(p) \subseteq T))
      C == SetToSeq(Exported(k, T))
      S == [Q0 EXCEPT !.sel = IF C = <<>> THEN <<Proj(<<"star">>)>> ELSE [i \in DOMAIN C |-> Proj(<<"col">> \o C[i])], !.from = SelectSeq(k.from, LAMBDA s : s[2] \in T), !.where = And(Mine)]
      R == [cols |-> {<<c, <<n, c[2]>>>> : c \in Exported(k, T)}, tabs |-> {}, pre |-> FALSE]
      K == RenQ(R, [k EXCEPT !.where = And(Rest), !.from = <<>>])
  IN [K EXCEPT !.from = SelectSeq(k.from, LAMBDA s : s[2] \notin T) \o <<<<"sub", n, S, FALSE>>>>]

(* ---------------------------------------------------------------- generation *)
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
One(S) == CHOOSE x \in S : TRUE
R(S) == RandomElement(S)
Flip(n) == R(1..n) = 1
RCol(T) == Col(R(T), R({"x", "y"}))
RECURSIVE RE(_, _), RP(_, _), RQ(_, _, _), RS(_, _, _)
\* a nested query that yields one column; it may refer to the tables around it
RSub(d, T) == LET t == R({"u", "v"})  C == RCol(T) IN
  <<"q", [Q0 EXCEPT !.sel = <<Proj(<<"agg", Col(t, "x"), None>>)>>, !.from = <<<<"tab", t>>>>, !.where = <<"cmp", "=", Col(t, "y"), IF Flip(2) THEN C ELSE Num(2)>>]>>
RE(d, T) == One({CASE k <= 4 \/ d = 0 -> RCol(T)
                   [] k = 5 -> Num(R(1..3))
                   [] k \in {6, 7} -> <<"bin", R({"+", "-", "*"}), RE(d - 1, T), RE(d - 1, T)>>
                   [] k = 8 -> <<"sum", <<RE(d - 1, T), RCol(T), RE(d - 1, T)>>>>
                   [] k = 9 -> <<"fn", IF Flip(2) THEN <<RE(d - 1, T)>> ELSE <<RE(d - 1, T), RE(d - 1, T)>>>>
                   [] k = 10 -> <<"cast", RE(d - 1, T)>>
                   [] k = 11 -> <<"case", RP(d - 1, T), RE(d - 1, T), IF Flip(2) THEN RE(d - 1, T) ELSE None>>
                   [] k = 12 -> <<"scase", RE(d - 1, T), RE(d - 1, T), RE(d - 1, T)>>
                   [] k = 13 /\ Mode # "plain" -> <<"idx", <<"arr", <<RCol(T), Num(1)>>>>, RE(d - 1, T)>>
                   [] k = 14 /\ Mode # "plain" -> <<"slice", <<"arr", <<RCol(T), RCol(T)>>>>, IF Flip(2) THEN RE(d - 1, T) ELSE Num(1), IF Flip(2) THEN RE(d - 1, T) ELSE None>>
                   [] k = 15 /\ Mode # "plain" -> RSub(d, T)
                   [] OTHER -> RCol(T) : k \in {R(1..15)}})
RP(d, T) == One({CASE k <= 3 -> <<"cmp", R({"=", "<", "<>"}), RE(d, T), RE(d, T)>>
                   [] k = 4 -> <<"cmp", "=", RCol(T), Num(1)>>
                   [] k = 5 -> <<"btw", RE(d, T), RE(d, T), RE(d, T)>>
                   [] k = 6 -> <<"in", RE(d, T), IF Flip(2) THEN <<RE(d, T)>> ELSE <<Num(1), RE(d, T)>>>>
                   [] k = 7 /\ Mode # "plain" -> <<"in", RE(d, T), <<RSub(d, T)>>>>
                   [] k = 8 /\ Mode # "plain" -> <<"ex", RSub(d, T)>>
                   [] k = 9 -> <<"null", RE(d, T)>>
                   [] k = 10 /\ Mode # "plain" -> <<"cmp", "=", RE(d, T), <<"any", IF Flip(2) THEN RSub(d, T) ELSE <<"arr", <<RCol(T), Num(2)>>>>>>>>
                   [] k = 11 /\ d > 0 -> <<"not", RP(d - 1, T)>>
                   [] k = 12 /\ d > 0 -> <<"and", <<RP(d - 1, T), RP(d - 1, T)>>>>
                   [] k \in {13, 14} /\ d > 0 -> <<"or", IF Flip(2) THEN <<RP(d - 1, T), RP(d - 1, T)>> ELSE <<RP(d - 1, T), RP(d - 1, T), RP(d - 1, T)>>>>
                   [] OTHER -> <<"cmp", "=", RCol(T), RCol(T)>> : k \in {R(1..15)}})
Small(t) == [Q0 EXCEPT !.sel = <<[e |-> Col(t, "x"), as |-> ""], [e |-> Col(t, "y"), as |-> IF Flip(2) THEN "y" ELSE ""]>>, !.from = <<<<"tab", t>>>>, !.where = IF Flip(2) THEN <<"cmp", "=", Col(t, "x"), Num(1)>> ELSE None]
RSet(t, u) == [Q0 EXCEPT !.kind = "set", !.op = R({"UNION", "UNION ALL", "EXCEPT", "INTERSECT"}), !.parts = <<Small(t), Small(u)>>]
\* the n-th FROM item
RS(n, k, T) == CASE k = "tab" -> <<"tab", n>>
                 [] k = "sub" -> <<"sub", n, IF Flip(3) THEN RSet("u", "v") ELSE IF T # {} /\ Flip(3) THEN [Small("u") EXCEPT !.where = <<"cmp", "=", Col("u", "x"), RCol(T)>>] ELSE Small("u"), T # {} /\ Flip(3)>>
                 [] k = "val" -> <<"val", n, <<"x", "y">>, <<<<Num(1), Num(2)>>, <<Num(2), IF T # {} /\ Flip(3) THEN RCol(T) ELSE Num(3)>>>>>>
                 [] k = "fn" -> <<"fn", n, <<"series", <<Num(1), IF T # {} /\ Flip(3) THEN RCol(T) ELSE Num(3)>>>>>>
Names == <<"a", "b", "c", "d">>
Cte(n, d) == IF n = "k" THEN [n |-> "k", q |-> <<>>, cols |-> <<"x", "y">>, rows |-> <<<<Num(1), Num(2)>>>>, mat |-> ""]
             ELSE [n |-> n, q |-> <<IF Flip(3) THEN RSet("u", "v") ELSE Small("v")>>, cols |-> <<>>, rows |-> <<>>, mat |-> R({"", "", "yes", "no"})]
ROrd(T) == [e |-> IF Flip(5) THEN Col("", "o") ELSE RE(1, T), d |-> R({"", "asc", "desc"}), n |-> R({"", "first", "last"})]
Seq012(f(_), z) == CASE R(1..3) = 1 -> <<>> [] R(1..2) = 1 -> <<f(z)>> [] OTHER -> <<f(z), f(z)>>
RExprs(n, d, T) == [i \in 1..n |-> RE(d, T)]
RFrom(n, sh, ns) ==
  LET T(i) == {ns[j] : j \in 1..i}
      Kind(i) == IF sh \in {"implicit", "joins"} \/ Mode = "plain" \/ ns[i] \in {"w", "k"} THEN "tab" ELSE R({"tab", "tab", "tab", "sub", "val", "fn"})
      It == [i \in 1..n |-> RS(ns[i], Kind(i), IF sh = "implicit" THEN {} ELSE T(i - 1))]
      JT(i) == IF Mode = "plain" THEN "inner" ELSE R({"inner", "inner", "left", "cross"})
      J[i \in 1..n] == IF i = 1 THEN It[1] ELSE One({<<"join", jt, J[i - 1], It[i], IF jt = "cross" THEN None ELSE RP(1, T(i))>> : jt \in {JT(i)}})
  IN IF n = 0 THEN <<>> ELSE IF sh = "implicit" THEN It ELSE IF sh \in {"explicit", "joins"} THEN <<J[n]>>
     ELSE IF n > 2 THEN <<It[1], One({<<"join", jt, It[2], It[3], IF jt = "cross" THEN None ELSE RP(1, {ns[2], ns[3]})>> : jt \in {JT(3)}})>> \o SubSeq(It, 4, n) ELSE It
RQ(n, sh, d) ==
  LET ns == IF Mode # "plain" /\ Flip(4) THEN <<"w", "a", "k", "b">> ELSE Names
      T == {ns[i] : i \in 1..n}
      P(m) == IF Flip(m) THEN RP(d, T) ELSE None
      Agg == Mode # "plain" \/ Flip(3)
  IN [Q0 EXCEPT !.from = RFrom(n, sh, ns),
                !.sel = One({IF Mode = "plain" THEN (IF m = 1 THEN <<Proj(<<"cnt">>)>> ELSE [i \in 1..m |-> [e |-> RE(d, T), as |-> R({"", "o"})]])
                         ELSE CASE m = 1 /\ Flip(2) -> <<Proj(<<"star">>)>> [] m = 2 /\ Flip(2) -> <<Proj(<<"tstar", R(T)>>), Proj(RE(d, T))>>
                                [] m = 3 -> <<Proj(<<"agg", RE(1, T), IF Flip(2) THEN RP(1, T) ELSE None>>), Proj(<<"cnt">>), Proj(<<"aggd", RE(1, T)>>)>>
                                [] m = 4 -> <<[e |-> <<"win", RE(1, T), RE(1, T), RE(1, T), IF Flip(2) THEN RP(1, T) ELSE None>>, as |-> "o"]>>
                                [] m = 5 -> <<[e |-> RP(1, T), as |-> "o"], Proj(Num(1))>>
                                [] OTHER -> <<[e |-> RE(d, T), as |-> R({"", "o"})], Proj(RE(1, T))>> : m \in {R(1..7)}}),
                !.dist = IF Mode = "plain" THEN None ELSE One({CASE m = 1 -> <<<<"all">>>> [] m = 2 -> <<RE(1, T), RCol(T)>> [] OTHER -> None : m \in {R(1..5)}}),
                !.cte = IF "w" \in T THEN (IF "k" \in T THEN <<Cte("w", d), Cte("k", d)>> ELSE <<Cte("w", d)>>) ELSE <<>>,
                !.where = IF Flip(4) THEN None ELSE One({IF m = 1 THEN RP(d, T) ELSE <<"and", [i \in 1..m |-> IF Flip(2) THEN <<"cmp", "=", RCol(T), RCol(T)>> ELSE RP(d, T)]>> : m \in {R(1..4)}}),
                !.grp = IF Mode # "plain" /\ Flip(3) THEN RExprs(R(1..2), 1, T) ELSE <<>>,
                !.hav = IF Mode # "plain" THEN P(4) ELSE None,
                !.ord = IF Mode # "plain" /\ Flip(3) THEN [i \in 1..R(1..2) |-> ROrd(T)] ELSE <<>>,
                !.lim = IF Mode # "plain" /\ Flip(4) THEN R({<<3, -1>>, <<-1, 2>>, <<4, 1>>}) ELSE None,
                !.hint = IF Mode # "plain" /\ Flip(4) THEN R({<<"SET x = 1;", "">>, <<"", "/*+ h */">>, <<"SET y = 2;", "/*+ g */">>}) ELSE None,
                !.expl = IF Mode # "plain" /\ Flip(5) THEN R({"plan", "analyze"}) ELSE ""]
RTop(d) == IF Mode = "random" /\ Flip(6)
           THEN [RSet("a", "b") EXCEPT !.ord = IF Flip(2) THEN <<[e |-> Col("", "y"), d |-> "desc", n |-> ""]>> ELSE <<>>, !.lim = IF Flip(2) THEN <<2, -1>> ELSE None,
                                       !.cte = IF Flip(3) THEN <<Cte("w", 1)>> ELSE <<>>,
                                       !.hint = IF Flip(3) THEN <<"", "/*+ h */">> ELSE None, !.expl = IF Flip(4) THEN "plan" ELSE "",
                                       !.parts = IF Flip(2) THEN <<RQ(2, "implicit", 1), @[2]>> ELSE @]
           ELSE RQ(R(IF Mode = "plain" THEN 2..4 ELSE 1..4), One({IF m <= 2 \/ Mode = "tables" THEN "implicit" ELSE IF m = 3 THEN "explicit" ELSE "mixed" : m \in {R(1..4)}}), d)
\* set queries do not explain their parts
Tidy(k) == IF k.kind = "set" THEN [k EXCEPT !.parts = [i \in DOMAIN @ |-> [@[i] EXCEPT !.expl = ""]]] ELSE k

(* exhaustive mode: every subset of the clauses *)
A == Col("a", "x")
B == Col("b", "y")
Full == [Q0 EXCEPT !.hint = <<"SET x = 1;", "/*+ h */">>, !.expl = "plan", !.cte = <<[n |-> "k", q |-> <<>>, cols |-> <<"x", "y">>, rows |-> <<<<Num(1), Num(2)>>>>, mat |-> ""]>>,
                   !.dist = <<<<"all">>>>, !.sel = <<[e |-> A, as |-> "o"], Proj(B)>>, !.from = <<<<"tab", "a">>, <<"tab", "b">>>>, !.where = <<"cmp", "=", A, B>>,
                   !.grp = <<A, B>>, !.hav = <<"cmp", "<", A, Num(3)>>, !.ord = <<[e |-> B, d |-> "desc", n |-> "last"]>>, !.lim = <<4, 1>>]
\* values for new clauses
Other == [Q0 EXCEPT !.hint = <<"", "/*+ g */">>, !.expl = "analyze", !.cte = <<[n |-> "w", q |-> <<[Q0 EXCEPT !.sel = <<Proj(Col("v", "x"))>>, !.from = <<<<"tab", "v">>>>]>>, cols |-> <<>>, rows |-> <<>>, mat |-> "yes"]>>,
                    !.sel = <<Proj(<<"bin", "+", A, Num(1)>>)>>, !.from = <<<<"tab", "a">>, <<"tab", "c">>>>, !.where = <<"null", A>>, !.grp = <<A>>, !.hav = <<"null", A>>,
                    !.ord = <<[e |-> A, d |-> "", n |-> ""]>>, !.lim = <<7, -1>>]
JoinFrom == <<<<"join", "inner", <<"tab", "a">>, <<"tab", "b">>, <<"cmp", "=", A, B>>>>>>
MixedFrom == <<<<"tab", "a">>, <<"sub", "e", [Q0 EXCEPT !.sel = <<Proj(Col("u", "y"))>>, !.from = <<<<"tab", "u">>>>], FALSE>>>>
F1 == {<<"cmp", "=", A, Num(1)>>, <<"null", B>>, <<"cmp", "=", A, B>>}
P2 == F1 \cup {<<"not", p>> : p \in F1} \cup {<<o, <<p, r>>>> : o \in {"and", "or"}, p \in F1, r \in F1}
P3 == P2 \cup {<<"not", p>> : p \in P2} \cup {<<o, <<p, r>>>> : o \in {"and", "or"}, p \in P2, r \in P2}

Init == step = 0 /\ loose = FALSE /\
        (CASE Mode = "clauses" -> \E cs \in SUBSET (ClauseTypes \ {"select"}) : \E f \in {Full.from, JoinFrom, MixedFrom} :
                                   q = [SetAll(Q0, cs \cup {"select"}, Full) EXCEPT !.from = IF "from" \in cs THEN f ELSE <<>>] /\ (f # Full.from => "from" \in cs /\ Cardinality(cs) > 6)
          [] Mode = "predicates" -> \E p \in P3 : q = [Q0 EXCEPT !.sel = <<Proj(A)>>, !.from = Full.from, !.where = p]
          [] OTHER -> q = Q0)
        /\ h = (IF Sim THEN <<>> ELSE <<[op |-> "start", a |-> <<>>, q |-> q]>>)
Log(op, args) == h' = Append(h, [op |-> op, a |-> args, q |-> q'])
Begin == Sim /\ step = 0 /\ q' = Tidy(RTop(Depth)) /\ Log("start", <<>>) /\ step' = 1 /\ UNCHANGED loose
Go(op, args, k, l) == q' = k /\ Log(op, args) /\ step' = step + 1 /\ loose' = (loose \/ l)
Stop(op, args, k) == q' = k /\ Log(op, args) /\ step' = 99 /\ UNCHANGED loose
Single == q.kind = "sel"
Preds == {p \in Nodes(q.where) \cup Nodes(q.hav) : loose => p[1] # "and"}
\* which values are available for added or replaced clauses
Values(z) == IF Sim THEN {Tidy([RQ(2, R({"implicit", "joins"}), 1) EXCEPT !.cte = <<>>])} ELSE {[Other EXCEPT !.from = f] : f \in {Other.from, JoinFrom, MixedFrom}}
Some(S) == {{s} : s \in S} \cup {S, S \ {"from", "where"}}
Clauses ==
  \/ Single /\ Go("star", <<>>, SelStar(q), FALSE)
  \/ Single /\ Go("count_star", <<>>, SelCount(q), FALSE)
  \/ \E prep \in Pick({TRUE, FALSE}) : Go("drop_hints", <<prep>>, [q EXCEPT !.hint = IF prep /\ @ # None /\ @[2] # "" THEN <<"", @[2]>> ELSE None], FALSE)
  \/ \E e \in Pick({"plan", "analyze"}) : Go("explain", <<e>>, [q EXCEPT !.expl = e], FALSE)
  \/ \E cs \in Pick(IF Sim THEN (SUBSET (ClauseTypes \ {"select"})) \ {{}} ELSE Some(ClauseTypes \ {"select"})) : \E inst \in Pick({TRUE, FALSE}) :
        LET C == IF inst THEN {c \in cs : Has(q, c)} ELSE cs IN C # {} /\ (Single \/ C \subseteq {"hint", "explain", "cte", "order", "limit"}) /\ Go("drop", <<SetToSeq(C), inst>>, SetAll(q, C, Q0), FALSE)
  \* (a name that stands for a subquery is not used for a table as well)
  \/ (~Sim \/ q.kind = "set" \/ q.from # <<>>) /\ (\A i \in DOMAIN q.from : \A l \in Range(Leaves(q.from[i])) : l[1] = "tab") /\ \E v \in Values(step) : \E cs \in Pick(IF Sim THEN (SUBSET ClauseTypes) \ {{}} ELSE Some(ClauseTypes)) : \E w \in Pick({"add", "replace"}) :
        LET C == {c \in cs : Has(v, c)} IN
        C # {} /\ (Single \/ C \subseteq {"hint", "explain", "cte", "order", "limit"}) /\
        IF w = "add" THEN Go("add", <<SetToSeq(C), v>>, SetAll(q, C, v), FALSE) ELSE Go("replace", <<SetToSeq(C), v>>, SetAll(q, C \cap Replaceable(q, v), v), FALSE)
Predicates ==
  \/ Single /\ q.where # None /\ \E p \in Pick(Preds) : Go("remove_predicate", <<p>>, [q EXCEPT !.where = Without(@, p)], FALSE)
  \/ Single /\ q.where # None /\ Go("flatten", <<>>, [q EXCEPT !.where = Flat(@)], TRUE)
  \/ Single /\ \E p \in Pick(Preds), n \in (IF Sim /\ TabsQ(q) # {} THEN {RP(1, {t \in TabsQ(q) : t \in {"a", "b", "c", "d", "w", "k", "u", "v"}} \cup {"a"})} ELSE {<<"cmp", "<", A, Num(7)>>}) :
        Go("replace_predicate", <<p, n>>, [q EXCEPT !.where = Subst(@, p, n), !.hav = Subst(@, p, n)], FALSE)
RenCols == LET C == {c \in ColsQ(q) : c[1] # ""}  N == {<<c, <<c[1], "z">>>> : c \in C} \cup {<<c, <<c[1], IF c[2] = "x" THEN "y" ELSE "x">>>> : c \in C} \cup {<<c, <<"m", c[2]>>>> : c \in C}
           IN C # {} /\ \E n \in Pick(1..3), m1 \in Pick(N), m2 \in Pick(N), m3 \in Pick(N) :
              LET M == <<m1, m2, m3>>
                  Fixed == U(LAMBDA s : {l[2] : l \in {x \in Range(Leaves(s)) : x[1] = "val"}}, q.from) \cup {q.cte[i].n : i \in {j \in DOMAIN q.cte : q.cte[j].cols # <<>>}}   \* the columns of VALUES lists stay with their table
                  S == {M[i] : i \in {j \in 1..n : (M[j][1][1] \in Fixed => M[j][2][1] = M[j][1][1]) /\ \A l \in 1..(j - 1) : M[l][1] # M[j][1]}}
              IN S # {} /\ Go("rename_columns", <<SetToSeq(S)>>, RenQ([cols |-> S, tabs |-> {}, pre |-> FALSE], q), FALSE)
RenTabs == LET T == TabsQ(q) IN T # {} /\ \E t \in Pick(T) : \E pre \in {(t \in {"a", "b", "c", "d"}) /\ Implicit(q) /\ ~Nested(q) /\ Flip(3)} :
              "m" \notin T /\ Go("rename_table", <<<<<<t, "m">>>>, pre, Flip(2)>>, RenQ([cols |-> {}, tabs |-> {<<t, "m">>}, pre |-> pre], q), FALSE)
\* several tables at once, also such that tables are swapped, shifted or merged
RenMany == LET T == FromTabs(q) IN Implicit(q) /\ ~Nested(q) /\ q.cte = <<>> /\ "m" \notin T /\
           \/ \E f \in Pick([T -> T \cup {"m"}]) : LET M == {<<t, f[t]>> : t \in {x \in T : f[x] # x}} IN M # {} /\ \E pre \in Pick({TRUE, FALSE}) :
                 Go("rename_table", <<SetToSeq(M), pre, FALSE>>, RenQ([cols |-> {}, tabs |-> M, pre |-> pre], q), FALSE)
           \/ \E S \in Pick((SUBSET T) \ {{}}) : Go("merge_tables", <<SetToSeq(S), "m">>, RenQ([cols |-> {}, tabs |-> {<<t, "m">> : t \in S}, pre |-> FALSE], q), FALSE)
RepExpr == \E x \in Pick(Tops(q) \ {None, <<"star">>, <<"all">>}) : x[1] \notin {"q", "any"} /\ \E y \in {IF Flip(2) THEN Num(9) ELSE <<"bin", "+", Num(9), Col("a", "y")>>} :
              q.dist # <<<<"all">>>> /\ Go("replace_expressions", <<x, y>>, TopQ(x, y, q), FALSE)
NoHints(k) == [k EXCEPT !.hint = None, !.expl = ""]
Frags == LET D == NoHints(q) IN
  \/ Implicit(q) /\ ~Nested(q) /\ \E T \in Pick((SUBSET FromTabs(q)) \ {{}}), pr \in Pick({"keep", "star", "*", "count_star"}) :
       Go("fragment", <<SetToSeq(T), pr>>, Fragment(D, T, pr), FALSE)
  \/ q.kind = "set" /\ Implicit(q.parts[1]) /\ Implicit(q.parts[2]) /\ ~Nested(q.parts[1]) /\ ~Nested(q.parts[2]) /\ q.cte = <<>> /\ q.ord = <<>> /\
       \E T \in Pick((SUBSET (FromTabs(q.parts[1]) \cap FromTabs(q.parts[2]))) \ {{}}), pr \in Pick({"keep", "star", "*", "count_star"}) : Go("fragment", <<SetToSeq(T), pr>>, Fragment(q, T, pr), FALSE)
  \/ Implicit(q) /\ \E T \in Pick({{"zz"}, {"a", "zz"}}) : Stop("no_fragment", <<SetToSeq(T)>>, q)
Whole ==
  \/ Single /\ FromKind(q) \in {"explicit", "mixed"} /\ (\A i \in DOMAIN q.from : InnerOnly(q.from[i])) /\ Go("to_implicit", <<>>, ToImplicit(q), TRUE)
  \/ Single /\ (\E i \in DOMAIN q.from : Cardinality({l \in {q.from[i]} : l[1] = "join" /\ l[2] = "left"}) > 0 \/ q.from[i][1] = "sub") /\ Stop("not_implicit", <<>>, q)
  \/ Single /\ q.where # None /\ Implicit(q) /\ Stop("close_ec", <<>>, CloseEc(q))
  \/ Implicit(q) /\ ~Nested(q) /\ q.cte = <<>> /\ TabsQ(q) \subseteq {"a", "b", "c", "d"} /\ Cardinality(FromTabs(q)) > 1 /\
     (\A i \in DOMAIN q.sel : q.sel[i].e[1] \notin {"star", "tstar"}) /\
     \E T \in Pick({S \in SUBSET FromTabs(q) : Cardinality(S) > 1 /\ Cardinality({c[2] : c \in Exported(q, S)}) = Cardinality(Exported(q, S))}) :
        Go("into_subquery", <<SetToSeq(T), "s">>, IntoSub(q, T, "s"), TRUE)
  \/ q.where # None /\ Single /\ ~HasQ(q.where) /\ Tabs(q.where) # {} /\
     Stop("expand", <<>>, [Q0 EXCEPT !.sel = <<Proj(<<"star">>)>>, !.from = LET T == SetToSeq(Tabs(q.where)) IN [i \in DOMAIN T |-> <<"tab", T[i]>>], !.where = q.where])
Next == \/ Begin
        \/ /\ IF Sim THEN step > 0 ELSE TRUE
           /\ step < MaxSteps
           /\ \/ Mode \in {"clauses", "random"} /\ Clauses
              \/ Mode \in {"predicates", "random", "tables"} /\ Predicates
              \/ Mode = "random" /\ (RenCols \/ RenTabs \/ RepExpr \/ Whole)
              \/ Mode \in {"random", "tables", "predicates"} /\ Frags
              \/ Mode = "tables" /\ (RenMany \/ RenCols)
              \/ Mode \in {"plain", "predicates"} /\ Whole
              \/ Mode = "plain" /\ Single /\ q.where # None /\ Go("flatten", <<>>, [q EXCEPT !.where = Flat(@)], TRUE)
Spec == Init /\ [][Next]_vars
Emit == (step = 99 \/ step = MaxSteps) => PrintT("@@" \o ToJson([h |-> h]))
----------------------------------------------------------------------------
(* laws *)
FlatLaw == q.where # None => LET f == Flat(q.where) IN Flat(f) = f /\ Range(Conj(f)) = Range(Conj(q.where))
FragLaw == \A T \in {{}, {"a"}, {"b"}, {"a", "b"}} : Tabs(Frag(q.where, T)) \subseteq T
RenameLaw == RenQ([cols |-> {}, tabs |-> {}, pre |-> FALSE], q) = q /\ ("a" \in TabsQ(q) /\ "m" \notin TabsQ(q) => "a" \notin TabsQ(RenQ([cols |-> {}, tabs |-> {<<"a", "m">>}, pre |-> FALSE], q)))
==========================================================================
