------------------------------- MODULE C03Q -------------------------------
(* Meaning of whole SELECT statements: joins of all kinds, derived tables,    *)
(* lateral references, CTEs, correlated subqueries, grouping, aggregates,     *)
(* windows, DISTINCT, ordering, limits and nested set operations under bag    *)
(* semantics with NULLs.  Queries are trees; the replay writes them as SQL.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Shape, Depth

VARIABLES q, done
vars == <<q, done>>

NULL == -99
R(x, y) == [x |-> x, y |-> y]
Tab == [r |-> <<R(1, 0), R(2, NULL), R(2, 1)>>, s |-> <<R(2, 1), R(NULL, 1), R(0, 2)>>, u |-> <<R(1, 1), R(2, 2)>>, e |-> <<>>]
Names == {"r", "s", "u", "e"}
NullRow == R(NULL, NULL)

(* ------------------------------------------------ building blocks of queries *)
C(t, c) == [k |-> "col", t |-> t, c |-> c]
None == <<>>
Cmp2(op, a, b) == [k |-> "cc", op |-> op, a |-> a, b |-> b]
CmpL(op, a, n) == [k |-> "cl", op |-> op, a |-> a, n |-> n]
IsNull(a) == [k |-> "nul", a |-> a]
Base(id, name) == [k |-> "t", id |-> id, name |-> name]
Join(kind, l, r, on) == [k |-> "j", kind |-> kind, l |-> l, r |-> r, on |-> on]
Plain == [k |-> "q", ctes |-> <<>>, from |-> <<>>, where |-> <<>>, grp |-> <<>>, agg |-> FALSE, having |-> <<>>, distinct |-> FALSE, on |-> FALSE,
          x |-> <<>>, y |-> <<>>, single |-> FALSE, order |-> <<>>, limit |-> -1, offset |-> -1]
SetQ(op, l, r) == [k |-> "set", ctes |-> <<>>, op |-> op, l |-> l, r |-> r, order |-> <<>>, limit |-> -1, offset |-> -1, single |-> l.single]
Ord(c, d, n, f) == [c |-> c, d |-> d, n |-> n, f |-> f]
Agg(f, a, dist, filt) == [k |-> "agg", f |-> f, a |-> a, dist |-> dist, filt |-> filt]
Win(f, a, part, ord, dist, filt) == [k |-> "win", f |-> f, a |-> a, part |-> part, ord |-> ord, dist |-> dist, filt |-> filt, frame |-> FALSE]
SelectAll(id, name) == [Plain EXCEPT !.from = <<Base(id, name)>>, !.x = C(id, "x"), !.y = C(id, "y")]

(* ------------------------------------------------ meaning *)
B(c) == IF c THEN 1 ELSE 0
Not3(v) == IF v = NULL THEN NULL ELSE 1 - v
And3(v, w) == IF v = 0 \/ w = 0 THEN 0 ELSE IF v = NULL \/ w = NULL THEN NULL ELSE 1
Or3(v, w) == IF v = 1 \/ w = 1 THEN 1 ELSE IF v = NULL \/ w = NULL THEN NULL ELSE 0
Cmp(op, v, w) == IF v = NULL \/ w = NULL THEN NULL
                 ELSE B(CASE op = "=" -> v = w [] op = "<>" -> v # w [] op = "<" -> v < w [] op = "<=" -> v <= w [] op = ">" -> v > w [] op = ">=" -> v >= w)
RECURSIVE Any3(_, _, _), All3(_, _, _), Flat(_), Sum(_)
Any3(op, v, l) == IF l = <<>> THEN 0 ELSE Or3(Cmp(op, v, Head(l)), Any3(op, v, Tail(l)))
All3(op, v, l) == IF l = <<>> THEN 1 ELSE And3(Cmp(op, v, Head(l)), All3(op, v, Tail(l)))
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
Sum(l) == IF l = <<>> THEN 0 ELSE Head(l) + Sum(Tail(l))
Map(l, F(_)) == [i \in 1..Len(l) |-> F(l[i])]
Times(l, v) == Cardinality({i \in DOMAIN l : l[i] = v})
RECURSIVE Dedup(_)
Dedup(l) == IF l = <<>> THEN <<>> ELSE LET d == Dedup(Front(l)) IN IF Times(d, l[Len(l)]) > 0 THEN d ELSE Append(d, l[Len(l)])
\* the i-th copy of a value survives if the other list has (meet) or does not have (minus) that many copies
Nth(l, i) == Cardinality({j \in 1..i : l[j] = l[i]})
BagMeet(l, r) == LET keep == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : Nth(l, i) <= Times(r, l[i])) IN [i \in 1..Len(keep) |-> l[keep[i]]]
BagMinus(l, r) == LET keep == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : Nth(l, i) > Times(r, l[i])) IN [i \in 1..Len(keep) |-> l[keep[i]]]
NotNull(l) == SelectSeq(l, LAMBDA v : v # NULL)

\* one aggregate over the list of its input values (NULLs included)
AggOf(f, dist, l) ==
    LET nn == NotNull(l)
        vs == IF dist THEN Dedup(nn) ELSE nn IN
    CASE f = "count*" -> Len(l)
      [] f = "count" -> Len(vs)
      [] f = "sum" -> IF vs = <<>> THEN NULL ELSE Sum(vs)
      [] f = "min" -> IF vs = <<>> THEN NULL ELSE CHOOSE v \in ToSet(vs) : \A w \in ToSet(vs) : v <= w
      [] f = "max" -> IF vs = <<>> THEN NULL ELSE CHOOSE v \in ToSet(vs) : \A w \in ToSet(vs) : v >= w

\* position of a value in one order item: NULLs last unless asked otherwise
Before(v, w, o) == IF v = w THEN FALSE
                   ELSE IF v = NULL THEN o.n = "FIRST" ELSE IF w = NULL THEN o.n # "FIRST"
                   ELSE IF o.d = "DESC" THEN v > w ELSE v < w
RECURSIVE RowBefore(_, _, _)
RowBefore(a, b, os) == IF os = <<>> THEN FALSE
                       ELSE LET o == Head(os) IN Before(a[o.c], b[o.c], o) \/ (a[o.c] = b[o.c] /\ RowBefore(a, b, Tail(os)))
Clip(l, limit, offset) == LET k == IF offset < 0 THEN 0 ELSE offset
                              m == IF limit < 0 THEN Len(l) ELSE IF k + limit > Len(l) THEN Len(l) ELSE k + limit IN
                          IF k >= m THEN <<>> ELSE SubSeq(l, k + 1, m)
\* DISTINCT ON (x): the first row of each x in the requested order
FirstOfEach(l) == LET keep == SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : \A j \in 1..(i - 1) : l[j].x # l[i].x) IN [i \in 1..Len(keep) |-> l[keep[i]]]
Finish(l0, qq) == LET l == IF qq.k = "q" /\ qq.on THEN FirstOfEach(SortSeq(l0, LAMBDA a, b : RowBefore(a, b, qq.order))) ELSE l0 IN
                  Clip(IF qq.order = <<>> THEN l ELSE SortSeq(l, LAMBDA a, b : RowBefore(a, b, qq.order)), qq.limit, qq.offset)

RECURSIVE Ev(_, _), EvQ(_, _), EvSrc(_, _), EvFrom(_, _), Ids(_), WithCtes(_, _), EvX(_, _, _)
Ids(s) == IF s.k = "j" THEN Ids(s.l) \cup Ids(s.r) ELSE {s.id}
Xs(l) == [i \in 1..Len(l) |-> l[i].x]

Ev(x, env) ==
    CASE x.k = "col" -> env[x.t][x.c]
      [] x.k = "lit" -> x.n
      [] x.k = "cc" -> Cmp(x.op, Ev(x.a, env), Ev(x.b, env))
      [] x.k = "cl" -> Cmp(x.op, Ev(x.a, env), x.n)
      [] x.k = "nul" -> B(Ev(x.a, env) = NULL)
      [] x.k = "nnul" -> B(Ev(x.a, env) # NULL)
      [] x.k = "and" -> And3(Ev(x.l, env), Ev(x.r, env))
      [] x.k = "or" -> Or3(Ev(x.l, env), Ev(x.r, env))
      [] x.k = "not" -> Not3(Ev(x.l, env))
      [] x.k = "btw" -> And3(Cmp(">=", Ev(x.a, env), Ev(x.l, env)), Cmp("<=", Ev(x.a, env), Ev(x.r, env)))
      [] x.k = "inl" -> Any3("=", Ev(x.a, env), x.l)
      [] x.k = "in" -> Any3("=", Ev(x.a, env), Xs(EvQ(x.q, env)))
      [] x.k = "nin" -> Not3(Any3("=", Ev(x.a, env), Xs(EvQ(x.q, env))))
      [] x.k = "ex" -> B(EvQ(x.q, env) # <<>>)
      [] x.k = "nex" -> B(EvQ(x.q, env) = <<>>)
      [] x.k = "any" -> Any3(x.op, Ev(x.a, env), Xs(EvQ(x.q, env)))
      [] x.k = "all" -> All3(x.op, Ev(x.a, env), Xs(EvQ(x.q, env)))
      [] x.k = "sc" -> Cmp(x.op, Ev(x.a, env), EvQ(x.q, env)[1].x)
      [] x.k = "scv" -> EvQ(x.q, env)[1].x
      [] x.k = "add" -> LET v == Ev(x.a, env) w == Ev(x.b, env) IN IF v = NULL \/ w = NULL THEN NULL ELSE v + w
      [] x.k = "case" -> IF Ev(x.l, env) = 1 THEN Ev(x.a, env) ELSE Ev(x.b, env)

Swapped(l) == [i \in 1..Len(l) |-> R(l[i].y, l[i].x)]

Pairs(L, S, on) == Flat(Map(L, LAMBDA l : SelectSeq(Map(S, LAMBDA s : l @@ s), LAMBDA m : on = None \/ Ev(on, m) = 1)))
Lonely(L, S, on, ids) == Map(SelectSeq(L, LAMBDA l : \A i \in DOMAIN S : on # None /\ Ev(on, l @@ S[i]) # 1), LAMBDA l : [i \in ids |-> NullRow] @@ l)

EvSrc(s, env) ==
    LET Rows(rows) == Map(rows, LAMBDA w : (s.id :> w) @@ env) IN
    \* a list of column names (y, x) swaps the columns
    CASE "cols" \in DOMAIN s -> Rows(Swapped(IF s.k = "t" THEN Tab[s.name] ELSE EvQ(s.q, env)))
      [] s.k = "t" -> Rows(Tab[s.name])
      [] s.k = "c" -> Rows(env[s.name])
      [] s.k = "v" -> Rows(s.rows)
      [] s.k = "d" -> Rows(EvQ(s.q, env))
      [] s.k = "j" -> LET L == EvSrc(s.l, env) S == EvSrc(s.r, env)
                          \* a natural join compares the columns both sides have in common
                          on == IF s.kind \in {"NATURAL JOIN", "NATURAL LEFT JOIN"}
                                THEN [k |-> "and", l |-> Cmp2("=", C(s.l.id, "x"), C(s.r.id, "x")), r |-> Cmp2("=", C(s.l.id, "y"), C(s.r.id, "y"))] ELSE s.on IN
                      Pairs(L, S, on)
                      \o (IF s.kind \in {"LEFT JOIN", "FULL JOIN", "NATURAL LEFT JOIN", "LEFT USING"} THEN Lonely(L, S, on, Ids(s.r)) ELSE <<>>)
                      \o (IF s.kind \in {"RIGHT JOIN", "FULL JOIN"} THEN Lonely(S, L, on, Ids(s.l)) ELSE <<>>)
EvFrom(l, envs) == IF l = <<>> THEN envs ELSE EvFrom(Tail(l), Flat(Map(envs, LAMBDA env : EvSrc(Head(l), env))))
WithCtes(l, env) == IF l = <<>> THEN env ELSE WithCtes(Tail(l), (Head(l).name :> LET rows == EvQ(Head(l).q, env) IN IF "cols" \in DOMAIN Head(l) THEN Swapped(rows) ELSE rows) @@ env)

\* an output expression over a group (or, for windows, for the i-th row of all rows)
EvX(x, g, i) ==
    CASE x.k = "agg" -> LET in == SelectSeq(g, LAMBDA env : x.filt = None \/ Ev(x.filt, env) = 1) IN AggOf(x.f, x.dist, Map(in, LAMBDA env : Ev(x.a, env)))
      [] x.k = "win" -> LET part == SelectSeq(g, LAMBDA env : (x.part = None \/ Ev(x.part, env) = Ev(x.part, g[i])) /\ (x.filt = None \/ Ev(x.filt, env) = 1)) IN
                        IF x.f = "rank" THEN 1 + Len(SelectSeq(part, LAMBDA env : Before(Ev(x.a, env), Ev(x.a, g[i]), x.ord)))
                        ELSE IF x.ord = None \/ x.frame THEN AggOf(x.f, x.dist, Map(part, LAMBDA env : Ev(x.a, env)))
                        \* the running aggregate includes the peers of the current row
                        ELSE AggOf(x.f, x.dist, Map(SelectSeq(part, LAMBDA env : ~Before(Ev(x.a, g[i]), Ev(x.a, env), x.ord)), LAMBDA env : Ev(x.a, env)))
      [] OTHER -> Ev(x, g[i])
\* a query may sort by an expression (hid) that is none of its outputs
Hidden(qq) == "hid" \in DOMAIN qq
Out(qq, g, i) == IF qq.single THEN [x |-> EvX(qq.x, g, i)]
                 ELSE IF Hidden(qq) THEN [x |-> EvX(qq.x, g, i), y |-> EvX(qq.y, g, i), h |-> EvX(qq.hid, g, i)]
                 ELSE [x |-> EvX(qq.x, g, i), y |-> EvX(qq.y, g, i)]

EvQ(qq, env0) ==
    LET env == WithCtes(qq.ctes, env0) IN
    IF qq.k = "set" THEN
        LET l == EvQ(qq.l, env) r == EvQ(qq.r, env) IN
        Finish(CASE qq.op = "UNION ALL" -> l \o r
                 [] qq.op = "UNION" -> Dedup(l \o r)
                 [] qq.op = "INTERSECT" -> Dedup(SelectSeq(l, LAMBDA w : Times(r, w) > 0))
                 [] qq.op = "INTERSECT ALL" -> BagMeet(l, r)
                 [] qq.op = "EXCEPT ALL" -> BagMinus(l, r)
                 [] qq.op = "EXCEPT" -> Dedup(SelectSeq(l, LAMBDA w : Times(r, w) = 0)), qq)
    ELSE
        LET all == EvFrom(qq.from, <<env>>)
            w == SelectSeq(all, LAMBDA m : qq.where = None \/ Ev(qq.where, m) = 1)
            key(m) == Map(qq.grp, LAMBDA g : Ev(g, m))
            keys == Dedup(Map(w, key))
            groups == IF qq.grp = <<>> THEN <<w>> ELSE Map(keys, LAMBDA k : SelectSeq(w, LAMBDA m : key(m) = k))
            kept == SelectSeq(groups, LAMBDA g : qq.having = None \/ Cmp(qq.having.op, EvX(qq.having.a, g, 1), qq.having.n) = 1)
            rows == IF qq.agg THEN Map(kept, LAMBDA g : Out(qq, g, 1)) ELSE [i \in 1..Len(w) |-> Out(qq, w, i)]
            final == Finish(IF qq.distinct THEN Dedup(rows) ELSE rows, qq) IN
        IF Hidden(qq) THEN Map(final, LAMBDA z : R(z.x, z.y)) ELSE final

(* ------------------------------------------------ systematic families *)
Kinds == {"JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN"}
On(kind, c) == IF kind = "CROSS JOIN" THEN None ELSE c
EqX(a, b) == Cmp2("=", C(a, "x"), C(b, "x"))
JoinTrees ==
    {<<Join(k2, Join(k1, Base("a", "r"), Base("b", "s"), On(k1, EqX("a", "b"))), Base("c", "u"), On(k2, Cmp2(op, C(t, "y"), C("c", "y"))))>> : k1 \in Kinds, k2 \in Kinds, t \in {"a", "b"}, op \in {"=", "<"}}
    \cup {<<Join(k2, Base("c", "u"), Join(k1, Base("a", "r"), Base("b", "s"), On(k1, EqX("a", "b"))), On(k2, Cmp2(op, C(t, "y"), C("c", "y"))))>> : k1 \in Kinds, k2 \in Kinds, t \in {"a", "b"}, op \in {"=", "<"}}
    \cup {<<Base("c", "u"), Join(k1, Base("a", "r"), Base("b", "s"), On(k1, Cmp2(op, C("a", "x"), C("b", "y"))))>> : k1 \in Kinds, op \in {"=", "<>"}}
    \cup {<<Join(k1, Base("a", "r"), Base("b", "s"), On(k1, Cmp2(op, C("a", "x"), C("b", "y")))), Base("c", "u")>> : k1 \in Kinds, op \in {"=", "<>"}}
    \cup {<<Join(k1, [k |-> "d", id |-> "a", q |-> SelectAll("d", "r"), lat |-> FALSE], Base("b", "s"), On(k1, EqX("a", "b"))), Base("c", "u")>> : k1 \in Kinds}
    \cup {<<Join(k1, Base("b", "s"), [k |-> "d", id |-> "a", q |-> SelectAll("d", "r"), lat |-> FALSE], On(k1, EqX("a", "b"))), Base("c", "u")>> : k1 \in Kinds}
    \cup {<<Join(n, Base("a", "r"), Base("b", "s"), None), Base("c", "u")>> : n \in {"NATURAL JOIN", "NATURAL LEFT JOIN"}}
    \cup {<<Join(k1, Join(k1, Join(k2, Base("a", "r"), Base("b", "s"), On(k2, EqX("a", "b"))), Base("c", "u"), On(k1, EqX("b", "c"))), Base("d", "r"), On(k1, EqX("d", "a")))>> : k1 \in Kinds, k2 \in Kinds}
    \cup {<<Join(k1, Join(k2, Base("a", "r"), Base("b", "s"), On(k2, EqX("a", "b"))), Join(k3, Base("c", "u"), Base("d", "r"), On(k3, EqX("c", "d"))), On(k1, Cmp2("=", C("b", "y"), C("d", "y"))))>> : k1 \in Kinds, k2 \in Kinds, k3 \in Kinds}
JoinQueries == {[Plain EXCEPT !.from = f, !.where = w, !.x = C("a", "x"), !.y = [k |-> "add", a |-> C("b", "y"), b |-> C("c", "x")]] : f \in JoinTrees,
                w \in {None, [k |-> "or", l |-> IsNull(C("b", "x")), r |-> CmpL(">", C("a", "y"), 0)]}}

Sub(id, c) == [Plain EXCEPT !.from = <<Base(id, "s")>>, !.x = C(id, "x"), !.single = TRUE, !.where = c]
Wheres == {None, CmpL(">", C("a", "x"), 1), [k |-> "not", l |-> IsNull(C("a", "y"))], [k |-> "nnul", a |-> C("a", "y")],
           [k |-> "in", a |-> C("a", "x"), q |-> Sub("z", Cmp2("=", C("z", "y"), C("a", "y")))], [k |-> "nin", a |-> C("a", "x"), q |-> Sub("z", None)],
           [k |-> "ex", q |-> Sub("z", Cmp2(">=", C("z", "y"), C("a", "y")))], [k |-> "nex", q |-> Sub("z", Cmp2("=", C("z", "x"), C("a", "x")))],
           [k |-> "any", op |-> ">", a |-> C("a", "x"), q |-> Sub("z", None)], [k |-> "all", op |-> "<=", a |-> C("a", "y"), q |-> Sub("z", CmpL(">", C("z", "x"), -1))]}
From1 == <<Base("a", "r"), Base("b", "s")>>
OrdX == {Ord("x", d, n, f) : d \in {"", "ASC", "DESC"}, n \in {"", "FIRST", "LAST"}, f \in {"expr", "name", "pos"}}
OrdH == {Ord("h", d, n, "expr") : d \in {"", "ASC", "DESC"}, n \in {"", "FIRST", "LAST"}}
SortedBy(o, r) == <<o>> \o r
Hid(z, e) == z @@ [hid |-> e]
Orders == {<<>>} \cup {<<o, Ord("y", "DESC", "FIRST", "expr")>> : o \in OrdX} \cup {<<Ord("y", "", "FIRST", "pos"), o>> : o \in OrdX}
Limits == {<<-1, -1>>, <<0, -1>>, <<1, -1>>, <<2, 1>>, <<-1, 2>>, <<3, 0>>}
OrdClause == {<<o, l>> \in Orders \X Limits : o = <<>> => l \in {<<-1, -1>>, <<0, -1>>}}
ClauseQueries ==
    {[Plain EXCEPT !.from = <<Base("a", "r")>>, !.where = w, !.x = C("a", "x"), !.y = C("a", "y"), !.distinct = d] : w \in Wheres, d \in BOOLEAN}
    \cup {[Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = C("b", "y"), !.distinct = d, !.order = ol[1], !.limit = ol[2][1], !.offset = ol[2][2]] : d \in BOOLEAN, ol \in OrdClause}
    \cup UNION {{Hid([Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = C("b", "y"), !.order = SortedBy(o, r), !.limit = l], e) : e \in {C("a", "y"), C("b", "x"), [k |-> "add", a |-> C("a", "y"), b |-> C("b", "x")]}} :
                        o \in {z \in OrdH : TRUE}, r \in {<<Ord("x", "", "", "expr"), Ord("y", "DESC", "", "pos")>>}, l \in {-1, 2}}
    \cup UNION {{Hid([Plain EXCEPT !.from = From1, !.agg = TRUE, !.grp = g, !.x = g[1], !.y = Agg(f, C("b", "x"), FALSE, None), !.having = h, !.order = SortedBy(o, <<Ord("x", "", "", "expr"), Ord("y", "DESC", "", "expr")>>)], e) :
                        e \in {Agg("count*", C("a", "x"), FALSE, None), Agg("sum", C("b", "y"), TRUE, None), Agg("max", C("a", "y"), FALSE, CmpL(">", C("b", "x"), 0)), g[1]}} :
                        o \in {z \in OrdH : z.n = ""}, g \in {<<C("a", "x")>>, <<C("a", "y"), C("b", "x")>>}, f \in {"count", "max"}, h \in {None, [a |-> Agg("count*", C("a", "x"), FALSE, None), op |-> ">", n |-> 1]}}
    \cup {[Plain EXCEPT !.from = From1, !.on = TRUE, !.x = C("a", "x"), !.y = C("b", "y"), !.order = <<o, p>>, !.limit = l] : o \in {z \in OrdX : z.f = "expr"}, p \in {Ord("y", d, n, "expr") : d \in {"", "DESC"}, n \in {"", "FIRST"}}, l \in {-1, 2}}
    \cup {[Plain EXCEPT !.from = From1, !.agg = TRUE, !.grp = g, !.where = w, !.x = IF g = <<>> THEN Agg("count*", C("a", "x"), FALSE, None) ELSE g[1], !.y = Agg(f, C("b", c), dist, filt), !.having = h] :
            g \in {<<>>, <<C("a", "x")>>, <<C("a", "y"), C("b", "x")>>}, w \in {None, CmpL("<", C("b", "y"), 2), CmpL("<", C("b", "y"), 0)}, f \in {"count", "sum", "min", "max"}, c \in {"x", "y"}, dist \in BOOLEAN,
            filt \in {None, CmpL(">", C("a", "x"), 1)}, h \in {None, [a |-> Agg("count*", C("a", "x"), FALSE, None), op |-> ">", n |-> 1], [a |-> Agg("sum", C("b", "x"), TRUE, None), op |-> "<=", n |-> 1]}}
    \cup {[Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = Win(f, C("b", "x"), p, o, dist, filt)] :
            dist \in BOOLEAN, filt \in {None, CmpL(">", C("a", "x"), 1)}, f \in {"sum", "count", "min", "max"}, p \in {None, C("a", "x"), C("b", "y")}, o \in {None, Ord("x", "", "", "expr"), Ord("x", "DESC", "", "expr"), Ord("x", "DESC", "FIRST", "expr"), Ord("x", "ASC", "LAST", "expr")}}
    \cup {[Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = Win(f, C("b", "x"), p, o, FALSE, None)] :
            f \in {"rank", "count*"}, p \in {None, C("a", "x"), C("b", "y")}, o \in {Ord("x", "", "", "expr"), Ord("x", "DESC", "", "expr"), Ord("x", "DESC", "FIRST", "expr")}}

SetOps == {"UNION", "UNION ALL", "INTERSECT", "EXCEPT"}
A1 == SelectAll("a", "r")
A2 == SelectAll("b", "s")
A3 == [SelectAll("c", "u") EXCEPT !.y = C("c", "x"), !.x = C("c", "y")]
Lim(z) == [z EXCEPT !.order = <<Ord("x", "DESC", "", "name"), Ord("y", "", "", "name")>>, !.limit = 2]
MaybeLim(z) == {z, Lim(z)}
SetQueries ==
    UNION {UNION {MaybeLim(SetQ(o, l, r)) : l \in MaybeLim(A1), r \in MaybeLim(A2)} : o \in SetOps}
    \cup UNION {UNION {MaybeLim(SetQ(o1, l, A3)) : l \in MaybeLim(SetQ(o2, A1, A2))} : o1 \in SetOps, o2 \in SetOps}
    \cup UNION {UNION {MaybeLim(SetQ(o1, A3, r)) : r \in MaybeLim(SetQ(o2, A1, A2))} : o1 \in SetOps, o2 \in SetOps}
    \cup {SetQ(o1, SetQ(o2, A1, A2), SetQ(o3, A3, A1)) : o1 \in SetOps, o2 \in SetOps, o3 \in SetOps}
    \cup {[Plain EXCEPT !.ctes = <<[name |-> "w", m |-> m, q |-> SetQ(o, A1, A2)]>>, !.from = <<[k |-> "c", id |-> "v", name |-> "w"]>>, !.x = C("v", "x"), !.y = C("v", "y")] : o \in SetOps, m \in {"", "MATERIALIZED", "NOT MATERIALIZED"}}
    \cup {[Plain EXCEPT !.from = <<[k |-> "d", id |-> "v", q |-> SetQ(o, A1, A2), lat |-> FALSE]>>, !.x = C("v", "x"), !.y = C("v", "y")] : o \in SetOps}
    \cup {[SetQ(o, [Plain EXCEPT !.from = <<[k |-> "c", id |-> "v", name |-> "w"]>>, !.x = C("v", "x"), !.y = C("v", "y")], A2) EXCEPT !.ctes = <<[name |-> "w", m |-> "", q |-> A1]>>] : o \in SetOps}

\* constructs that an implementation may refuse, but must not misread
ExtraQueries ==
    {SetQ(o, A1, A2) : o \in {"INTERSECT ALL", "EXCEPT ALL"}} \cup {SetQ("EXCEPT ALL", SetQ("UNION ALL", A1, A1), A1), SetQ("INTERSECT ALL", SetQ("UNION ALL", A1, A1), SetQ("UNION ALL", A1, A2))}
    \cup {[Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = [Win(f, C("b", "x"), p, o, FALSE, None) EXCEPT !.frame = TRUE]] : f \in {"sum", "count", "min"}, p \in {None, C("b", "y")}, o \in {Ord("x", "", "", "expr"), Ord("x", "DESC", "FIRST", "expr")}}
    \cup {[Plain EXCEPT !.from = <<z>>, !.x = C("v", "x"), !.y = C("v", "y")] : z \in {[k |-> "d", id |-> "v", q |-> A1, lat |-> FALSE, cols |-> TRUE], [k |-> "t", id |-> "v", name |-> "r", cols |-> TRUE]}}
    \cup {[Plain EXCEPT !.ctes = <<[name |-> "w", m |-> "", q |-> A1, cols |-> TRUE]>>, !.from = <<[k |-> "c", id |-> "v", name |-> "w"]>>, !.x = C("v", "x"), !.y = C("v", "y")]}
    \cup {[Plain EXCEPT !.from = <<Join(k, Base("a", "r"), Base("b", "s"), EqX("a", "b"))>>, !.x = C("a", "x"), !.y = C("b", "y")] : k \in {"USING", "LEFT USING"}}

(* ------------------------------------------------ random queries *)
RE(S) == RandomElement(S)
Dir == {"", "ASC", "DESC"}
RndCol(sc) == C(sc[RE(1..Len(sc))], RE({"x", "y"}))
RndOp(z) == RE({"=", "<>", "<", "<=", ">", ">="})
RndOrd(c) == Ord(c, RE(Dir), RE({"", "FIRST", "LAST"}), RE({"expr", "name", "pos"}))
Swap(l) == IF RE({0, 1}) = 0 THEN l ELSE Reverse(l)

RECURSIVE HasCtes(_)
HasCtes(z) == z.ctes # <<>> \/ (z.k = "set" /\ (HasCtes(z.l) \/ HasCtes(z.r)))
RECURSIVE RQ(_, _, _, _, _), RSrc(_, _, _, _, _), RCond(_, _, _, _), RFrom(_, _, _, _, _, _)
\* names: the CTEs in scope; sc: the visible sources (innermost first); p: a unique prefix for the names in this part of the query
RCond(d, sc, p, cs) ==
    LET k == RE({"cc", "cl", "cl", "nul", "nnul", "cc"} \cup (IF d > 0 THEN {"and", "or", "not", "in", "nin", "ex", "nex", "any", "all", "sc"} ELSE {"and", "or"})) IN
    CASE k = "cc" -> Cmp2(RndOp(d), RndCol(sc), RndCol(sc))
      [] k = "cl" -> CmpL(RndOp(d), RndCol(sc), RE(0..2))
      [] k \in {"nul", "nnul"} -> [k |-> k, a |-> RndCol(sc)]
      [] k \in {"and", "or"} -> [k |-> k, l |-> RCond(d - 1, sc, p \o "l", cs), r |-> RCond(d - 1, sc, p \o "r", cs)]
      [] k = "not" -> [k |-> k, l |-> RCond(d - 1, sc, p \o "n", cs)]
      [] k \in {"in", "nin"} -> [k |-> k, a |-> RndCol(sc), q |-> RQ(d - 1, sc, p \o "q", cs, "single")]
      [] k \in {"ex", "nex"} -> [k |-> k, q |-> RQ(d - 1, sc, p \o "q", cs, "single")]
      [] k \in {"any", "all"} -> [k |-> k, op |-> RndOp(d), a |-> RndCol(sc), q |-> RQ(d - 1, sc, p \o "q", cs, "single")]
      [] k = "sc" -> [k |-> k, op |-> RndOp(d), a |-> RndCol(sc), q |-> RQ(d - 1, sc, p \o "q", cs, "scalar")]

RSrc(d, id, sc, cs, lat) ==
    LET k == RE({"t", "t2", "t3"} \cup (IF cs = <<>> THEN {} ELSE {"c", "c2"}) \cup (IF d > 0 THEN {"d", "j", "j2", "v"} ELSE {})) IN
    CASE k \in {"t", "t2", "t3"} -> Base(id, RE(Names))
      [] k \in {"c", "c2"} -> [k |-> "c", id |-> id, name |-> cs[RE(1..Len(cs))]]
      [] k = "v" -> [k |-> "v", id |-> id, rows |-> [i \in 1..RE(1..3) |-> R(RE({0, 1, 2}), RE({0, 1, 2}))]]
      [] k = "d" -> LET l == lat /\ sc # <<>> /\ RE({0, 1}) = 0 IN [k |-> "d", id |-> id, lat |-> l, q |-> RQ(d - 1, IF l THEN sc ELSE <<>>, id \o "d", cs, "any")]
      [] k \in {"j", "j2"} -> LET kind == RE(Kinds) l == RSrc(RE({0, d - 1}), id \o "0", sc, cs, FALSE) r == RSrc(RE({0, d - 1}), id \o "1", sc, cs, FALSE) IN
                    Join(kind, l, r, IF kind = "CROSS JOIN" THEN None ELSE [k |-> "cc", op |-> IF kind = "FULL JOIN" THEN "=" ELSE RndOp(d),
                              a |-> C(RE(Ids(l)), RE({"x", "y"})), b |-> C(RE(Ids(r)), RE({"x", "y"}))])
\* n more sources for a FROM clause whose sources so far are fr
RFrom(n, d, fr, sc, p, cs) == IF n = 0 THEN fr
    ELSE LET own == SetToSeq(UNION {Ids(fr[i]) : i \in DOMAIN fr}) IN
         RFrom(n - 1, d, Append(fr, RSrc(d, p \o ToString(n), own, cs, TRUE)), sc, p, cs)
RAgg(sc, simple) == LET f == RE({"count*", "count", "sum", "min", "max"}) IN
                    Agg(f, RndCol(sc), f # "count*" /\ RE(1..3) = 1, IF RE(1..3) = 1 THEN CmpL(RndOp(f), RndCol(sc), RE(0..2)) ELSE None)
RQ(d, outer, p, cs, want) ==
    IF d > 0 /\ want # "scalar" /\ RE(1..5) = 1 THEN
        \* outer references inside set operations are left out: the database at hand does not support them everywhere
        LET o == RE(SetOps)
            s == SetQ(o, RQ(d - 1, <<>>, p \o "L", cs, want), RQ(d - 1, <<>>, p \o "R", cs, want)) IN
        \* (nor ordered set operations whose operands have WITH clauses)
        IF RE({0, 1}) = 0 \/ HasCtes(s.l) \/ HasCtes(s.r) THEN s ELSE [s EXCEPT !.order = IF want = "single" THEN <<Ord("x", RE(Dir), RE({"", "FIRST"}), "name")>> ELSE <<Ord("y", RE(Dir), "", "name"), Ord("x", RE(Dir), RE({"", "FIRST"}), "pos")>>,
                                                 !.limit = RE({-1, 1, 2}), !.offset = RE({-1, -1, 1})]
    ELSE
        LET ct == IF d > 0 /\ RE(1..4) = 1 THEN <<[name |-> p \o "w", m |-> RE({"", "MATERIALIZED"}), q |-> RQ(d - 1, <<>>, p \o "C", cs, "any")]>> ELSE <<>>
            cs2 == IF ct = <<>> THEN cs ELSE Append(cs, ct[1].name)
            from == RFrom(RE(IF d > 1 THEN 1..2 ELSE {1}), d, <<>>, outer, p, cs2)
            own == SetToSeq(UNION {Ids(from[i]) : i \in DOMAIN from})
            all == own \o outer
            mode == IF want = "scalar" THEN "ungrouped" ELSE RE({"plain", "plain2", "grouped", "ungrouped", "win", "distinct"})
            agg == mode \in {"grouped", "ungrouped"}
            g1 == RndCol(own)
            grp == IF mode = "grouped" THEN (IF RE({0, 1}) = 0 THEN <<g1>> ELSE <<g1, RndCol(own)>>) ELSE <<>>
            x == CASE mode = "grouped" -> g1 [] mode = "ungrouped" -> RAgg(own, FALSE) [] OTHER -> RndCol(IF mode = "plain" /\ outer # <<>> THEN all ELSE own)
            y == CASE mode \in {"grouped", "ungrouped"} -> RAgg(own, TRUE)
                   [] mode = "win" -> LET f == RE({"sum", "count", "rank", "min", "count*"}) IN
                                      Win(f, RndCol(own), IF RE({0, 1}) = 0 THEN None ELSE RndCol(own), Ord("x", RE(Dir), RE({"", "FIRST"}), "expr"), FALSE, IF f = "rank" \/ RE(1..3) > 1 THEN None ELSE CmpL(RndOp(f), RndCol(own), 1))
                   [] mode = "plain2" /\ d > 0 -> [k |-> "case", l |-> RCond(0, all, p \o "k", cs2), a |-> RndCol(own), b |-> [k |-> "add", a |-> RndCol(own), b |-> RndCol(own)]]
                   [] mode = "plain" /\ d > 0 /\ RE(1..3) = 1 -> [k |-> "scv", q |-> RQ(d - 1, own, p \o "v", cs2, "scalar")]
                   [] OTHER -> RndCol(own)
            sorted == want # "scalar" /\ RE(1..3) = 1
            order == IF ~sorted THEN <<>> ELSE IF want = "single" THEN <<RndOrd("x")>> ELSE Swap(<<RndOrd("x"), RndOrd("y")>>)
            z == [k |-> "q", ctes |-> ct, from |-> from, where |-> IF RE(1..3) = 1 THEN None ELSE RCond(d, all, p \o "c", cs2), grp |-> grp, agg |-> agg,
         having |-> IF mode = "grouped" /\ RE(1..2) = 1 THEN [a |-> RAgg(own, TRUE), op |-> RndOp(d), n |-> RE(0..2)] ELSE None,
         distinct |-> mode = "distinct", on |-> FALSE, x |-> x, y |-> IF want \in {"single", "scalar"} THEN <<>> ELSE y, single |-> want \in {"single", "scalar"}, order |-> order,
         limit |-> IF sorted THEN RE({-1, 1, 2, 0}) ELSE -1, offset |-> IF sorted THEN RE({-1, -1, 1}) ELSE -1] IN
        IF order # <<>> /\ want = "any" /\ ~z.distinct /\ RE(1..2) = 1
        THEN Hid([z EXCEPT !.order = SortedBy(Ord("h", RE(Dir), RE({"", "FIRST", "LAST"}), "expr"), z.order)],
                 IF mode = "grouped" THEN (IF RE(1..4) = 1 THEN g1 ELSE RAgg(own, TRUE)) ELSE IF agg THEN RAgg(own, TRUE)
                 ELSE IF RE(1..2) = 1 THEN RndCol(own) ELSE [k |-> "add", a |-> RndCol(own), b |-> RndCol(own)])
        ELSE z

\* rough size of an evaluation, so that no behaviour is spent on a huge product
Cap(n) == IF n > 20000 THEN 20000 ELSE n
RECURSIVE CostQ(_), CostS(_), CostC(_), CostF(_), CostX(_)
CostX(x) == IF x = <<>> THEN 0 ELSE IF x.k = "scv" THEN CostQ(x.q) ELSE IF x.k = "add" THEN CostX(x.a) + CostX(x.b) ELSE 0
CostC(c) == IF c = <<>> THEN 0 ELSE CASE c.k \in {"and", "or"} -> CostC(c.l) + CostC(c.r) [] c.k = "not" -> CostC(c.l) [] c.k = "cc" -> 1 + CostX(c.a) + CostX(c.b) [] c.k = "btw" -> 1 + CostX(c.l) + CostX(c.r)
                                      [] c.k \in {"in", "nin", "ex", "nex", "any", "all", "sc", "scv"} -> CostQ(c.q) [] OTHER -> 1
CostS(s) == CASE s.k \in {"t", "v"} -> 3 [] s.k = "c" -> 6 [] s.k = "d" -> Cap(CostQ(s.q)) [] s.k = "j" -> Cap(CostS(s.l) * CostS(s.r))
CostF(l) == IF l = <<>> THEN 1 ELSE Cap(CostS(Head(l)) * CostF(Tail(l)))
CostQ(z) == LET c == IF z.ctes = <<>> THEN 0 ELSE CostQ(z.ctes[1].q) IN
            c + (IF z.k = "set" THEN CostQ(z.l) + CostQ(z.r)
                 ELSE LET f == CostF(z.from) IN IF f > 300 THEN 20000 ELSE f * (1 + Cap(CostC(z.where)) + CostX(z.x) + CostX(z.y)))
Within(z, n) == IF CostQ(z) > n THEN A1 ELSE z
Small(z) == Within(z, 3000)

(* ------------------------------------------------ the enumeration *)
Init == q = None /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ CASE Shape = "joins" -> q' \in JoinQueries
             [] Shape = "clauses" -> q' \in ClauseQueries
             [] Shape = "sets" -> q' \in SetQueries
             [] Shape = "extras" -> q' \in ExtraQueries
             [] Shape = "random" -> q' = Small(RQ(Depth, <<>>, "n", <<>>, "any"))
Stop == done /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars

Result == EvQ(q, <<>>)
(* laws the semantics has to satisfy *)
SizeLaws == done /\ q.k = "set" /\ q.limit = -1 => LET l == Len(EvQ(q.l, WithCtes(q.ctes, <<>>))) IN
            (q.op \in {"INTERSECT", "EXCEPT", "INTERSECT ALL", "EXCEPT ALL"} => Len(Result) <= l) /\ (q.op \in {"UNION", "INTERSECT", "EXCEPT"} => Dedup(Result) = Result)
LimitLaw == done => (q.limit >= 0 => Len(Result) <= q.limit)
Emitted == done => PrintT("@@" \o ToJson([q |-> q, rows |-> Result]))
=============================================================================
