------------------------------- MODULE C03 -------------------------------
(* Meaning of SQL expressions: three-valued logic, arithmetic, CASE, IN,       *)
(* BETWEEN, LIKE, ... over the rows of a fixed table.  The expressions are     *)
(* enumerated as trees, so their meaning does not depend on any rendering;     *)
(* the replay writes them with all brackets, sends them through the parser     *)
(* and the renderers, and evaluates what comes out in a database.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Depth, Sim, Types

VARIABLES e, done
vars == <<e, done>>

NULL == -99
(* booleans: 0, 1, NULL; strings by number: 1 'a', 2 'ab', 3 'B', 4 'a%' *)
Vals == <<NULL, 0, 1, 2>>
Row(i) == LET a == Vals[(i % 4) + 1] b == Vals[((i \div 4) % 4) + 1] IN
          [a |-> a, b |-> b, p |-> <<NULL, 1, 0>>[((i + (i \div 4)) % 3) + 1], s |-> <<1, NULL, 2, 3, 4>>[((i + (i \div 3)) % 5) + 1]]
Rows == [i \in 1..16 |-> Row(i - 1)]

(* ------------------------------------------------ trees *)
N(k, ch) == [k |-> k, v |-> 0, ch |-> ch]
L(k, v) == [k |-> k, v |-> v, ch |-> <<>>]
\* operators: name, result type, types of the operands
Sig == <<
  <<"add", "i", <<"i", "i">>>>, <<"sub", "i", <<"i", "i">>>>, <<"mul", "i", <<"i", "i">>>>, <<"neg", "i", <<"i">>>>,
  <<"abs", "i", <<"i">>>>, <<"coalesce", "i", <<"i", "i">>>>, <<"case", "i", <<"b", "i", "i">>>>, <<"case1", "i", <<"b", "i">>>>,
  <<"case2", "i", <<"b", "i", "b", "i", "i">>>>, <<"scase", "i", <<"i", "i", "i", "i">>>>, <<"cast", "i", <<"i">>>>, <<"subq", "i", <<"i">>>>,
  <<"mod", "i", <<"i", "i">>>>, <<"clen", "i", <<"i">>>>,
  <<"eq", "b", <<"i", "i">>>>, <<"ne", "b", <<"i", "i">>>>, <<"lt", "b", <<"i", "i">>>>, <<"le", "b", <<"i", "i">>>>, <<"gt", "b", <<"i", "i">>>>, <<"ge", "b", <<"i", "i">>>>,
  <<"between", "b", <<"i", "i", "i">>>>, <<"nbetween", "b", <<"i", "i", "i">>>>, <<"in", "b", <<"i", "i", "i">>>>, <<"nin", "b", <<"i", "i", "i">>>>, <<"in1", "b", <<"i", "i">>>>,
  <<"isnull", "b", <<"i">>>>, <<"notnull", "b", <<"i">>>>, <<"bisnull", "b", <<"b">>>>,
  <<"and", "b", <<"b", "b">>>>, <<"or", "b", <<"b", "b">>>>, <<"and3", "b", <<"b", "b", "b">>>>, <<"or3", "b", <<"b", "b", "b">>>>, <<"not", "b", <<"b">>>>,
  <<"distinct", "b", <<"i", "i">>>>, <<"ndistinct", "b", <<"i", "i">>>>,
  <<"like", "b", <<"s", "s">>>>, <<"nlike", "b", <<"s", "s">>>>, <<"ilike", "b", <<"s", "s">>>>, <<"nilike", "b", <<"s", "s">>>>, <<"seq", "b", <<"s", "s">>>>,
  <<"beq", "b", <<"b", "b">>>>, <<"exists", "b", <<"b">>>>, <<"nexists", "b", <<"b">>>>, <<"insub", "b", <<"i", "i">>>>, <<"ninsub", "b", <<"i", "i">>>>,
  <<"eqany", "b", <<"i", "i">>>>, <<"ltall", "b", <<"i", "i">>>>,
  <<"lower", "s", <<"s">>>>, <<"scoalesce", "s", <<"s", "s">>>>, <<"scasewhen", "s", <<"b", "s", "s">>>> >>
Of(t) == {x \in ToSet(Sig) : x[2] = t}
Args(k) == (CHOOSE x \in ToSet(Sig) : x[1] = k)[3]

Leaves(t) == CASE t = "i" -> {L("a", 0), L("b", 0), L("lit", 0), L("lit", 1), L("lit", 2), L("null", 0)}
               [] t = "b" -> {L("p", 0), L("blit", 0), L("blit", 1), L("bnull", 0)}
               [] t = "s" -> {L("s", 0), L("slit", 1), L("slit", 2), L("slit", 3), L("slit", 4)}
\* in exhaustive runs the leaf is determined by its position
LeafAt(t, i) == CASE t = "i" -> IF i = 1 THEN L("a", 0) ELSE IF i = 2 THEN L("b", 0) ELSE L("lit", i % 3)
                  [] t = "b" -> IF i % 2 = 1 THEN L("p", 0) ELSE N("lt", <<L("a", 0), L("lit", 2)>>)
                  [] t = "s" -> IF i = 1 THEN L("s", 0) ELSE L("slit", 4)

RECURSIVE Exprs(_, _, _), Lists(_, _, _)
Lists(ts, d, i) == IF i > Len(ts) THEN {<<>>} ELSE {<<x>> \o r : x \in Exprs(ts[i], d, i), r \in Lists(ts, d, i + 1)}
\* all trees in which only operators with few operands have several composed operands
Exprs(t, d, i) == {LeafAt(t, i)} \cup
    (IF d = 0 THEN {} ELSE UNION {
        IF d = 1 \/ Len(x[3]) <= 1 THEN {N(x[1], l) : l \in Lists(x[3], d - 1, 1)}
        ELSE IF Len(x[3]) = 2 THEN {N(x[1], l) : l \in Lists(x[3], d - 1, 1)}
        ELSE UNION {{N(x[1], [j \in 1..Len(x[3]) |-> IF j = m THEN y ELSE LeafAt(x[3][j], j)]) : y \in Exprs(x[3][m], d - 1, m)} : m \in 1..Len(x[3])} : x \in Of(t)})

RECURSIVE Rnd(_, _)
Rnd(t, d) == IF d = 0 \/ RandomElement(1..5) = 1 THEN RandomElement(Leaves(t))
             ELSE LET x == RandomElement(Of(t)) IN N(x[1], [i \in 1..Len(x[3]) |-> Rnd(x[3][i], d - 1)])

(* ------------------------------------------------ meaning *)
B(c) == IF c THEN 1 ELSE 0
Not3(x) == IF x = NULL THEN NULL ELSE 1 - x
And3(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = NULL \/ y = NULL THEN NULL ELSE 1
Or3(x, y) == IF x = 1 \/ y = 1 THEN 1 ELSE IF x = NULL \/ y = NULL THEN NULL ELSE 0
Cmp(k, x, y) == IF x = NULL \/ y = NULL THEN NULL
                ELSE B(CASE k = "eq" -> x = y [] k = "ne" -> x # y [] k = "lt" -> x < y [] k = "le" -> x <= y [] k = "gt" -> x > y [] k = "ge" -> x >= y)
Arith(k, x, y) == IF x = NULL \/ y = NULL THEN NULL ELSE CASE k = "add" -> x + y [] k = "sub" -> x - y [] k = "mul" -> x * y
Abs(x) == IF x < 0 THEN -x ELSE x
\* remainder as in SQL: the sign of the dividend; undefined for 0 (NULL in the database at hand)
Mod(x, y) == IF x = NULL \/ y = NULL \/ y = 0 THEN NULL ELSE LET m == Abs(x) % Abs(y) IN IF x < 0 THEN -m ELSE m
Between(x, l, h) == And3(Cmp("ge", x, l), Cmp("le", x, h))
\* the patterns 'a', 'ab', 'B', 'a%' and the strings 'a', 'ab', 'B', 'a%', 'b' (lower case of 'B': 5)
Strings == <<"a", "ab", "B", "a%", "b">>
Like == {<<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<5, 5>>, <<1, 4>>, <<2, 4>>}
ILike == Like \cup {<<3, 5>>, <<5, 3>>}
Match(S, x, y) == IF x = NULL \/ y = NULL THEN NULL ELSE B(<<x, y>> \in S)
\* rows 1, 2 of the second table for subqueries: z = 0, z = 2; (empty if the condition is not true)
Z == <<0, 2>>

RECURSIVE Digits(_)
Digits(x) == IF x < 0 THEN 1 + Digits(-x) ELSE IF x < 10 THEN 1 ELSE 1 + Digits(x \div 10)

RECURSIVE Ev(_, _)
Ev(x, r) ==
    LET k == x.k
        V(i) == Ev(x.ch[i], r) IN
    CASE k \in {"a", "b", "p", "s"} -> r[k]
      [] k \in {"lit", "blit", "slit"} -> x.v
      [] k \in {"null", "bnull"} -> NULL
      [] k \in {"add", "sub", "mul"} -> Arith(k, V(1), V(2))
      [] k = "mod" -> Mod(V(1), V(2))
      [] k = "neg" -> LET v == V(1) IN IF v = NULL THEN NULL ELSE -v
      [] k = "abs" -> LET v == V(1) IN IF v = NULL THEN NULL ELSE Abs(v)
      [] k \in {"coalesce", "scoalesce"} -> LET v == V(1) IN IF v = NULL THEN V(2) ELSE v
      [] k \in {"case", "scasewhen"} -> IF V(1) = 1 THEN V(2) ELSE V(3)
      [] k = "case1" -> IF V(1) = 1 THEN V(2) ELSE NULL
      [] k = "case2" -> IF V(1) = 1 THEN V(2) ELSE IF V(3) = 1 THEN V(4) ELSE V(5)
      [] k = "scase" -> IF Cmp("eq", V(1), V(2)) = 1 THEN V(3) ELSE V(4)
      [] k = "cast" -> V(1)
      [] k = "clen" -> LET v == V(1) IN IF v = NULL THEN NULL ELSE Digits(v)   \* LENGTH(CAST(.. AS VARCHAR))
      [] k = "subq" -> V(1)                        \* (SELECT max(..) FROM one row)
      [] k \in {"eq", "ne", "lt", "le", "gt", "ge"} -> Cmp(k, V(1), V(2))
      [] k = "seq" -> Cmp("eq", V(1), V(2))
      [] k = "beq" -> Cmp("eq", V(1), V(2))
      [] k = "between" -> Between(V(1), V(2), V(3))
      [] k = "nbetween" -> Not3(Between(V(1), V(2), V(3)))
      [] k = "in" -> Or3(Cmp("eq", V(1), V(2)), Cmp("eq", V(1), V(3)))
      [] k = "nin" -> Not3(Or3(Cmp("eq", V(1), V(2)), Cmp("eq", V(1), V(3))))
      [] k = "in1" -> Cmp("eq", V(1), V(2))
      [] k \in {"isnull", "bisnull"} -> B(V(1) = NULL)
      [] k = "notnull" -> B(V(1) # NULL)
      [] k = "and" -> And3(V(1), V(2))
      [] k = "or" -> Or3(V(1), V(2))
      [] k = "and3" -> And3(V(1), And3(V(2), V(3)))
      [] k = "or3" -> Or3(V(1), Or3(V(2), V(3)))
      [] k = "not" -> Not3(V(1))
      [] k = "distinct" -> B(V(1) # V(2))
      [] k = "ndistinct" -> B(V(1) = V(2))
      [] k = "like" -> Match(Like, V(1), V(2))
      [] k = "nlike" -> Not3(Match(Like, V(1), V(2)))
      [] k = "ilike" -> Match(ILike, V(1), V(2))
      [] k = "nilike" -> Not3(Match(ILike, V(1), V(2)))
      [] k = "lower" -> LET v == V(1) IN IF v = 3 THEN 5 ELSE v
      [] k = "exists" -> B(V(1) = 1)               \* EXISTS (SELECT 1 FROM z WHERE cond)
      [] k = "nexists" -> B(V(1) # 1)
      [] k = "insub" -> Or3(Cmp("eq", V(1), Arith("add", V(2), Z[1])), Cmp("eq", V(1), Arith("add", V(2), Z[2])))
      [] k = "ninsub" -> Not3(Or3(Cmp("eq", V(1), Arith("add", V(2), Z[1])), Cmp("eq", V(1), Arith("add", V(2), Z[2]))))
      [] k = "eqany" -> Or3(Cmp("eq", V(1), Arith("add", V(2), Z[1])), Cmp("eq", V(1), Arith("add", V(2), Z[2])))
      [] k = "ltall" -> And3(Cmp("lt", V(1), Arith("add", V(2), Z[1])), Cmp("lt", V(1), Arith("add", V(2), Z[2])))

Value(x) == [i \in 1..16 |-> Ev(x, Rows[i])]

(* ------------------------------------------------ the enumeration *)
Nil == L("", 0)
Init == e = Nil /\ done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ IF Sim THEN \E t \in {RandomElement(Types)} : e' = Rnd(t, Depth)
           ELSE \E t \in Types : e' \in Exprs(t, Depth, 1)
Stop == done /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars

TypeOf(x) == IF x.k \in {"a", "b", "lit", "null"} THEN "i" ELSE IF x.k \in {"p", "blit", "bnull"} THEN "b" ELSE IF x.k \in {"s", "slit"} THEN "s"
             ELSE (CHOOSE g \in ToSet(Sig) : g[1] = x.k)[2]
(* laws of the algebra that the semantics has to satisfy *)
DeMorgan == done /\ e.k = "and" => \A i \in 1..16 : Ev(N("not", <<e>>), Rows[i]) = Ev(N("or", <<N("not", <<e.ch[1]>>), N("not", <<e.ch[2]>>)>>), Rows[i])
Domain == done => \A i \in 1..16 : LET v == Ev(e, Rows[i]) IN TypeOf(e) = "b" => v \in {NULL, 0, 1}
Negation == done /\ e.k \in {"in", "between", "like", "insub"} => \A i \in 1..16 : Not3(Ev(e, Rows[i])) = Ev([e EXCEPT !.k = CASE e.k = "in" -> "nin" [] e.k = "between" -> "nbetween" [] e.k = "like" -> "nlike" [] e.k = "insub" -> "ninsub"], Rows[i])
Emitted == done => PrintT("@@" \o ToJson([type |-> TypeOf(e), e |-> e, val |-> Value(e)]))
=============================================================================
