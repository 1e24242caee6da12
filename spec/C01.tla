------------------------------- MODULE C01 -------------------------------
(* The three-valued cardinality domain: known row counts, unknown, infinite.  *)
(* State: an accumulator holding a cardinality.  Each action applies one      *)
(* operator with one operand (a cardinality or a plain number) on one side.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Known,      \* row counts used as operands
          Fracs,      \* numerators of plain numbers n/4
          MaxLen,     \* length of a behaviour
          Limit,      \* largest row count that is explored
          Sim         \* TRUE: operands are drawn at random (simulation mode)

VARIABLES acc, h
vars == <<acc, h>>

K(n) == [k |-> "K", n |-> n]
U == [k |-> "U", n |-> 0]
I == [k |-> "I", n |-> 0]
Card == {K(n) : n \in Known} \cup {U, I}

(* plain numbers: rationals n/d, nan, inf *)
Num(n, d) == [k |-> "N", n |-> n, d |-> d]
NaN == [k |-> "NaN", n |-> 0, d |-> 1]
Inf == [k |-> "Inf", n |-> 0, d |-> 1]
Numbers == {Num(n, 1) : n \in Known} \cup {Num(n, 4) : n \in Fracs} \cup {NaN, Inf}

(* extended value of an operand: rational, unknown, infinite *)
Ext(x) == CASE x.k = "K" -> Num(x.n, 1) [] x.k = "U" -> NaN [] x.k = "I" -> Inf [] OTHER -> x

Abs(x) == IF x < 0 THEN -x ELSE x
\* nearest integer, ties to even (n >= 0, d > 0)
Round(n, d) ==
  LET q == n \div d
      r == n % d
  IN IF 2 * r < d THEN q ELSE IF 2 * r > d THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1

Undef == [k |-> "undef", n |-> 0]
(* turning an extended value into a cardinality *)
ToCard(e) == CASE e.k = "NaN" -> U
               [] e.k = "Inf" -> I
               [] e.k = "N" /\ e.n < 0 -> Undef
               [] OTHER -> K(Round(e.n, e.d))

RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

Bad == [k |-> "bad", n |-> 0, d |-> 1]
IsNum(e) == e.k = "N"
IsZero(e) == IsNum(e) /\ e.n = 0

Add(a, b) == CASE a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] a.k = "Inf" \/ b.k = "Inf" -> Inf
               [] OTHER -> Num(a.n * b.d + b.n * a.d, a.d * b.d)
Sub(a, b) == CASE a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] a.k = "Inf" /\ b.k = "Inf" -> NaN          \* indeterminate
               [] a.k = "Inf" -> Inf
               [] b.k = "Inf" -> Bad                          \* would be negative
               [] OTHER -> LET n == a.n * b.d - b.n * a.d IN IF n < 0 THEN Bad ELSE Num(n, a.d * b.d)
Mul(a, b) == CASE a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] a.k = "Inf" \/ b.k = "Inf" -> IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Inf
               [] OTHER -> Num(a.n * b.n, a.d * b.d)
Div(a, b) == CASE IsZero(b) -> Bad
               [] a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] a.k = "Inf" /\ b.k = "Inf" -> NaN
               [] a.k = "Inf" -> Inf
               [] b.k = "Inf" -> Num(0, 1)
               [] OTHER -> Num(a.n * b.d, a.d * b.n)
FloorDiv(a, b) == LET q == Div(a, b) IN IF IsNum(q) THEN Num(q.n \div q.d, 1) ELSE q
Mod(a, b) == CASE IsZero(b) -> Bad
               [] a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] a.k = "Inf" -> NaN
               [] b.k = "Inf" -> a
               [] OTHER -> LET fd == (a.n * b.d) \div (a.d * b.n)
                           IN Num(a.n * b.d - fd * b.n * a.d, a.d * b.d)
Pow(a, b) == CASE a.k = "NaN" \/ b.k = "NaN" -> NaN
               [] IsNum(b) /\ b.d # 1 -> Bad                  \* roots are not explored
               [] IsZero(b) -> Num(1, 1)
               [] a.k = "Inf" -> Inf
               [] b.k = "Inf" -> CASE a.n = 0 -> Num(0, 1) [] a.n = a.d -> Num(1, 1) [] a.n < a.d -> Num(0, 1) [] OTHER -> Inf
               [] b.n > 4 \/ a.n > 40 -> Bad
               [] OTHER -> Num(IPow(a.n, b.n), IPow(a.d, b.n))

Ops == {"add", "sub", "mul", "div", "floordiv", "mod", "pow"}
Eval(op, a, b) == CASE op = "add" -> Add(a, b) [] op = "sub" -> Sub(a, b) [] op = "mul" -> Mul(a, b)
                    [] op = "div" -> Div(a, b) [] op = "floordiv" -> FloorDiv(a, b)
                    [] op = "mod" -> Mod(a, b) [] op = "pow" -> Pow(a, b)

Unary == {"round", "floor", "ceil", "trunc", "abs", "of", "rewrap"}

(* comparisons: unknown is comparable to nothing (all orderings false), equal to itself only *)
Less(a, b) == CASE a.k = "NaN" \/ b.k = "NaN" -> FALSE
                [] a.k = "Inf" -> FALSE
                [] b.k = "Inf" -> TRUE
                [] OTHER -> a.n * b.d < b.n * a.d
Same(a, b) == CASE a.k # b.k -> FALSE
                [] a.k = "N" -> a.n * b.d = b.n * a.d
                [] OTHER -> TRUE
LessEq(a, b) == a.k # "NaN" /\ (Less(a, b) \/ Same(a, b))
Cmp(a, b) == LET x == Ext(a) y == Ext(b)
             IN [eq |-> Same(x, y), lt |-> Less(x, y), le |-> LessEq(x, y), gt |-> Less(y, x), ge |-> LessEq(y, x)]
Kind(c) == [valid |-> c.k = "K", nan |-> c.k = "U", inf |-> c.k = "I", value |-> c.n]

(* ---------------------------------------------------------------- transitions *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Small(c) == c.k # "K" \/ c.n <= Limit
Init == /\ acc \in Card /\ h = <<[op |-> "start", v |-> acc, st |-> Kind(acc)]>>

Binary(op, side, x) ==
  LET e == IF side = "left" THEN Eval(op, Ext(acc), Ext(x)) ELSE Eval(op, Ext(x), Ext(acc))
      c == IF e = Bad THEN Undef ELSE ToCard(e)
  IN /\ c # Undef /\ Small(c)
     /\ acc' = c
     /\ h' = Append(h, [op |-> op, side |-> side, x |-> x, res |-> c, cmp |-> Cmp(acc, x), cmpr |-> Cmp(c, x), st |-> Kind(c)])
UnaryStep(op) == /\ acc' = acc
                 /\ h' = Append(h, [op |-> op, res |-> acc, st |-> Kind(acc)])
Build(x) == /\ acc' = ToCard(x)          \* constructing a cardinality from a plain number
            /\ h' = Append(h, [op |-> "build", x |-> x, res |-> ToCard(x), st |-> Kind(ToCard(x))])

Next == /\ Len(h) < MaxLen + 1
        /\ \/ \E op \in Pick(Ops), side \in Pick({"left", "right"}), x \in Pick(Card \cup Numbers) : Binary(op, side, x)
           \/ \E op \in Pick(Unary) : UnaryStep(op)
           \/ \E x \in Pick(Numbers) : Build(x)
Spec == Init /\ [][Next]_vars

Emit == Len(h) = MaxLen + 1 => PrintT("@@" \o ToJson(h))
----------------------------------------------------------------------------
(* laws of the domain, checked by TLC on every reachable accumulator *)
TypeOK == acc.k \in {"K", "U", "I"} /\ acc.n \in Nat
UnknownAbsorbs == \A op \in Ops, x \in Card \cup Numbers :
    LET e == Eval(op, Ext(U), Ext(x)) f == Eval(op, Ext(x), Ext(U))
    IN (e # Bad => ToCard(e) = U) /\ (f # Bad => ToCard(f) = U)
OrderTotal == \A a, b \in (Card \cup {acc}) \ {U} :
    Cardinality({r \in {"lt", "eq", "gt"} : Cmp(a, b)[r]}) = 1
EqEquivalence == \A a, b, c \in Card \cup {acc} :
    /\ Cmp(a, a).eq /\ (Cmp(a, b).eq = Cmp(b, a).eq)
    /\ (Cmp(a, b).eq /\ Cmp(b, c).eq => Cmp(a, c).eq)
OrderTransitive == \A a, b, c \in Card \cup {acc} : Cmp(a, b).lt /\ Cmp(b, c).lt => Cmp(a, c).lt
DivMod == \A a, b \in {Num(n, 1) : n \in Known} : b.n # 0 =>
    FloorDiv(a, b).n * b.n + Mod(a, b).n = a.n
==========================================================================
