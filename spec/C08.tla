------------------------------- MODULE C08 -------------------------------
(* Join trees as persistent values.  The pool holds every tree built so far;  *)
(* each action derives a new tree and must leave all others as they are.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Anns, MaxLen, Sim

VARIABLES pool, h
vars == <<pool, h>>
T == 1..N
None == 0        \* "no annotation"

Empty == [k |-> "empty"]
Scan(t, a) == [k |-> "scan", t |-> t, ann |-> a]
Join(o, i, a) == [k |-> "join", o |-> o, i |-> i, ann |-> a]

RECURSIVE Tables(_), Depth(_), Linear(_), Leaves(_), Nodes(_), Joins(_), Lookup(_, _), Shape(_)
Tables(x) == CASE x.k = "empty" -> {} [] x.k = "scan" -> {x.t} [] OTHER -> Tables(x.o) \cup Tables(x.i)
Max(a, b) == IF a > b THEN a ELSE b
Depth(x) == CASE x.k = "empty" -> 0 [] x.k = "scan" -> 1 [] OTHER -> 1 + Max(Depth(x.o), Depth(x.i))
\* every join has a base table as one of its inputs
Linear(x) == x.k = "scan" \/ (x.k = "join" /\ (x.o.k = "scan" \/ x.i.k = "scan") /\ Linear(x.o) /\ Linear(x.i))
Leaves(x) == CASE x.k = "empty" -> <<>> [] x.k = "scan" -> <<x.t>> [] OTHER -> Leaves(x.o) \o Leaves(x.i)
Mark(x) == [tabs |-> Tables(x), ann |-> x.ann, k |-> x.k]
Nodes(x) == CASE x.k = "empty" -> <<>> [] x.k = "scan" -> <<Mark(x)>> [] OTHER -> <<Mark(x)>> \o Nodes(x.o) \o Nodes(x.i)
Joins(x) == IF x.k # "join" THEN <<>> ELSE Joins(x.o) \o Joins(x.i) \o <<[tabs |-> Tables(x), outer |-> Tables(x.o), inner |-> Tables(x.i), ann |-> x.ann]>>
NoNode == [tabs |-> {}, ann |-> 0, k |-> "none"]
Lookup(x, S) == CASE x.k = "empty" -> NoNode
                  [] Tables(x) = S -> Mark(x)
                  [] x.k = "scan" \/ ~(S \subseteq Tables(x)) -> NoNode
                  [] OTHER -> LET l == Lookup(x.o, S) IN IF l # NoNode THEN l ELSE Lookup(x.i, S)
\* structure without annotations: what equality and hashing are about
Shape(x) == CASE x.k = "empty" -> <<>> [] x.k = "scan" -> <<x.t>> [] OTHER -> <<0>> \o Shape(x.o) \o Shape(x.i)
BaseJoin(x) == x.k = "join" /\ x.o.k = "scan" /\ x.i.k = "scan"

(* ------------------------------------------------------------------ actions *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
PickNE(S) == IF S = {} THEN {} ELSE Pick(S)
Idx == 1..Len(pool)
A == Anns \cup {None}
Step(op, i, args, r) == /\ pool' = Append(pool, r)
                        /\ h' = Append(h, [op |-> op, on |-> i, args |-> args, res |-> r])

MkEmpty == Step("empty", 0, <<>>, Empty)
MkScan == \E t \in Pick(T), a \in Pick(A) : Step("scan", 0, <<t, a>>, Scan(t, a))
Disjoint(i, j) == Tables(pool[i]) \cap Tables(pool[j]) = {}
NonEmpty == {i \in Idx : pool[i].k # "empty"}
MkJoin == \E p \in PickNE({p \in NonEmpty \X NonEmpty : Disjoint(p[1], p[2])}), a \in Pick(A) :
            Step("join", p[1], <<p[2], a>>, Join(pool[p[1]], pool[p[2]], a))
JoinWith(x, y, dir, a) == CASE y.k = "empty" -> x [] x.k = "empty" -> y
                            [] dir = "inner" -> Join(x, y, a) [] OTHER -> Join(y, x, a)
JoinTree == \E p \in PickNE({p \in Idx \X Idx : Disjoint(p[1], p[2])}), a \in Pick(A), d \in Pick({"inner", "outer"}) :
            Step("join_tree", p[1], <<p[2], a, d>>, JoinWith(pool[p[1]], pool[p[2]], d, a))
JoinTable == \E p \in PickNE({p \in Idx \X T : p[2] \notin Tables(pool[p[1]])}), a \in Pick(A), b \in Pick(A), d \in Pick({"inner", "outer"}) :
            Step("join_table", p[1], <<p[2], a, b, d>>, JoinWith(pool[p[1]], Scan(p[2], b), d, a))
Annotate == \E i \in PickNE(NonEmpty), a \in Pick(A) : Step("annotate", i, <<a>>, [pool[i] EXCEPT !.ann = a])

Init == pool = <<>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E k \in Pick(1..(IF Sim THEN 9 ELSE 6)) :
             \/ (k = 1 /\ MkEmpty)
             \/ (k = 2 /\ MkScan)
             \/ (k \in {3, 7} /\ MkJoin)
             \/ (k \in {4, 8} /\ JoinTree)
             \/ (k \in {5, 9} /\ JoinTable)
             \/ (k = 6 /\ Annotate)
             \/ (Sim /\ Len(h) < 2 /\ MkScan)
Spec == Init /\ [][Next]_vars

(* large trees of every shape: scans of all tables, whose trees are joined until one is left *)
Forest == {i \in Idx : \A j \in Idx : Tables(pool[i]) \subseteq Tables(pool[j]) => i = j}
InitF == /\ pool = [t \in T |-> Scan(t, None)]
         /\ h = [t \in T |-> [op |-> "scan", on |-> 0, args |-> <<t, None>>, res |-> Scan(t, None)]]
NextF == \E p \in PickNE({p \in Forest \X Forest : p[1] # p[2]}), a \in Pick(A) : Step("join", p[1], <<p[2], a>>, Join(pool[p[1]], pool[p[2]], a))
SpecF == InitF /\ [][NextF]_vars

Obs(x) == [tree |-> x, tabs |-> Tables(x), depth |-> Depth(x), linear |-> Linear(x), leaves |-> Leaves(x), nodes |-> Nodes(x),
           joins |-> Joins(x), base |-> BaseJoin(x),
           lookup |-> {[s |-> S, r |-> Lookup(x, S)] : S \in (SUBSET T) \ {{}}}]
Emit == (Len(h) = MaxLen \/ (~Sim /\ h # <<>>)) =>
    PrintT("@@" \o ToJson([h |-> h, obs |-> IF Sim THEN [i \in Idx |-> Obs(pool[i])] ELSE <<Obs(pool[Len(pool)])>>,
                           eq |-> {p \in Idx \X Idx : Shape(pool[p[1]]) = Shape(pool[p[2]])}]))
----------------------------------------------------------------------------
SeqSet(s) == {s[i] : i \in DOMAIN s}
WellFormed == \A i \in Idx : LET x == pool[i] IN
    /\ SeqSet(Leaves(x)) = Tables(x) /\ Len(Leaves(x)) = Cardinality(Tables(x))      \* every table exactly once
    /\ Len(Joins(x)) = Max(0, Cardinality(Tables(x)) - 1)
    /\ \A S \in SUBSET T : Lookup(x, S) # NoNode => Lookup(x, S).tabs = S
    /\ \A n \in SeqSet(Nodes(x)) : Lookup(x, n.tabs) = n
Persistent == [][\A i \in Idx : pool'[i] = pool[i]]_vars
==========================================================================
