------------------------------- MODULE C20 -------------------------------
(* Workloads: a history of operations over a growing pool of workloads.  A    *)
(* workload maps labels to queries and has an order; no operation touches an  *)
(* older workload.  Labels are numbered in their natural order.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS NL, NQ, Kinds, MaxOps, Start, Sim
\* Start: which initial contents are explored ("small", "any")

VARIABLES pool, hist, ph
vars == <<pool, hist, ph>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
L == 1..NL
Q == 1..NQ

\* ------------------------------------------------------------- workloads
Natural(S) == SetToSortSeq(S, <)
Make(m, named) == [m |-> m, order |-> Natural(DOMAIN m), name |-> named]
Keep(w, S) == Make([l \in DOMAIN w.m \cap S |-> w.m[l]], w.name)
Sub(S, n) == {s \in SUBSET S : Cardinality(s) = n}
Min2(a, b) == IF a < b THEN a ELSE b
\* own entries win
Union(a, b) == Make([l \in DOMAIN a.m \cup DOMAIN b.m |-> IF l \in DOMAIN a.m THEN a.m[l] ELSE b.m[l]], a.name)

\* labels 1..3 start with "a", the others with "b"; 1, 3 start with "a1"
Prefixed(p) == CASE p = "a" -> {1, 2, 3} [] p = "b" -> {4, 5, 6} [] p = "a1" -> {1, 3} [] p = "" -> L [] p = "zz" -> {}
Rename(r, l, q) == CASE r = "reverse" -> NL + 1 - l
                     [] r = "rotate" -> IF l = NL THEN 1 ELSE l + 1
                     [] r = "same" -> l
Rewrite(f, q) == CASE f = "next" -> IF q = NQ THEN 1 ELSE q + 1
                   [] f = "one" -> 1
                   [] f = "same" -> q
Chosen(p, l, q) == CASE p = "odd label" -> l % 2 = 1
                     [] p = "small query" -> q <= 2
                     [] p = "both" -> l % 2 = q % 2
                     [] p = "all" -> TRUE
                     [] p = "none" -> FALSE
Renamed(w, r, f) == LET old(l) == CHOOSE o \in DOMAIN w.m : Rename(r, o, w.m[o]) = l IN
                    Make([l \in {Rename(r, o, w.m[o]) : o \in DOMAIN w.m} |-> Rewrite(f, w.m[old(l)])], w.name)

\* ------------------------------------------------------------- observations
Labels(w) == w.order
Queries(w) == [k \in 1..Len(w.order) |-> w.m[w.order[k]]]
Obs(w) == [labels |-> Labels(w), queries |-> Queries(w), name |-> w.name]

Contents == IF Start = "small" THEN {[l \in {1, 2, 3} |-> l], [l \in {2, 3, 4} |-> IF l = 2 THEN 1 ELSE l], <<>>}
            ELSE {}
RandomContents == LET S == RandomElement(SUBSET L) IN [l \in S |-> RandomElement(Q)]

Init == pool = <<>> /\ hist = <<>> /\ ph = "first"

Create(ms) == \E k \in {0, 1} : LET named == Len(pool) + 1 IN
              \E m \in ms : k = 0 /\ pool' = Append(pool, Make(m, named)) /\ hist' = Append(hist, [op |-> "create", a |-> 0, b |-> 0, arg |-> "", n |-> 0, set |-> {}, perm |-> <<>>])

Step(op, a, b, arg, n, S, perm, res) ==
    /\ pool' = Append(pool, res)
    /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b, arg |-> arg, n |-> n, set |-> S, perm |-> perm])

Ops == {"with_labels", "first", "last", "pick", "with_prefix", "filter", "relabel", "map", "transform", "shuffle", "ordered", "add", "or", "ior", "ordict", "sub", "and", "sublabels", "andlabels", "copy"}

Operate(op, a) ==
    LET w == pool[a] IN
    CASE op \in {"with_labels", "sublabels", "andlabels"} ->
           \E S \in IF Sim THEN {RandomElement(SUBSET L)} ELSE {{}, {1, 3}, {2, 3, 4, 5}} :
              Step(op, a, 0, "", 0, S, <<>>, IF op = "sublabels" THEN Keep(w, L \ S) ELSE Keep(w, S))
      [] op \in {"first", "last"} ->
           \E n \in Pick(0..(NL + 1)) :
              LET k == Min2(n, Len(w.order))
                  taken == IF op = "first" THEN SubSeq(w.order, 1, k) ELSE SubSeq(w.order, Len(w.order) - k + 1, Len(w.order)) IN
              Step(op, a, 0, "", n, {}, <<>>, Keep(w, {taken[x] : x \in 1..Len(taken)}))
      [] op = "pick" -> \E n \in Pick(0..NL) : \E S \in Pick(Sub(DOMAIN w.m, Min2(n, Cardinality(DOMAIN w.m)))) :
                           Step(op, a, 0, "", n, S, <<>>, Keep(w, S))
      [] op = "with_prefix" -> \E p \in Pick({"a", "b", "a1", "", "zz"}) : Step(op, a, 0, p, 0, {}, <<>>, Keep(w, Prefixed(p)))
      [] op = "filter" -> \E p \in Pick({"odd label", "small query", "both", "all", "none"}) :
                            Step(op, a, 0, p, 0, {}, <<>>, Keep(w, {l \in DOMAIN w.m : Chosen(p, l, w.m[l])}))
      [] op = "relabel" -> \E r \in Pick({"reverse", "rotate", "same"}) : Step(op, a, 0, r, 0, {}, <<>>, Renamed(w, r, "same"))
      [] op = "map" -> \E f \in Pick({"next", "one", "same"}) : Step(op, a, 0, f, 0, {}, <<>>, Renamed(w, "same", f))
      [] op = "transform" -> Step(op, a, 0, "", 0, {}, <<>>, Renamed(w, "rotate", "next"))
      [] op = "shuffle" -> \E perm \in Pick(SetToSeqs(DOMAIN w.m)) : Step(op, a, 0, "", 0, {}, perm, [w EXCEPT !.order = perm])
      [] op \in {"ordered", "copy"} -> Step(op, a, 0, "", 0, {}, <<>>, IF op = "copy" THEN w ELSE Make(w.m, w.name))
      [] op \in {"add", "or", "ior", "ordict", "sub", "and"} ->
           \E b \in Pick(1..Len(pool)) :
              Step(op, a, b, "", 0, {}, <<>>, CASE op = "sub" -> Keep(w, L \ DOMAIN pool[b].m)
                                                [] op = "and" -> Keep(w, DOMAIN pool[b].m)
                                                [] OTHER -> Union(w, pool[b]))

Next == \/ ph = "first" /\ Create(IF Start = "small" THEN Contents ELSE {RandomContents}) /\ ph' = "second"
        \/ ph = "second" /\ Create(IF Start = "small" THEN Contents ELSE {RandomContents}) /\ ph' = "ops"
        \/ /\ ph = "ops" /\ Len(hist) < MaxOps + 2
           /\ \E op \in Pick(Kinds) : \E a \in IF Sim /\ Len(pool) > 3 THEN {RandomElement({1, 2, Len(pool), Len(pool) - 1, Len(pool)})} ELSE Pick(1..Len(pool)) : Operate(op, a)
           /\ ph' = IF Len(hist) + 1 = MaxOps + 2 THEN "print" ELSE ph
        \/ /\ ph = "print" /\ PrintT("@@" \o ToJson([ops |-> hist, obs |-> [k \in 1..Len(pool) |-> Obs(pool[k])]]))
           /\ ph' = "end" /\ UNCHANGED <<pool, hist>>
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties
Consistent == \A k \in 1..Len(pool) : LET w == pool[k] IN
    /\ {w.order[x] : x \in 1..Len(w.order)} = DOMAIN w.m
    /\ Len(w.order) = Cardinality(DOMAIN w.m)
    /\ \A x \in 1..Len(w.order) : Queries(w)[x] = w.m[Labels(w)[x]]
\* only shuffling (or a copy of a shuffled workload) gives another order than the natural one
NaturalOrder == \A k \in 1..Len(pool) : hist[k].op \notin {"shuffle", "copy"} => pool[k].order = Natural(DOMAIN pool[k].m)
\* the algebra of the operations
SetLaws == \A x \in 1..Len(pool) : \A y \in 1..Len(pool) : LET a == pool[x] b == pool[y] IN
    /\ Union(Keep(a, DOMAIN b.m), Keep(a, L \ DOMAIN b.m)).m = a.m
    /\ Union(a, b).m = Union(a, Keep(b, L \ DOMAIN a.m)).m
    /\ Keep(Union(a, b), DOMAIN a.m).m = a.m
    /\ Union(a, a).m = a.m
OlderUnchanged == [][SubSeq(pool', 1, Len(pool)) = pool]_vars
=============================================================================
