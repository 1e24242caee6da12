------------------------------- MODULE C27 -------------------------------
(* Learned operator selection (TONIC): a synopsis of join paths.  Every join  *)
(* of a plan lies on a path of tables and subqueries; on each path the costs  *)
(* of the operators are learned, and the cheapest one is recommended.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS N, MaxLen, Sim
VARIABLES cfg, qs, trees, known, h
vars == <<cfg, qs, trees, known, h>>

RE(S) == RandomElement(S)
One(S) == IF Sim THEN {RE(S)} ELSE S
Refs == 1..N
Ops == {"hash", "merge", "nestloop"}
Scale == 65536                                \* costs are multiples of 1 / Scale

(* ------------------------------------------------ join trees: <<table>> or <<outer, inner>> *)
IsLeaf(t) == Len(t) = 1
RECURSIVE Depth(_), Tabs(_), Shuffle(_), Grow(_), Chain(_)
Depth(t) == IF IsLeaf(t) THEN 0 ELSE 1 + Max({Depth(t[1]), Depth(t[2])})
Tabs(t) == IF IsLeaf(t) THEN {t[1]} ELSE Tabs(t[1]) \cup Tabs(t[2])
\* the deepest path goes on in the deeper input, the inner one if they are equally deep
Deeper(t) == IF Depth(t[2]) < Depth(t[1]) THEN t[1] ELSE t[2]
Other(t) == IF Depth(t[2]) < Depth(t[1]) THEN t[2] ELSE t[1]
Chain(t) == IF IsLeaf(t) THEN <<>> ELSE Append(Chain(Deeper(t)), t)
Shuffle(t) == IF IsLeaf(t) THEN t ELSE IF RE(1..3) > 1 THEN <<Shuffle(t[1]), Shuffle(t[2])>> ELSE <<Shuffle(t[2]), Shuffle(t[1])>>
Grow(s) == IF Len(s) = 1 THEN s[1]
           ELSE CHOOSE t \in {Grow(Append(RemoveAt(RemoveAt(s, p[1]), p[2]), <<s[p[1]], RemoveAt(s, p[1])[p[2]]>>)) : p \in {<<RE(1..Len(s)), RE(1..(Len(s) - 1))>>}} : TRUE
Leaves(m) == [i \in 1..m |-> <<i>>]
RandomTree(m) == Grow(Leaves(m))
AllTrees == LET P == {p \in [1..3 -> 1..3] : \A i \in 1..3 : \A j \in 1..3 : i # j => p[i] # p[j]}
            IN {<<<<<<p[1]>>, <<p[2]>>>>, <<p[3]>>>> : p \in P} \cup {<<<<p[3]>>, <<<<p[1]>>, <<p[2]>>>>>> : p \in P}

(* ------------------------------------------------ the path of each join *)
Node(s, f) == [s |-> s, f |-> f]
Inside == Node({}, 0)                         \* the joins of a subquery are learned below it
Table(k, r) == Node({qs[k].rel[r]}, IF cfg.aware THEN qs[k].filter[r] ELSE 0)
Group(k, S) == Node({qs[k].rel[r] : r \in S}, 0)
First(k, r, s) == qs[k].rel[r] < qs[k].rel[s] \/ (qs[k].rel[r] = qs[k].rel[s] /\ IF qs[k].rev THEN r > s ELSE r < s)
At(p, t) == <<[p |-> p, s |-> Tabs(t)]>>
RECURSIVE Along(_, _, _)
Along(k, chain, p) ==
    IF chain = <<>> THEN <<>>
    ELSE LET t == Head(chain)
             a == t[1][1]  b == t[2][1]
         IN IF IsLeaf(t[1]) /\ IsLeaf(t[2])
            THEN LET q == p \o (IF First(k, a, b) THEN <<Table(k, a), Table(k, b)>> ELSE <<Table(k, b), Table(k, a)>>) IN At(q, t) \o Along(k, Tail(chain), q)
            ELSE IF IsLeaf(Other(t))
            THEN LET q == Append(p, Table(k, Other(t)[1])) IN At(q, t) \o Along(k, Tail(chain), q)
            ELSE LET q == Append(p, Group(k, Tabs(Other(t)))) IN At(q, t) \o Along(k, Chain(Other(t)), Append(q, Inside)) \o Along(k, Tail(chain), q)
Steps(k, t) == Along(k, Chain(t), <<>>)

(* ------------------------------------------------ what was learned *)
Key(p, o) == [p |-> p, o |-> o]
Has(m, p, o) == Key(p, o) \in DOMAIN m
Cost(m, p, o) == IF Has(m, p, o) THEN m[Key(p, o)] ELSE 0
Known(m, p) == {o \in Ops : Has(m, p, o)}
Learn(m, p, o, c) == LET new == c * Scale + (Cost(m, p, o) * cfg.gamma) \div 2      \* gamma in halves
                     IN [x \in DOMAIN m \cup {Key(p, o)} |-> IF x = Key(p, o) THEN new ELSE m[x]]
RECURSIVE LearnAll(_, _, _)
\* ss is a sequence of [p, s, o, c]
LearnAll(m, ss, i) == IF i > Len(ss) THEN m ELSE LearnAll(Learn(m, ss[i].p, ss[i].o, ss[i].c), ss, i + 1)
Best(p) == {o \in Known(known, p) : \A x \in Known(known, p) : Cost(known, p, o) <= Cost(known, p, x)}
Advice(k, t) == LET ss == Steps(k, t) IN [i \in DOMAIN ss |-> [s |-> SetToSeq(ss[i].s), o |-> SetToSeq(IF Cardinality(Known(known, ss[i].p)) > 1 THEN Best(ss[i].p) ELSE {})]]
Missing(k, t, O) == LET ss == Steps(k, t) IN [i \in DOMAIN ss |-> [s |-> SetToSeq(ss[i].s), o |-> SetToSeq(O \ Known(known, ss[i].p))]]
\* costs of the database's own cost model, with true cardinalities
Native(S, o) == 1 + ((SumSet(S) + (CASE o = "hash" -> 0 [] o = "merge" -> 2 [] OTHER -> 3)) % 4)
RECURSIVE Times(_, _, _, _)
Times(m, p, oc, n) == IF n = 0 THEN m ELSE Times(Learn(m, p, oc[1], oc[2]), p, oc, n - 1)
RECURSIVE ExploreAll(_, _, _, _)
ExploreAll(m, ss, O, n) == IF ss = <<>> THEN m
                           ELSE LET x == Head(ss)
                                    one[S \in SUBSET O] == IF S = {} THEN m ELSE LET o == CHOOSE o \in S : TRUE IN Times(one[S \ {o}], x.p, <<o, Native(x.s, o)>>, n)
                                IN ExploreAll(one[O], Tail(ss), O, n)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)

(* ------------------------------------------------ actions *)
Blank == [op |-> "", k |-> 0, tree |-> <<>>, joins |-> <<>>, want |-> <<>>, ops |-> <<>>, n |-> 0]
Note(r) == h' = Append(h, r) /\ UNCHANGED <<cfg, qs, trees>>
Ks == DOMAIN qs
Pool(k) == IF Sim THEN {Shuffle(trees[k][RE(DOMAIN trees[k])])} ELSE ToSet(trees[k])
Pick(n) == IF Sim THEN {[i \in 1..n |-> <<RE(Ops), RE(1..4)>>]} ELSE {[i \in 1..n |-> <<o, c>>] : o \in {"hash", "merge"}, c \in 1..2}
Integrate(op) == \E k \in One(Ks) : \E t \in Pool(k) : \E x \in Pick(Len(Steps(k, t))) :
    LET ss == Steps(k, t)
        joins == [i \in DOMAIN ss |-> [p |-> ss[i].p, s |-> ss[i].s, o |-> x[i][1], c |-> x[i][2]]]
    IN /\ known' = LearnAll(known, joins, 1)
       /\ Note([Blank EXCEPT !.op = op, !.k = k, !.tree = t, !.joins = [i \in DOMAIN ss |-> [s |-> SetToSeq(ss[i].s), o |-> x[i][1], c |-> x[i][2]]]])
Recommend == \E k \in One(Ks) : \E t \in Pool(k) : Note([Blank EXCEPT !.op = "recommend", !.k = k, !.tree = t, !.want = Advice(k, t)]) /\ UNCHANGED known
Unknown == \E k \in One(Ks) : \E t \in Pool(k) : \E O \in One(SUBSET Ops) :
             Note([Blank EXCEPT !.op = "unknown", !.k = k, !.tree = t, !.want = Missing(k, t, O), !.ops = SetToSeq(O)]) /\ UNCHANGED known
Reload == Note([Blank EXCEPT !.op = "reload"]) /\ UNCHANGED known
Reset == Note([Blank EXCEPT !.op = "reset"]) /\ known' = <<>>
Explored == \E i \in DOMAIN h : h[i].op = "explore"
Explore == \E k \in Ks : \E t \in Pool(k) : \E O \in {X \in SUBSET Ops : Cardinality(X) = 2} : \E cap \in {-1, Power(2, N)} :
             /\ ~Explored /\ Len(Steps(k, t)) <= 3
             /\ known' = ExploreAll(known, Steps(k, t), O, Power(2, Len(Steps(k, t)) - 1))
             /\ Note([Blank EXCEPT !.op = "explore", !.k = k, !.tree = t, !.ops = SetToSeq(O), !.n = cap])
Sample == \E k \in One(Ks) : \E t \in Pool(k) : \E n \in One(1..3) :
             Note([Blank EXCEPT !.op = "sample", !.k = k, !.tree = t, !.ops = SetToSeq(Ops), !.n = n]) /\ UNCHANGED known

Query(x, rel) == [rel |-> rel, filter |-> [r \in DOMAIN rel |-> RE({0, 0, 1, 2})], rev |-> RE({TRUE, FALSE})]
\* both queries are about the same tables, each in its own order, possibly with one table twice
Rels(x) == IF RE(1..3) = 1 THEN [r \in Refs |-> IF r = N THEN 1 ELSE r] ELSE [r \in Refs |-> r]
Init == cfg = <<>> /\ qs = <<>> /\ trees = <<>> /\ known = <<>> /\ h = <<>>
Setup == /\ known' = <<>> /\ UNCHANGED h
         /\ IF Sim THEN /\ cfg' = [aware |-> RE({TRUE, FALSE}), gamma |-> RE({0, 1, 1, 2})]
                        /\ \E rel \in {Rels(1)} : \E a \in {Query(1, rel)} : \E b \in {Query(2, rel)} : qs' = <<a, IF RE(1..2) = 1 THEN b ELSE [b EXCEPT !.filter = a.filter]>>
                        /\ \E p \in {<<RandomTree(N), RandomTree(N), RandomTree(IF N > 3 THEN N - 1 ELSE N)>>} : trees' = <<p, p>>
            ELSE /\ cfg' \in [aware : {FALSE}, gamma : 0..2] /\ qs' = <<[rel |-> <<1, 2, 1>>, filter |-> <<0, 0, 0>>, rev |-> FALSE]>>
                 /\ trees' = <<SetToSeq(AllTrees)>>
Act == /\ Len(h) < MaxLen
       /\ IF Sim THEN \E x \in {RE(1..14)} : CASE x \in 1..5 -> Integrate("integrate") [] x = 6 -> Integrate("feedback") [] x \in 7..9 -> Recommend [] x = 10 -> Unknown
                                               [] x \in {11, 12} -> Reload [] x = 13 /\ ~Explored -> Explore [] x = 14 /\ RE(1..3) = 1 -> Reset [] OTHER -> Sample
          ELSE Integrate("integrate") \/ Reload
Next == IF qs = <<>> THEN Setup ELSE Act
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ what holds *)
Positive == \A x \in DOMAIN known : known[x] > 0
Paths(k, t) == {Steps(k, t)[i].p : i \in DOMAIN Steps(k, t)}
\* every join has a path of its own
OnePath == qs # <<>> => \A k \in Ks : \A i \in DOMAIN trees[k] : Cardinality(Paths(k, trees[k][i])) = Len(Steps(k, trees[k][i])) /\ Cardinality(Paths(k, trees[k][i])) = Cardinality(Tabs(trees[k][i])) - 1
\* only reset forgets, and without memory the last cost counts
Keeps == [][h' # h /\ Last(h').op # "reset" => DOMAIN known \subseteq DOMAIN known']_vars
Latest == [][h' # h /\ Last(h').op = "integrate" /\ cfg.gamma = 0 =>
             \A x \in DOMAIN known' : x \in DOMAIN known \/ \E i \in DOMAIN Last(h').joins : Last(h').joins[i].o = x.o /\ known'[x] = Last(h').joins[i].c * Scale]_vars
Final == [k \in Ks |-> [i \in DOMAIN trees[k] |-> [tree |-> trees[k][i], want |-> Advice(k, trees[k][i])]]]
Costs == SetToSeq({[p |-> [i \in DOMAIN x.p |-> [s |-> SetToSeq(x.p[i].s), f |-> x.p[i].f]], o |-> x.o, c |-> known[x]] : x \in DOMAIN known})
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson([cfg |-> cfg, qs |-> qs, h |-> h, final |-> Final, costs |-> Costs]))
=============================================================================
