------------------------------- MODULE C11 -------------------------------
(* Hint generation.  The optimizer's decisions about a query over the tables   *)
(* 1..n grow step by step (Mode = "parts": join order, operators, parameters;  *)
(* Mode = "plan": a physical plan built bottom-up).  For each back end the     *)
(* specification gives the block that encodes the decisions: the hints that    *)
(* have to be there, the groups of which exactly one encodes the (only)        *)
(* parallel part of the plan, and whether something cannot be encoded.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS N, MaxSteps, Mode, Sim, Geqo

VARIABLES n, qry, b, forest, steps
vars == <<n, qry, b, forest, steps>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

ScanOps == {"SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"}
JoinOps == {"NestedLoopJoin", "HashJoin", "SortMergeJoin"}
AuxOps == {"Sort", "Memoize", "Materialize"}
Ops == ScanOps \cup JoinOps \cup AuxOps
W == {0, 2, 3}                                    \* 0: no choice
Cards == {-2, -1, 0, 1, 70000}                    \* -1 unknown, -2 infinite
Settings == {"s1", "s2", "s3"}

NoTree == [k |-> "none", t |-> 0, ch |-> <<>>]
Scan(t) == [k |-> "scan", t |-> t, ch |-> <<>>]
RECURSIVE Trees(_)
Trees(S) == IF Cardinality(S) = 1 THEN {Scan(CHOOSE t \in S : TRUE)}
            ELSE UNION {{[k |-> "join", t |-> 0, ch |-> <<o, i>>] : o \in Trees(L), i \in Trees(S \ L)} : L \in (SUBSET S) \ {{}, S}}
RECURSIVE RandomTree(_)
RandomTree(S) == IF Cardinality(S) = 1 THEN Scan(CHOOSE t \in S : TRUE)
                 ELSE LET L == RandomElement((SUBSET S) \ {{}, S}) IN [k |-> "join", t |-> 0, ch |-> <<RandomTree(L), RandomTree(S \ L)>>]
RECURSIVE TabsOf(_)
TabsOf(x) == (IF x.t > 0 THEN {x.t} ELSE {}) \cup UNION {TabsOf(x.ch[i]) : i \in 1..Len(x.ch)}

Empty == [tree |-> NoTree, ops |-> {}, glob |-> {}, cards |-> {}, works |-> {}, sets |-> {}, exec |-> "", hasops |-> FALSE, haspar |-> FALSE]
Put(S, e) == {x \in S : x.s # e.s \/ x.k # e.k} \cup {e}

(* ------------------------------------------------ what a block has to say *)
Blank == [h |-> "", op |-> "", s |-> {}, v |-> 0, name |-> "", tree |-> NoTree]
HTree(t) == [Blank EXCEPT !.h = "leading", !.tree = t]
HOp(op, s) == [Blank EXCEPT !.h = "op", !.op = op, !.s = s]
HCard(s, c) == [Blank EXCEPT !.h = "card", !.s = s, !.v = c]
HGlob(op, on) == [Blank EXCEPT !.h = "glob", !.op = op, !.v = IF on THEN 1 ELSE 0]
HPar(s, w) == [Blank EXCEPT !.h = "par", !.s = s, !.v = w]
HName(h, x) == [Blank EXCEPT !.h = h, !.name = x]

Block(must, may, par, prep, warn, reject) == [must |-> must, may |-> may, par |-> par, prep |-> prep, warn |-> warn, reject |-> reject]
TreeHint(t, least) == IF Cardinality(TabsOf(t)) >= least THEN {HTree(t)} ELSE {}
CardHints == {HCard(c.s, c.v) : c \in {x \in b.cards : x.v >= 0}}
Kinds(ks) == {x \in b.ops : x.k \in ks}
OpHints(X) == {HOp(x.op, x.s) : x \in X}
GlobHints == {HGlob(g.op, g.on) : g \in b.glob}
Infinite == \E c \in b.cards : c.v = -2

PgHintPlan ==
    LET ops == Kinds({"scan", "join"})
        aux == {x \in Kinds({"aux"}) : x.op = "Memoize"}
        R == {[s |-> x.s, v |-> x.w] : x \in {y \in ops : y.w > 1}} \cup {[s |-> x.s, v |-> x.v] : x \in {y \in b.works : y.v > 1}} IN
    Block(TreeHint(b.tree, 2) \cup OpHints(ops \cup aux) \cup GlobHints \cup CardHints \cup (IF n >= Geqo THEN {HName("geqo", "")} ELSE {}), {},
          {{HPar({t}, r.v) : t \in r.s} : r \in R}, b.sets,
          \/ Cardinality(R) > 1 \/ (\E r \in R : Cardinality(r.s) > 1) \/ Infinite \/ b.exec # "" \/ n >= Geqo
          \/ aux # Kinds({"aux"}), FALSE)

PgLab ==
    LET ops == Kinds({"scan", "join"})
        aux == {x \in Kinds({"aux"}) : x.op \in {"Memoize", "Materialize"}}
        work(x) == IF \E y \in b.works : y.s = x.s THEN (CHOOSE y \in b.works : y.s = x.s).v ELSE x.w
        R == {[s |-> x.s, v |-> work(x)] : x \in {y \in ops : work(y) > 1}}
        dangling == \E y \in b.works : y.v > 1 /\ ~\E x \in ops : x.s = y.s IN
    Block(TreeHint(b.tree, 2) \cup OpHints(ops \cup aux) \cup GlobHints \cup CardHints \cup {HName("mode", "anchored")}
          \cup {HName("setting", s) : s \in b.sets} \cup (IF b.exec = "" THEN {} ELSE {HName("exec", b.exec)}), {},
          {{HPar(r.s, r.v)} : r \in R}, {},
          Cardinality(R) > 1 \/ dangling \/ Infinite \/ aux # Kinds({"aux"}), FALSE)

QuackLab ==
    LET can == {"SequentialScan", "IndexScan"} \cup JoinOps IN
    Block(TreeHint(b.tree, 3) \cup OpHints(Kinds({"scan", "join"})) \cup GlobHints \cup CardHints, TreeHint(b.tree, 2), {}, b.sets,
          b.exec # "" \/ \E x \in Kinds({"scan", "join"}) : x.w > 1,
          \/ \E x \in b.ops : x.op \notin can
          \/ \E g \in b.glob : g.op \notin can
          \/ b.works # {})

(* ------------------------------------------------ complete plans *)
RECURSIVE Flat(_)
Flat(p) == <<p>> \o FoldLeft(LAMBDA s, c : s \o Flat(c), <<>>, p.ch)
RECURSIVE JTree(_)
JTree(p) == CASE p.k = "scan" -> Scan(p.t) [] p.k = "join" -> [k |-> "join", t |-> 0, ch |-> <<JTree(p.ch[1]), JTree(p.ch[2])>>] [] OTHER -> JTree(p.ch[1])
\* (an act of -1 means that the node has not been measured)
Best(p) == IF p.act >= 0 THEN p.act ELSE p.est
PlanBlock(be) ==
    LET p == forest[1]
        nodes == ToSet(Flat(p))
        core == {x \in nodes : x.k # "aux"}
        aux == {x \in nodes : x.k = "aux" /\ x.op # ""}
        upper(x) == x.k = "aux" /\ TabsOf(x) = TabsOf(p)
        cards == {HCard(TabsOf(x), IF be = "duck" THEN x.est ELSE Best(x)) : x \in core}
        auxcards == {HCard(TabsOf(x), IF be = "duck" THEN x.est ELSE Best(x)) : x \in nodes \ core}
        uncovered == {c \in auxcards : c.v >= 0 /\ ~\E d \in cards : d.s = c.s /\ d.v >= 0}
        must == {c \in cards : c.v >= 0}
        R == {x \in nodes : x.w > 0}
        op(X) == {HOp(x.op, TabsOf(x)) : x \in X}
        can == {"SequentialScan", "IndexScan"} \cup JoinOps IN
    CASE be = "pg_hint_plan" -> Block(TreeHint(JTree(p), 2) \cup op(core) \cup op({x \in aux : x.op = "Memoize"}) \cup must \cup (IF n >= Geqo THEN {HName("geqo", "")} ELSE {}),
                uncovered, {{HPar({t}, r.w) : t \in TabsOf(r)} : r \in R}, {},
                Cardinality({TabsOf(r) : r \in R}) > 1 \/ n >= Geqo, FALSE)
      [] be = "pg_lab" -> Block(TreeHint(JTree(p), 1) \cup op(core) \cup op({x \in aux : x.op # "Sort"}) \cup must \cup {HName("mode", "full")},
                uncovered, {IF upper(r) THEN {HPar({0}, r.w)} ELSE {HPar(TabsOf(r), r.w)} : r \in R}, {},
                Cardinality({<<TabsOf(r), upper(r)>> : r \in R}) > 1, FALSE)
      [] be = "duck" -> Block(TreeHint(JTree(p), 3) \cup op(core) \cup must, TreeHint(JTree(p), 2) \cup uncovered, {}, {},
                FALSE, R # {} \/ \E x \in nodes : x.op # "" /\ x.op \notin can)

(* ------------------------------------------------ the decisions grow *)
Init == /\ steps = 0 /\ b = Empty /\ forest = <<>> /\ n = 0
        /\ qry = [explain |-> "none", limit |-> -1, offset |-> -1]

Start == /\ steps = 0 /\ UNCHANGED <<b, forest>> /\ steps' = 1
         /\ \E k \in Pick(IF Sim THEN 1..N ELSE {N}) : n' = k
         /\ \E e \in Pick({"none", "plain", "analyze"}) : \E l \in Pick({-1, 0, 3}) : \E o \in Pick({-1, 0, 2}) :
              /\ Sim \/ (e # "none") = (l # -1 /\ o # -1)
              /\ qry' = [explain |-> e, limit |-> l, offset |-> o]

Groups == (SUBSET (1..n)) \ {{}}
Joins == {s \in Groups : Cardinality(s) > 1}
U(x) == b' = x
Part(kind) ==
    CASE kind = "tree" -> IF Sim THEN \E S \in Pick(Groups) : U([b EXCEPT !.tree = RandomTree(S)])
                          ELSE \E S \in Groups : \E t \in Trees(S) : U([b EXCEPT !.tree = t])
      [] kind = "scan" -> \E t \in Pick(1..n) : \E o \in Pick(ScanOps) : \E w \in Pick(W) :
                            U([b EXCEPT !.ops = Put(@, [k |-> "scan", s |-> {t}, op |-> o, w |-> w]), !.hasops = TRUE])
      [] kind = "join" -> IF Joins = {} THEN U([b EXCEPT !.hasops = TRUE])
                          ELSE \E s \in Pick(Joins) : \E o \in Pick(JoinOps) : \E w \in Pick(W) :
                            U([b EXCEPT !.ops = Put(@, [k |-> "join", s |-> s, op |-> o, w |-> w]), !.hasops = TRUE])
      [] kind = "aux" -> \E s \in Pick(Groups) : \E o \in Pick(AuxOps) :
                            U([b EXCEPT !.ops = Put(@, [k |-> "aux", s |-> s, op |-> o, w |-> 0]), !.hasops = TRUE])
      [] kind = "glob" -> \E o \in Pick(IF Sim THEN Ops \ (IF RandomElement(1..3) > 1 THEN AuxOps ELSE {}) ELSE Ops) : \E on \in Pick(BOOLEAN) :
                            U([b EXCEPT !.glob = {g \in @ : g.op # o} \cup {[op |-> o, on |-> on]}, !.hasops = TRUE])
      [] kind = "card" -> \E s \in Pick(Groups) : \E c \in Pick(Cards) :
                            U([b EXCEPT !.cards = {x \in @ : x.s # s} \cup {[s |-> s, v |-> c]}, !.haspar = TRUE])
      [] kind = "work" -> \E s \in Pick(Groups) : \E w \in Pick({1, 2, 3}) :
                            U([b EXCEPT !.works = {x \in @ : x.s # s} \cup {[s |-> s, v |-> w]}, !.haspar = TRUE])
      [] kind = "set" -> \E s \in Pick(Settings) : U([b EXCEPT !.sets = @ \cup {s}, !.haspar = TRUE])
      [] kind = "exec" -> \E m \in Pick({"sequential", "parallel"}) : U([b EXCEPT !.exec = m, !.haspar = TRUE])
Kind == {"tree", "scan", "join", "aux", "glob", "card", "work", "set", "exec"}
Weighted == <<"tree", "scan", "scan", "join", "join", "scan", "join", "card", "card", "set", "glob", "tree", "scan", "join", "work", "aux", "exec">>
Grow == /\ Mode = "parts" /\ steps \in 1..MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<n, qry, forest>>
        /\ IF Sim THEN \E i \in {RandomElement(1..Len(Weighted))} : Part(Weighted[i])
           ELSE \E kind \in Kind : Part(kind)

Used == UNION {TabsOf(forest[i]) : i \in 1..Len(forest)}
Node(k, op, t, ch, e, a, w) == [k |-> k, op |-> op, name |-> IF k = "aux" /\ op = "" THEN "Gather" ELSE op, t |-> t, ch |-> ch, est |-> e, act |-> a, w |-> w]
PCards == {-1, 0, 5, 70000}
PW == IF Sim THEN {0} \cup (IF RandomElement(1..5) = 1 THEN {2, 3} ELSE {}) ELSE {0, 2}
Rare(S, x) == IF Sim /\ RandomElement(1..3) > 1 THEN {x} ELSE Pick(S)
Build(kind) ==
    CASE kind = "leaf" -> IF Used = 1..n THEN UNCHANGED forest
                          ELSE \E t \in Pick((1..n) \ Used) : \E o \in Pick(ScanOps) : \E e \in Pick(PCards) : \E a \in Pick({-1, 0, 7}) : \E w \in Pick(PW) :
                            forest' = <<Node("scan", o, t, <<>>, e, a, w)>> \o forest
      [] kind = "combine" -> IF Len(forest) < 2 THEN UNCHANGED forest
                          ELSE \E o \in Pick(JoinOps) : \E e \in Pick(PCards) : \E a \in Pick({-1, 0, 7}) : \E w \in Pick(PW) : \E f \in Pick(BOOLEAN) :
                            forest' = <<Node("join", o, 0, IF f THEN <<forest[1], forest[2]>> ELSE <<forest[2], forest[1]>>, e, a, w)>> \o SubSeq(forest, 3, Len(forest))
      [] kind = "wrap" -> IF forest = <<>> \/ Len(SelectSeq(Flat(forest[1]), LAMBDA x : x.k = "aux" /\ TabsOf(x) = TabsOf(forest[1]))) > 1 THEN UNCHANGED forest
                          ELSE LET c == forest[1] IN
                            \/ /\ ~\E x \in ToSet(Flat(c)) : x.k = "aux" /\ x.op # "" /\ TabsOf(x) = TabsOf(c)
                               /\ \E o \in Pick(AuxOps) : forest' = <<Node("aux", o, 0, <<c>>, c.est, c.act, 0)>> \o Tail(forest)
                            \/ \E e \in Pick(PCards) : \E w \in Pick({0, 2, 3}) : forest' = <<Node("aux", "", 0, <<c>>, e, -1, w)>> \o Tail(forest)
PKinds == {"leaf", "combine", "wrap"}
GrowPlan == /\ Mode = "plan" /\ steps \in 1..MaxSteps /\ steps' = steps + 1 /\ UNCHANGED <<n, qry, b>>
            /\ IF Sim THEN \E i \in {RandomElement(1..5)} : Build(<<"leaf", "leaf", "combine", "combine", "wrap">>[i])
               ELSE \E kind \in PKinds : Build(kind)
Done == steps > MaxSteps /\ UNCHANGED vars
Next == Start \/ Grow \/ GrowPlan \/ Done
Spec == Init /\ [][Next]_vars

Backends == {"pg_hint_plan", "pg_lab", "duck"}
Wanted(be) == IF Mode = "plan" THEN PlanBlock(be) ELSE CASE be = "pg_hint_plan" -> PgHintPlan [] be = "pg_lab" -> PgLab [] be = "duck" -> QuackLab

(* ------------------------------------------------ properties of the encoding *)
Ready == steps > 0 /\ (Mode = "parts" \/ (forest # <<>> /\ TabsOf(forest[1]) = 1..n))
Settable == [s : Groups, op : Ops]
OneHintPerOperator == Ready => \A be \in Backends : LET H == Wanted(be).must IN
    \A x, y \in {h \in H : h.h = "op"} : x.s = y.s /\ x.op # y.op => {x.op, y.op} \cap AuxOps # {}
OneCardPerIntermediate == Ready => \A be \in Backends : \A x, y \in {h \in Wanted(be).must : h.h = "card"} : x.s = y.s => x = y
OnlyOwnTables == Ready => \A be \in Backends : LET w == Wanted(be) IN \A h \in w.must \cup w.may \cup UNION w.par : h.s \subseteq 0..n /\ TabsOf(h.tree) \subseteq 1..n
\* every decision is either encoded or the block is reported as incomplete (or refused)
Complete(be) == LET w == Wanted(be) IN
    \/ w.reject \/ w.warn
    \/ /\ \A x \in b.ops : HOp(x.op, x.s) \in w.must
       /\ \A c \in b.cards : c.v >= 0 => HCard(c.s, c.v) \in w.must
       /\ \A g \in b.glob : HGlob(g.op, g.on) \in w.must
       /\ \A s \in b.sets : s \in w.prep \/ HName("setting", s) \in w.must
       /\ (b.exec = "" \/ HName("exec", b.exec) \in w.must)
       /\ (Cardinality(TabsOf(b.tree)) < 3 \/ HTree(b.tree) \in w.must)
       /\ \A x \in b.works : x.v < 2 \/ \E g \in w.par : (UNION {h.s : h \in g}) = x.s /\ \A h \in g : h.v = x.v
NothingLostSilently == (Ready /\ Mode = "parts") => \A be \in Backends : Complete(be)
\* the decisions of a plan and those of its parts lead to the same block in pg_hint_plan (up to parallelism)
PlanMatchesParts == (Ready /\ Mode = "plan") => LET w == PlanBlock("pg_hint_plan") IN
    {h \in w.must : h.h = "op" /\ h.op \notin AuxOps} = {HOp(x.op, TabsOf(x)) : x \in {y \in ToSet(Flat(forest[1])) : y.k # "aux"}}

Lst(S) == SetToSeq(S)
HJ(h) == [h EXCEPT !.s = SetToSeq(h.s)]
BJ(w) == [must |-> Lst({HJ(h) : h \in w.must}), may |-> Lst({HJ(h) : h \in w.may}), par |-> Lst({Lst({HJ(h) : h \in g}) : g \in w.par}),
          prep |-> Lst(w.prep), warn |-> w.warn, reject |-> w.reject]
BundleJ == [tree |-> b.tree, ops |-> Lst({[x EXCEPT !.s = SetToSeq(x.s)] : x \in b.ops}), glob |-> Lst(b.glob), cards |-> Lst({[x EXCEPT !.s = SetToSeq(x.s)] : x \in b.cards}),
            works |-> Lst({[x EXCEPT !.s = SetToSeq(x.s)] : x \in b.works}), sets |-> Lst(b.sets), exec |-> b.exec, hasops |-> b.hasops, haspar |-> b.haspar]
Case == [n |-> n, mode |-> Mode, qry |-> qry, b |-> BundleJ, plan |-> IF forest = <<>> THEN <<>> ELSE <<forest[1]>>,
         want |-> [be \in Backends |-> BJ(Wanted(be))]]
Emitted == (Ready /\ (~Sim \/ steps > 3)) => PrintT("@@" \o ToJson(Case))
=============================================================================
