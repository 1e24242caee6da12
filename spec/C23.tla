------------------------------- MODULE C23 -------------------------------
(* Values written as JSON and read back.                                      *)
(* A session holds objects and documents.  New and Change make and update     *)
(* objects, Save writes the current value of an object into a document, Load   *)
(* reads a document into a new object.  A document never changes, an object    *)
(* read from it has the value that was saved, and updates of one object are    *)
(* not visible in any other.                                                   *)
(*                                                                            *)
(* values: <<"table",t>> <<"column",c,t>> <<"expr",e>> <<"pred",p>>            *)
(*   <<"op",o>> <<"scan",o,t,w>> <<"join",o,ts,w>> <<"dirjoin",o,outer,inner,w>> *)
(*   <<"tree",class,node>> with nodes <<"leaf",t,a>> <<"node",l,r,a>> <<"empty">> *)
(*   <<"seq",node>>, <<"plan",p>>, <<"ops",s>>, <<"params",s>>                 *)
(* expressions and predicates as in C05                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Tables, Kinds, MaxOps, Depth, Sim

VARIABLES obj, docs, h
vars == <<obj, docs, h>>

None == <<>>
Unknown == -1         \* numbers that are not known, and infinite ones
Inf == -2
R(S) == RandomElement(S)
One(S) == CHOOSE x \in S : TRUE
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

(* --------------------------------------------------------------- expressions *)
Column(t, c) == <<"col", t, c>>
\* in expressions, named subqueries are always referred to by an alias
ETabs == Tables \ {"t8"}
RCol(d) == Column(R(ETabs), R({"x", "y", "group"}))
RConst(d) == CASE R(1..4) = 1 -> <<"str", R({"it's", "", "a b"})>> [] OTHER -> <<"num", R(0..3)>>
Inners == {"i1", "i2"}
\* a conjunction has no conjunctions as parts, likewise for disjunctions
Part(o, p) == IF p[1] = o THEN <<"null", RCol(1)>> ELSE p
RECURSIVE RE(_), RP(_)
RSub(d) == <<"sub", R(Inners), IF R(1..2) = 1 THEN RCol(d) ELSE <<"num", 2>>>>
RE(d) == One({CASE k <= 4 \/ d = 0 -> RCol(d)
                [] k = 5 -> RConst(d)
                [] k \in 6..8 -> <<"bin", R({"+", "-", "*"}), RE(d - 1), RE(d - 1)>>
                [] k = 9 -> <<"fn", IF R(1..2) = 1 THEN <<RE(d - 1)>> ELSE <<RE(d - 1), RE(d - 1)>>>>
                [] k = 10 -> <<"cast", RE(d - 1)>>
                [] k = 11 -> <<"case", RP(d - 1), RE(d - 1), IF R(1..2) = 1 THEN RE(d - 1) ELSE None>>
                [] k = 12 -> <<"agg", RE(d - 1), IF R(1..2) = 1 THEN RP(d - 1) ELSE None>>
                [] k = 13 -> <<"win", RE(d - 1), RE(d - 1), RE(d - 1)>>
                [] OTHER -> RSub(d) : k \in {R(1..14)}})
RP(d) == One({CASE k <= 3 -> <<"cmp", R({"=", "<", "<>", ">="}), RCol(d), RE(d)>>
                [] k = 4 -> <<"cmp", "=", RCol(d), RConst(d)>>
                [] k = 5 -> <<"btw", RCol(d), RE(d), RE(d)>>
                [] k = 6 -> <<"in", RCol(d), IF R(1..2) = 1 THEN <<RE(d)>> ELSE <<RConst(d), <<"num", 7>>, RE(d)>>>>
                [] k = 7 -> <<"insub", RCol(d), RSub(d)>>
                [] k = 8 -> <<"ex", RSub(d)>>
                [] k = 9 -> <<"null", RCol(d)>>
                [] k = 10 /\ d > 0 -> <<"not", RP(d - 1)>>
                [] k = 11 /\ d > 0 -> <<"and", <<Part("and", RP(d - 1)), Part("and", RP(d - 1))>>>>
                [] k = 12 /\ d > 0 -> <<"or", [i \in 1..R(2..3) |-> Part("or", RP(d - 1))]>>
                [] OTHER -> <<"cmp", "=", RCol(d), RCol(d)>> : k \in {R(1..13)}})

\* exhaustive pools
Cols == {Column(t, c) : t \in ETabs, c \in {"x", "group"}}
Es == Cols \cup {<<"num", 1>>}
Exprs == Cols \cup {<<"bin", "-", l, r>> : l \in Cols, r \in Es} \cup {<<"fn", <<c, <<"num", 1>>>>>> : c \in Cols} \cup {<<"cast", c>> : c \in Cols}
           \cup {<<"case", <<"null", c>>, <<"num", 1>>, d>> : c \in Cols, d \in {None} \cup Cols} \cup {<<"agg", c, None>> : c \in Cols}
           \cup {<<"win", c, d, d>> : c, d \in Cols} \cup {<<"sub", i, c>> : i \in Inners, c \in Cols} \cup {<<"num", 1>>, <<"bin", "+", <<"num", 1>>, <<"num", 2>>>>}
Preds == {<<"cmp", o, l, r>> : o \in {"=", "<"}, l \in Cols, r \in Es} \cup {<<"btw", l, <<"num", 1>>, r>> : l \in Cols, r \in Es}
           \cup {<<"in", l, <<<<"num", 1>>, r>>>> : l \in Cols, r \in Cols} \cup {<<"null", l>> : l \in Cols} \cup {<<"ex", <<"sub", i, c>>>> : i \in Inners, c \in Cols}
           \cup {<<"insub", l, <<"sub", "i1", c>>>> : l, c \in Cols}
           \cup {<<"not", <<"cmp", "=", l, r>>>> : l, r \in Cols} \cup {<<o, <<<<"null", l>>, <<"cmp", "<", l, r>>>>>> : o \in {"and", "or"}, l, r \in Cols}

(* ---------------------------------------------------------- plan-like values *)
ScanOps == {"SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"}
JoinOps == {"NestedLoopJoin", "HashJoin", "SortMergeJoin", "IndexNestedLoopJoin"}
InterOps == {"Sort", "Memoize", "Materialize"}
AllOps == ScanOps \cup JoinOps \cup InterOps
Sets(k) == {S \in SUBSET Tables : Cardinality(S) = k}
Joined == UNION {Sets(k) : k \in 2..3}
Workers == {Unknown, 1, 4}
Numbers == {Unknown, Inf, 0, 7, 1000000}
JoinHint(op, S, A, w, dir) == IF dir THEN <<"dirjoin", op, A, S \ A, w>> ELSE <<"join", op, S, w>>
RJoin(d) == LET S == R(Joined)  A == R((SUBSET S) \ {{}, S}) IN JoinHint(R(JoinOps), S, A, R(Workers), R(BOOLEAN))
Hints == {<<"scan", o, t, w>> : o \in ScanOps, t \in Tables, w \in Workers}
           \cup {<<"join", o, S, w>> : o \in JoinOps, S \in Joined, w \in Workers}
           \cup {<<"dirjoin", o, A, S \ A, w>> : o \in {"HashJoin", "NestedLoopJoin"}, S \in Joined, A \in SUBSET Tables, w \in {Unknown, 2}}
GoodHint(x) == x[1] # "dirjoin" \/ (x[3] # {} /\ x[4] # {} /\ x[3] \cap x[4] = {})

Annotation(cls, d) == IF cls = "logical" THEN R(Numbers \cup {-3}) ELSE R({-3, 0, 5, Unknown, Inf})       \* -3: no annotation
RECURSIVE RTree(_, _, _)
RTree(cls, ts, d) == IF Len(ts) = 1 THEN <<"leaf", ts[1], Annotation(cls, d)>>
                     ELSE LET k == R(1..(Len(ts) - 1)) IN <<"node", RTree(cls, SubSeq(ts, 1, k), d), RTree(cls, SubSeq(ts, k + 1, Len(ts)), d), Annotation(cls, d)>>
RPerm(d) == LET n == R(1..Cardinality(Tables))  F == SetToSeq(Tables)  p == R(Permutations(1..Len(F))) IN [i \in 1..n |-> F[p[i]]]
Trees == LET as == {-3, 4, Unknown, Inf} IN
         {<<"tree", c, <<"leaf", t, a>>>> : c \in {"logical", "generic"}, t \in Tables, a \in as}
           \cup {<<"tree", c, <<"node", <<"leaf", t, a>>, <<"leaf", u, b>>, z>>>> : c \in {"logical", "generic"}, t \in Tables, u \in Tables, a \in {-3, 4}, b \in {-3, Inf}, z \in as}
           \cup {<<"tree", c, <<"empty">>>> : c \in {"logical", "generic"}}
SameTables(x) == x[3][1] = "node" /\ x[3][2][2] = x[3][3][2]

RSortKey(d) == [class |-> {RE(1) : i \in 1..R(1..2)}, asc |-> R(BOOLEAN)]
Blank == [type |-> "", op |-> "", children |-> <<>>, tab |-> "", pred |-> None, sort |-> <<>>, workers |-> 0, index |-> "", lookup |-> None, extra |-> 0,
          ecard |-> Unknown, ecost |-> Unknown, eextra |-> 0, acard |-> Unknown, time |-> Unknown, hits |-> Unknown, misses |-> Unknown, mextra |-> 0, sub |-> <<>>, target |-> ""]
Decorate(p, d) == [p EXCEPT !.pred = IF R(1..3) = 1 THEN RP(1) ELSE None, !.sort = [i \in 1..R({0, 0, 1, 2}) |-> RSortKey(d)], !.workers = R({0, 0, 2}),
                            !.lookup = IF R(1..4) = 1 THEN (IF R(1..4) = 1 THEN RP(0) ELSE RE(1)) ELSE None, !.extra = R({0, 0, 3}), !.ecard = R(Numbers), !.ecost = R({Unknown, 0, 3, Inf}), !.eextra = R({0, 0, 4}),
                            !.acard = R(Numbers), !.time = R({Unknown, 0, 3}), !.hits = R({Unknown, 0, 3}), !.misses = R({Unknown, 0, 9}), !.mextra = R({0, 0, 5})]
RECURSIVE RPlan(_, _)
RPlan(ts, d) ==
  LET base == IF Len(ts) = 1 THEN LET o == R(ScanOps \cup {""}) IN [Blank EXCEPT !.op = o, !.type = IF o = "" THEN "CTE Scan" ELSE R({o, "native name"}), !.tab = ts[1], !.index = R({"", "", "idx a"})]
              ELSE LET k == R(1..(Len(ts) - 1))  o == R(JoinOps) IN
                   [Blank EXCEPT !.op = o, !.type = o, !.children = <<RPlan(SubSeq(ts, 1, k), d), RPlan(SubSeq(ts, k + 1, Len(ts)), d)>>]
      full == Decorate(base, d)
      subbed == IF d > 0 /\ R(1..8) = 1 THEN [full EXCEPT !.sub = <<RPlan(<<R(Tables)>>, 0)>>, !.target = R({"", "SubPlan 1"})] ELSE full
  IN IF R(1..4) = 1 THEN LET o == R(InterOps \cup {""}) IN Decorate([Blank EXCEPT !.op = o, !.type = IF o = "" THEN "Hash" ELSE o, !.children = <<subbed>>], d) ELSE subbed

EmptyOps == [global |-> {}, scans |-> {}, joins |-> {}, inters |-> {}]
EmptyParams == [cards |-> {}, workers |-> {}, settings |-> {}, mode |-> ""]
\* decisions for the same target replace each other
TablesOf(x) == IF x[1] = "scan" THEN {x[3]} ELSE IF x[1] = "join" THEN x[3] ELSE x[3] \cup x[4]
Put(S, key(_), x) == {y \in S : key(y) # key(x)} \cup {x}
First(x) == x[1]
ChangeOps(s, c, x) == CASE c = "global" -> [s EXCEPT !.global = Put(@, First, x)]
                        [] c = "scan" -> [s EXCEPT !.scans = Put(@, TablesOf, x)]
                        [] c = "join" -> [s EXCEPT !.joins = Put(@, TablesOf, x)]
                        [] c = "inter" -> [s EXCEPT !.inters = Put(@, First, x)]
ChangeParams(s, c, x) == CASE c = "card" -> [s EXCEPT !.cards = Put(@, First, x)]
                           [] c = "workers" -> [s EXCEPT !.workers = Put(@, First, x)]
                           [] c = "setting" -> [s EXCEPT !.settings = Put(@, First, x)]
                           [] c = "mode" -> [s EXCEPT !.mode = x[1]]
OpsChanges == {"global", "scan", "join", "inter"}
ParamsChanges == {"card", "workers", "setting", "mode"}
Some == UNION {Sets(k) : k \in 1..3}
Target(d) == R(Some)
Detail(c, d) == CASE c = "global" -> <<R(AllOps), R(BOOLEAN)>>
                  [] c = "scan" -> <<"scan", R(ScanOps), R(Tables), R(Workers)>>
                  [] c = "join" -> RJoin(d)
                  [] c = "inter" -> <<R(Joined), R(InterOps)>>
                  [] c = "card" -> <<Target(d), R(Numbers)>>
                  [] c = "workers" -> <<Target(d), R({1, 3})>>
                  [] c = "setting" -> <<R({"enable_x", "geqo", "work mem"}), R({"on", "off", "4 MB"})>>
                  [] c = "mode" -> <<R({"", "sequential", "parallel"})>>
                  [] c = "ecard" -> <<R(Numbers)>>
                  [] c = "acard" -> <<R(Numbers)>>

(* ------------------------------------------------------------------- session *)
Fresh(k, d) == CASE k = "table" -> <<"table", R(Tables)>>
                 [] k = "column" -> <<"column", R({"x", "group", "A b"}), R(Tables \cup {""})>>
                 [] k = "expr" -> <<"expr", IF R(1..5) = 1 THEN RP(Depth) ELSE RE(Depth)>>
                 [] k = "pred" -> <<"pred", RP(Depth)>>
                 [] k = "hint" -> IF R(1..4) = 1 THEN <<"op", R(AllOps)>> ELSE IF R(1..3) = 1 THEN <<"scan", R(ScanOps), R(Tables), R(Workers)>> ELSE RJoin(d)
                 [] k = "tree" -> LET c == R({"logical", "generic"}) IN <<"tree", c, RTree(c, RPerm(d), d)>>
                 [] k = "seq" -> <<"seq", RTree("generic", RPerm(d), d)>>
                 [] k = "plan" -> <<"plan", RPlan(RPerm(d), 1)>>
                 [] k = "ops" -> <<"ops", EmptyOps>>
                 [] k = "params" -> <<"params", EmptyParams>>
Pool(k) == CASE k = "table" -> {<<"table", t>> : t \in Tables}
             [] k = "column" -> {<<"column", c, t>> : c \in {"x", "group", "A b"}, t \in Tables \cup {""}}
             [] k = "expr" -> {<<"expr", e>> : e \in Exprs \cup Preds}
             [] k = "pred" -> {<<"pred", p>> : p \in Preds}
             [] k = "hint" -> {<<"op", o>> : o \in AllOps} \cup {x \in Hints : GoodHint(x)}
             [] k = "tree" -> {x \in Trees : ~SameTables(x)}
             [] k = "ops" -> {<<"ops", EmptyOps>>}
             [] k = "params" -> {<<"params", EmptyParams>>}

Init == obj = <<>> /\ docs = <<>> /\ h = <<>>
Entry == [do |-> "", on |-> 0, what |-> "", arg |-> <<>>, res |-> <<>>]
New == /\ \E k \in Pick(Kinds) : \E v \in (IF Sim THEN {Fresh(k, 1)} ELSE Pool(k)) :
             /\ obj' = Append(obj, v)
             /\ h' = Append(h, [Entry EXCEPT !.do = "new", !.res = v])
       /\ UNCHANGED docs
Changeable == {i \in DOMAIN obj : obj[i][1] \in {"ops", "params", "plan"}}
Change == /\ Changeable # {}
          /\ \E i \in Pick(Changeable) : \E c \in Pick(CASE obj[i][1] = "ops" -> OpsChanges [] obj[i][1] = "params" -> ParamsChanges [] OTHER -> {"ecard", "acard"}) : \E x \in {Detail(c, 1)} :
               LET v == CASE obj[i][1] = "ops" -> <<"ops", ChangeOps(obj[i][2], c, x)>>
                          [] obj[i][1] = "params" -> <<"params", ChangeParams(obj[i][2], c, x)>>
                          [] OTHER -> <<"plan", IF c = "ecard" THEN [obj[i][2] EXCEPT !.ecard = x[1]] ELSE [obj[i][2] EXCEPT !.acard = x[1]]>> IN
               /\ obj' = [obj EXCEPT ![i] = v]
               /\ h' = Append(h, [Entry EXCEPT !.do = "change", !.on = i, !.what = c, !.arg = x, !.res = v])
          /\ UNCHANGED docs
Save == /\ obj # <<>>
        /\ \E i \in Pick(DOMAIN obj) : /\ docs' = Append(docs, obj[i])
                                       /\ h' = Append(h, [Entry EXCEPT !.do = "save", !.on = i, !.res = obj[i]])
        /\ UNCHANGED obj
Load == /\ docs # <<>>
        /\ \E j \in Pick(DOMAIN docs) : /\ obj' = Append(obj, docs[j])
                                        /\ h' = Append(h, [Entry EXCEPT !.do = "load", !.on = j, !.res = docs[j]])
        /\ UNCHANGED docs
Next == /\ Len(h) < MaxOps
        /\ IF ~Sim THEN CASE Len(h) = 0 -> New [] Len(h) = 1 -> Save [] OTHER -> Load
           ELSE IF Len(h) < 2 THEN New
           ELSE \E k \in Pick(1..10) : IF k <= 1 THEN New ELSE IF k <= 5 /\ Changeable # {} THEN Change ELSE IF k <= 7 \/ docs = <<>> THEN Save ELSE Load
Spec == Init /\ [][Next]_vars

Emit == Len(h) = MaxOps => PrintT("@@" \o ToJson([steps |-> h]))
----------------------------------------------------------------------------
\* what an object holds is what the last step that concerned it says; a document holds what was saved
Nth(op, n) == LET I == {i \in DOMAIN h : h[i].do \in op} IN IF n > Cardinality(I) THEN 0 ELSE SetToSortSeq(I, <)[n]
Kept == /\ \A j \in DOMAIN docs : docs[j] = h[Nth({"save"}, j)].res
        /\ \A i \in DOMAIN obj : LET made == Nth({"new", "load"}, i)
                                     ch == {c \in DOMAIN h : h[c].do = "change" /\ h[c].on = i} IN
                                 obj[i] = h[IF ch = {} THEN made ELSE Max(ch)].res
        /\ \A l \in DOMAIN h : h[l].do = "load" => h[l].res = docs[h[l].on]
\* at most one decision per target
Functional == \A i \in DOMAIN obj : LET v == obj[i] IN
   /\ v[1] = "ops" => /\ \A x, y \in v[2].joins \cup v[2].scans : TablesOf(x) = TablesOf(y) => x = y
                      /\ \A x, y \in v[2].inters : x[1] = y[1] => x = y
                      /\ \A x, y \in v[2].global : x[1] = y[1] => x = y
   /\ v[1] = "params" => \A x, y \in v[2].cards : x[1] = y[1] => x = y
==========================================================================
