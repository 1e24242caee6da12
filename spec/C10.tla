------------------------------- MODULE C10 -------------------------------
(* Query plans as persistent trees, their derivations and their decomposition *)
(* into join order, operators and parameters.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, ScanOps, JoinOps, AuxOps, AuxNames, Cards, MaxLen, Sim

VARIABLES pool, h
vars == <<pool, h>>
T == 1..N
U == -1           \* unknown estimate or measurement

(* A node: k kind, name node type, op physical operator ("" none), t base table (0 none), ch children (outer first),
   sub <<>> or <<[root, target]>>, est/cost estimates, act/time/hits measurements, w workers (0 none), ix index, x custom
   parameter, flt columns of the filter predicate, each <<table, number>>. *)
Node(k, name, op, t, ch) == [k |-> k, name |-> name, op |-> op, t |-> t, ch |-> ch, sub |-> <<>>, est |-> U, cost |-> U, act |-> U,
                             time |-> U, hits |-> U, w |-> 0, ix |-> "", x |-> 0, flt |-> {}]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SeqMax(_), SeqSum(_), Cat(_), Cup(_)
SeqMax(s) == IF s = <<>> THEN 0 ELSE Max(Head(s), SeqMax(Tail(s)))
SeqSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Cup(s) == IF s = <<>> THEN {} ELSE Head(s) \cup Cup(Tail(s))
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Some(p(_), s) == \E i \in DOMAIN s : p(s[i])
Every(p(_), s) == \A i \in DOMAIN s : p(s[i])
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

(* ------------------------------------------------------------ observations *)
RECURSIVE Tables(_), Cols(_), Depth(_), Joins(_), Post(_), Pre(_), Base(_), Left(_), Lookup(_, _), First(_, _, _), HasSub(_)
Tables(n) == (IF n.t = 0 THEN {} ELSE {n.t}) \cup {c[1] : c \in n.flt} \cup Cup(Map(Tables, n.ch))
             \cup Cup(Map(LAMBDA s : Tables(s.root) \cup (IF s.target = 0 THEN {} ELSE {s.target}), n.sub))
Cols(n) == n.flt \cup Cup(Map(Cols, n.ch)) \cup Cup(Map(LAMBDA s : Cols(s.root), n.sub))
Depth(n) == 1 + SeqMax(Map(Depth, n.ch))
HasSub(n) == n.sub # <<>> \/ Some(HasSub, n.ch)
\* what identifies a node for the reader of a trace: its own values and the tables below
Mark(n) == [name |-> n.name, tabs |-> Tables(n), est |-> n.est, act |-> n.act, t |-> n.t]
Post(n) == Cat(Map(Post, n.ch)) \o <<n>>                                      \* depth first, outer first, without subplans
Pre(n) == <<n>> \o Cat(Map(Pre, n.ch)) \o Cat(Map(LAMBDA s : Pre(s.root), n.sub))
Joins(n) == SelectSeq(Post(n), LAMBDA m : m.k = "join")
HasJoin(n) == Joins(n) # <<>>
Linear(n) == Every(LAMBDA j : ~(HasJoin(j.ch[1]) /\ HasJoin(j.ch[2])), Joins(n))
LeftDeep(n) == Every(LAMBDA j : ~HasJoin(j.ch[2]), Joins(n))
RightDeep(n) == Every(LAMBDA j : ~HasJoin(j.ch[1]), Joins(n))
Branch(n) == ~HasJoin(n)
BaseJoin(n) == n.k = "join" /\ Branch(n.ch[1]) /\ Branch(n.ch[2])
Base(n) == CASE n.k = "scan" -> n.t [] n.k = "join" -> 0 [] OTHER -> Base(n.ch[1])
Left(n) == IF n.k = "scan" THEN n ELSE Left(n.ch[1])
NoNode == [name |-> "", tabs |-> {}, est |-> U, act |-> U, t |-> 0]
Lookup(n, S) == IF Tables(n) = S THEN Mark(n)
                ELSE LET r == SelectSeq(Map(LAMBDA c : Lookup(c, S), n.ch), LAMBDA m : m # NoNode) IN IF r = <<>> THEN NoNode ELSE r[1]
First(n, p(_), outer) ==
  IF p(n) THEN Mark(n)
  ELSE LET c == IF outer THEN n.ch ELSE Rev(n.ch)
           r == SelectSeq(Map(LAMBDA m : First(m, p, outer), c) \o Map(LAMBDA s : First(s.root, p, outer), n.sub), LAMBDA m : m # NoNode)
       IN IF r = <<>> THEN NoNode ELSE r[1]
Core(n) == n.k \in {"scan", "join"}
Probe(n) == [is_join |-> n.k = "join", no_op |-> n.op = "", big |-> n.est > 5]
Cout(n, aux) == LET s == Post(n) IN
  CASE Some(LAMBDA m : Core(m) /\ m.act = U, s) -> <<"undefined">>
    [] Some(LAMBDA m : m.act = U, s) -> <<"unspecified">>
    [] OTHER -> <<SeqSum(Map(LAMBDA m : IF aux \/ Core(m) THEN m.act ELSE 0, s))>>
Qerror(n) == IF n.est = U \/ n.act = U THEN <<>> ELSE <<Max(n.est, n.act) + 1, Min(n.est, n.act) + 1>>
OpTime(n) == IF n.time = U \/ Some(LAMBDA c : c.time = U, n.ch) THEN <<>> ELSE <<n.time - SeqSum(Map(LAMBDA c : c.time, n.ch))>>
RECURSIVE Shape(_)
Shape(n) == <<n.name, n.t>> \o Cat(Map(LAMBDA c : <<Shape(c)>>, n.ch))

(* ------------------------------------------------------------ decomposition *)
RECURSIVE Tree(_, _), Below(_)
Card(n, src) == IF src = "actual" THEN n.act ELSE n.est
Tree(n, src) == CASE n.k = "scan" -> [k |-> "scan", t |-> n.t, ann |-> Card(n, src)]
                  [] n.k = "join" -> [k |-> "join", o |-> Tree(n.ch[1], src), i |-> Tree(n.ch[2], src), ann |-> Card(n, src)]
                  [] OTHER -> Tree(n.ch[1], src)
\* the nodes that compute an intermediate result, top down; what is below a scan only implements the scan
Below(n) == <<n>> \o (IF n.k = "scan" THEN <<>> ELSE Cat(Map(Below, n.ch)))
Ops(n) == {[k |-> Tables(m), op |-> m.op, kind |-> m.k] : m \in {Below(n)[i] : i \in {j \in DOMAIN Below(n) : Below(n)[j].op # ""}}}
\* the parameter of an intermediate: the one of its scan/join, otherwise of the auxiliary node closest to it
Param(n, S, f(_), none) == LET s == SelectSeq(Below(n), LAMBDA m : Tables(m) = S /\ f(m) # none) IN IF s = <<>> THEN none ELSE f(s[Len(s)])
Inters(n) == {Tables(m) : m \in {Below(n)[i] : i \in DOMAIN Below(n)}}
CardParams(n, src) == LET f(m) == CASE src = "actual" -> m.act [] src = "estimated" -> m.est [] OTHER -> IF m.act # U THEN m.act ELSE m.est
                      IN {p \in {[k |-> S, e |-> Param(n, S, f, U)] : S \in Inters(n)} : p.e # U}
WorkParams(n) == {p \in {[k |-> S, e |-> Param(n, S, LAMBDA m : m.w, 0)] : S \in Inters(n)} : p.e # 0}

(* -------------------------------------------------------------- derivations *)
RECURSIVE Canon(_), Actual(_, _), Scale(_, _, _, _), Update(_, _, _)
Sub(n, f(_)) == Map(LAMBDA s : [s EXCEPT !.root = f(s.root)], n.sub)
Canon(n) == CASE n.k = "scan" -> [n EXCEPT !.ch = <<>>, !.sub = Sub(n, Canon)]
              [] n.k = "join" -> [n EXCEPT !.ch = Map(Canon, n.ch), !.sub = Sub(n, Canon)]
              [] OTHER -> Canon(n.ch[1])
NoMeasures(n) == [n EXCEPT !.act = U, !.time = U, !.hits = U]
Actual(n, keepUnknown) == LET rec(m) == Actual(m, keepUnknown)
                              keep == keepUnknown /\ n.act = U IN
  [NoMeasures(n) EXCEPT !.est = IF keep THEN n.est ELSE n.act, !.cost = IF keep THEN n.cost ELSE U, !.ch = Map(rec, n.ch), !.sub = Sub(n, rec)]
Times(f, c) == IF c = U THEN U ELSE f * c
Scale(n, f, kind, r) == LET rec(m) == Scale(m, f, kind, r) IN
  [n EXCEPT !.est = IF kind \in {"estimated", "both"} THEN Times(f, n.est) ELSE n.est,
            !.act = IF kind \in {"actual", "both"} THEN Times(f, n.act) ELSE n.act,
            !.ch = IF r THEN Map(rec, n.ch) ELSE n.ch, !.sub = IF r THEN Sub(n, rec) ELSE n.sub]
\* assignments: functions from table sets to <<operator or "", cardinality or U, workers or 0>>
Update(n, scanAs, joinAs) == LET S == Tables(n)
                                 a == IF S \in DOMAIN joinAs THEN joinAs[S] ELSE scanAs
                                 rec(m) == Update(m, scanAs, joinAs) IN
  [n EXCEPT !.op = IF Core(n) /\ a[1] # "" THEN a[1] ELSE n.op, !.name = IF Core(n) /\ a[1] # "" THEN a[1] ELSE n.name,
            !.est = IF a[2] # U THEN a[2] ELSE n.est, !.w = IF a[3] # 0 THEN a[3] ELSE n.w, !.ch = Map(rec, n.ch)]

\* recomposition from a join tree, operators (with fallbacks for the table sets in drop) and parameters
JoinFlt(qF, qE, A, B) == UNION {{<<e[1], 2>>, <<e[2], 2>>} : e \in {e \in qE : (e[1] \in A /\ e[2] \in B) \/ (e[1] \in B /\ e[2] \in A)}}
RECURSIVE TT(_), Compose(_, _, _, _, _, _, _, _)
TT(t) == IF t.k = "scan" THEN {t.t} ELSE TT(t.o) \cup TT(t.i)
Compose(t, ops, mats, cards, works, fs, fj, q) ==
  LET S == TT(t)
      own == {o \in ops : o.k = S /\ o.kind # "aux"}
      op == IF own # {} THEN (CHOOSE o \in own : TRUE).op ELSE IF t.k = "scan" THEN fs ELSE fj
      cs == {c \in cards : c.k = S}   ws == {c \in works : c.k = S}
      est == IF cs # {} THEN (CHOOSE c \in cs : TRUE).e ELSE t.ann
      w == IF ws # {} THEN (CHOOSE c \in ws : TRUE).e ELSE 0
      rec(x) == Compose(x, ops, mats, cards, works, fs, fj, q)
      core == [Node(t.k, op, op, IF t.k = "scan" THEN t.t ELSE 0, IF t.k = "scan" THEN <<>> ELSE <<rec(t.o), rec(t.i)>>)
               EXCEPT !.est = est, !.w = w,
                      !.flt = IF t.k = "scan" THEN (IF t.t \in q.f THEN {<<t.t, 1>>} ELSE {}) ELSE JoinFlt(q.f, q.e, TT(t.o), TT(t.i))]
  IN IF S \in mats THEN [Node("aux", "Materialize", "Materialize", 0, <<core>>) EXCEPT !.est = est] ELSE core
NoQuery == [f |-> {}, e |-> {}]

(* ------------------------------------------------------------------ actions *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
PickNE(S) == IF S = {} THEN {} ELSE Pick(S)
Idx == 1..Len(pool)
C == Cards \cup {U}
Step(op, on, args, r) == /\ pool' = Append(pool, r)
                         /\ h' = Append(h, [op |-> op, on |-> on, args |-> args, res |-> r])
Ann == IF Sim THEN {[est |-> RandomElement(C), cost |-> RandomElement(C), act |-> RandomElement(C), time |-> RandomElement(C),
                     hits |-> RandomElement({U, 0, 7}), w |-> RandomElement({0, 0, 1, 3}), x |-> RandomElement({0, 5})]}
       ELSE {[est |-> 4, cost |-> 2, act |-> U, time |-> U, hits |-> U, w |-> 0, x |-> 0], [est |-> 4, cost |-> U, act |-> 9, time |-> 3, hits |-> 7, w |-> 1, x |-> 5]}
With(n, a) == [n EXCEPT !.est = a.est, !.cost = a.cost, !.act = a.act, !.time = a.time, !.hits = a.hits, !.w = a.w, !.x = a.x]
Mk(n) == Step("build", 0, <<>>, n)

Scan == \E t \in Pick(T), o \in Pick(ScanOps), a \in Ann, f \in Pick(BOOLEAN), ix \in Pick({"", "idx"}) :
  Mk([With(Node("scan", o, o, t, <<>>), a) EXCEPT !.flt = IF f THEN {<<t, 1>>} ELSE {}, !.ix = ix])
Bitmap == \E t \in Pick(T), a \in Ann, b \in Ann : \E n \in Pick({1, 2}) :
  Mk(With(Node("scan", "BitmapScan", "BitmapScan", t,
               <<IF n = 1 THEN With(Node("leaf", "Bitmap Index Scan", "", 0, <<>>), b)
                 ELSE Node("leaf", "BitmapAnd", "", 0, <<With(Node("leaf", "Bitmap Index Scan", "", 0, <<>>), b), Node("leaf", "Bitmap Index Scan", "", 0, <<>>)>>)>>), a))
Free(i, j) == Tables(pool[i]) \cap Tables(pool[j]) = {}
Small == {i \in Idx : Len(Pre(pool[i])) <= 9}
Join == \E p \in PickNE({p \in Small \X Small : Free(p[1], p[2])}), o \in Pick(JoinOps), a \in Ann, f \in Pick(BOOLEAN) :
  Step("build", 0, <<>>, [With(Node("join", o, o, 0, <<pool[p[1]], pool[p[2]]>>), a)
          EXCEPT !.flt = IF f THEN {<<RandomElement(Tables(pool[p[1]])), 2>>, <<RandomElement(Tables(pool[p[2]])), 2>>} ELSE {}])
AuxOps_(n) == {m \in {Below(n)[i] : i \in DOMAIN Below(n)} : m.k = "aux" /\ m.op # "" /\ Tables(m) = Tables(n)}
Aux == \E i \in PickNE(Small), nm \in Pick(AuxNames \cup AuxOps), a \in Ann :
  /\ nm \in AuxOps => AuxOps_(pool[i]) = {}
  /\ Mk(With(Node("aux", nm, IF nm \in AuxOps THEN nm ELSE "", 0, <<pool[i]>>), a))
Attach == \E p \in PickNE({p \in Small \X Small : Free(p[1], p[2]) /\ Core(pool[p[1]]) /\ pool[p[1]].sub = <<>>}) : \E v \in Pick({0} \cup (T \ (Tables(pool[p[1]]) \cup Tables(pool[p[2]])))) :
  Mk([pool[p[1]] EXCEPT !.sub = <<[root |-> pool[p[2]], target |-> IF v = 0 THEN 0 ELSE 100 + v]>>])

Clone == \E i \in PickNE(Idx), d \in Pick({"clone", "deepclone"}) : Step(d, i, <<>>, pool[i])
Canonical == \E i \in PickNE(Idx) : Step("canonical", i, <<>>, Canon(pool[i]))
Parallelize == \E i \in PickNE(Idx), w \in Pick({0, 2, 4}) : Step("parallelize", i, <<w>>, [pool[i] EXCEPT !.w = w])
\* -2: keep
WithEst == \E i \in PickNE(Idx), c \in Pick(C \cup {-2}), k \in Pick(C \cup {-2}), m \in Pick(BOOLEAN) :
  LET n == [pool[i] EXCEPT !.est = IF c = -2 THEN @ ELSE c, !.cost = IF k = -2 THEN @ ELSE k] IN
  Step("with_estimates", i, <<c, k, m>>, IF m THEN n ELSE NoMeasures(n))
WithActual == \E i \in PickNE(Idx), g \in Pick(BOOLEAN) : Step("with_actual_card", i, <<g>>, Actual(pool[i], g))
ScaleCard == \E i \in PickNE(Idx), f \in Pick({2, 3}), k \in Pick({"estimated", "actual", "both"}), r \in Pick(BOOLEAN) :
  Step("scale_cardinality", i, <<f, k, r>>, Scale(pool[i], f, k, r))
Keys(n) == {Tables(m) : m \in {Pre(n)[j] : j \in DOMAIN Pre(n)}}
NoSubs == {i \in Idx : ~HasSub(pool[i])}
Coins(S, n) == {{x \in S : RandomElement(1..n) = 1}}         \* (a singleton: bound by \E it is drawn only once)
UpdateOps == \E i \in PickNE(NoSubs), s \in Pick(BOOLEAN) :
  \E K \in Coins(Keys(pool[i]) \ {{}}, 2) :
  \E As \in {[S \in K |-> <<RandomElement({""} \cup (IF Cardinality(S) = 1 THEN ScanOps ELSE JoinOps)), RandomElement({U} \cup Cards), RandomElement({0, 2})>>]} :
     Step("update_plan", i, <<s, {[k |-> S, a |-> As[S]] : S \in K}>>, Update(IF s THEN Canon(pool[i]) ELSE pool[i], <<"", U, 0>>, As))
\* the sets of tables whose operator is left to the fallback / query with filters and equi-joins
Recompose == \E i \in PickNE(NoSubs), src \in Pick({"estimated", "actual"}), qd \in Pick(BOOLEAN), fs \in Pick(ScanOps), fj \in Pick(JoinOps) :
  \E drop \in Coins(Keys(pool[i]), 3), F \in Coins(Tables(pool[i]), 2),
     E \in Pick(SUBSET {e \in T \X T : e[1] < e[2] /\ e[1] \in Tables(pool[i]) /\ e[2] \in Tables(pool[i])}) :
  LET n == pool[i]
      kept == {o \in Ops(n) : o.k \notin drop}
      q == IF qd THEN [f |-> F, e |-> E] ELSE NoQuery
      mats == {o.k : o \in {o \in kept : o.kind = "aux" /\ o.op = "Materialize"}}
  IN Tables(n) # {} /\ Step("recompose", i, <<src, drop, fs, fj, qd, q>>, Compose(Tree(n, src), kept, mats, CardParams(n, src), WorkParams(n), fs, fj, q))
Simple == \E i \in PickNE(NoSubs), src \in Pick({"estimated", "actual"}), fs \in Pick(ScanOps), fj \in Pick(JoinOps), wp \in Pick(BOOLEAN) :
  Step("simple", i, <<src, fs, fj, wp>>, Compose(Tree(pool[i], src), {}, {}, IF wp THEN CardParams(pool[i], "estimated") ELSE {}, {}, fs, fj, NoQuery))

Init == pool = <<>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E k \in Pick(1..(IF Sim /\ Len(h) > 2 THEN 22 ELSE IF Sim THEN 2 ELSE 11)) :
             \/ (k \in {1, 12} /\ Scan)
             \/ (k = 2 /\ Bitmap)
             \/ (k \in {3, 13, 14, 15, 16} /\ Join)
             \/ (k \in {4, 17, 18} /\ Aux)
             \/ (k = 5 /\ Attach)
             \/ (k = 6 /\ Clone)
             \/ (k \in {7, 19} /\ Canonical)
             \/ (k = 8 /\ Parallelize)
             \/ (k = 9 /\ WithEst)
             \/ (k = 10 /\ WithActual)
             \/ (k = 11 /\ ScaleCard)
             \/ (k = 20 /\ UpdateOps)
             \/ (k = 21 /\ Recompose)
             \/ (k = 22 /\ Simple)
             \/ (Sim /\ Len(h) < 4 /\ Scan)
Spec == Init /\ [][Next]_vars

Marks(s) == Map(Mark, s)
Obs(n) == [tabs |-> Tables(n), cols |-> Cols(n), depth |-> Depth(n), linear |-> Linear(n), left |-> LeftDeep(n), right |-> RightDeep(n),
           branch |-> Branch(n), basejoin |-> BaseJoin(n), base |-> Base(n), outermost |-> Mark(Left(n)), post |-> Marks(Post(n)), pre |-> Marks(Pre(n)),
           lookup |-> {[s |-> S, r |-> Lookup(n, S)] : S \in (SUBSET T) \ {{}}},
           first |-> [p \in {"is_join", "no_op", "big"} |-> [o |-> First(n, LAMBDA m : Probe(m)[p], TRUE), i |-> First(n, LAMBDA m : Probe(m)[p], FALSE)]],
           count |-> [p \in {"is_join", "no_op", "big"} |-> Len(SelectSeq(Pre(n), LAMBDA m : Probe(m)[p]))],
           cout |-> Cout(n, TRUE), coutcore |-> Cout(n, FALSE), qerror |-> Qerror(n), optime |-> OpTime(n), hassub |-> HasSub(n),
           tree |-> [e |-> Tree(n, "estimated"), a |-> Tree(n, "actual")],
           ops |-> IF HasSub(n) THEN {} ELSE Ops(n), cards |-> IF HasSub(n) THEN <<>> ELSE <<CardParams(n, "estimated"), CardParams(n, "actual"), CardParams(n, "fallback")>>,
           works |-> IF HasSub(n) THEN {} ELSE WorkParams(n)]
Emit == (Len(h) = MaxLen \/ (~Sim /\ h # <<>>)) =>
    PrintT("@@" \o ToJson([h |-> h, obs |-> IF Sim THEN [i \in Idx |-> Obs(pool[i])] ELSE <<Obs(pool[Len(pool)])>>,
                           eq |-> {p \in Idx \X Idx : Shape(pool[p[1]]) = Shape(pool[p[2]])}]))
----------------------------------------------------------------------------
TreeTabs(t) == TT(t)
WellFormed == \A i \in Idx : LET n == pool[i] IN
  /\ Len(Joins(n)) = Cardinality({Post(n)[j].t : j \in DOMAIN Post(n)} \ {0}) - 1
  /\ Linear(n) \/ ~(LeftDeep(n) \/ RightDeep(n))
  /\ ~HasSub(n) => TT(Tree(n, "estimated")) = Tables(n) /\ Tree(Canon(n), "actual") = Tree(n, "actual")
  /\ ~HasSub(n) => {o \in Ops(n) : o.kind # "aux"} = Ops(Canon(n))
\* decomposing and recombining reproduces every part
RoundTrip == \A i \in Idx : LET n == pool[i] IN ~HasSub(n) =>
  LET c == Compose(Tree(n, "estimated"), Ops(n), {o.k : o \in {o \in Ops(n) : o.op = "Materialize"}}, CardParams(n, "estimated"), WorkParams(n), "", "", NoQuery) IN
  /\ {o \in Ops(n) : o.kind # "aux" \/ o.op = "Materialize"} = Ops(c)
  /\ CardParams(n, "estimated") = CardParams(c, "estimated") /\ WorkParams(n) = WorkParams(c)
Persistent == [][\A i \in Idx : pool'[i] = pool[i]]_vars
==========================================================================
