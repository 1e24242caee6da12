------------------------------- MODULE C25 -------------------------------
(* A database schema grows by DDL statements (tables with keys, uniqueness    *)
(* and foreign key constraints in two namespaces, indexes, views).  The spec  *)
(* gives the answer to every question of the schema interface in each state.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS MaxTables, MaxExtras, Rich, Sim
VARIABLES tabs, idx, views, done
vars == <<tabs, idx, views, done>>

Names == {"r", "s", "t", "rs"}
Spaces == IF Rich THEN {"", "o"} ELSE {""}
Cols == <<"a", "b", "c">>
RE(S) == RandomElement(S)
One(S) == IF Sim THEN {RE(S)} ELSE S

(* ------------------------------------------------ what is declared *)
ColSet(t) == {t.cols[i].c : i \in DOMAIN t.cols}
Find(sp, n) == CHOOSE i \in DOMAIN tabs : tabs[i].sp = sp /\ tabs[i].name = n
Used(sp) == {tabs[i].name : i \in {k \in DOMAIN tabs : tabs[k].sp = sp}} \cup {views[i].name : i \in {k \in DOMAIN views : views[k].sp = sp}}
\* columns a foreign key may refer to: whole keys
KeyCols(t) == {c \in ColSet(t) : t.pk = <<c>> \/ c \in t.uniq}
Targets(sp) == UNION {{[name |-> tabs[i].name, c |-> c] : c \in KeyCols(tabs[i]) \ {"c"}} : i \in {k \in DOMAIN tabs : tabs[k].sp = sp}}
FkSets(sp) == {{}} \cup {{x} : x \in Targets(sp)} \cup (IF Rich THEN {{x, y} : x \in Targets(sp), y \in Targets(sp)} ELSE {})
Columns(n) == {[i \in 1..n |-> [c |-> Cols[i], ty |-> IF Cols[i] = "c" THEN ty ELSE "INTEGER", nn |-> i \in nn]] : ty \in (IF n < 3 THEN {"VARCHAR"} ELSE {"VARCHAR", "DOUBLE", "DATE"}), nn \in (IF Rich THEN SUBSET (1..n) ELSE {{}, {2}})}
TableOf(sp, n, cs, pk, uq, fa, fb) == [sp |-> sp, name |-> n, cols |-> cs, pk |-> pk, uniq |-> uq, fk |-> [a |-> fa, b |-> fb]]

NewTables ==
    IF Sim
    THEN \E sp \in One(Spaces) : \E n \in One(Names) : \E k \in One({1, 2, 3, 3}) : \E cs \in One(Columns(k)) :
         \E pk \in One({<<>>, <<"a">>, <<"a">>} \cup (IF k > 1 THEN {<<"a", "b">>, <<"b">>, <<"b", "a">>} ELSE {})) : \E uq \in One(SUBSET (ColSet([cols |-> cs]) \ ToSet(pk))) :
         \E fa \in One(FkSets(sp)) : \E fb \in One(IF k > 1 THEN FkSets(sp) ELSE {{}}) :
            n \notin Used(sp) /\ tabs' = Append(tabs, TableOf(sp, n, cs, pk, uq, fa, fb))
    ELSE \E n \in {Cols2 \in Names : Cols2 = (IF Len(tabs) = 0 THEN "r" ELSE IF Len(tabs) = 1 THEN "s" ELSE "t")} :
         \E sp \in Spaces : \E cs \in Columns(2) : \E pk \in {<<>>, <<"a">>, <<"a", "b">>} : \E uq \in SUBSET ({"b"} \ ToSet(pk)) : \E fa \in FkSets(sp) : \E fb \in FkSets(sp) :
            tabs' = Append(tabs, TableOf(sp, n, cs, pk, uq, fa, fb))
CreateTable == Len(tabs) < MaxTables /\ NewTables /\ UNCHANGED <<idx, views, done>>
ColSeqs(t) == {<<c>> : c \in ColSet(t)} \cup {p \in ColSet(t) \X ColSet(t) : p[1] # p[2]}
CreateIndex == /\ Len(idx) + Len(views) < MaxExtras
               /\ \E i \in One(DOMAIN tabs) : \E cs \in One(ColSeqs(tabs[i])) : \E u \in One(IF Rich THEN BOOLEAN ELSE {FALSE}) :
                    idx' = Append(idx, [name |-> "i" \o ToString(Len(idx)), sp |-> tabs[i].sp, t |-> tabs[i].name, cols |-> cs, unique |-> u])
               /\ UNCHANGED <<tabs, views, done>>
CreateView == /\ Len(idx) + Len(views) < MaxExtras
              /\ \E i \in One(DOMAIN tabs) : \E sp \in One(Spaces) : \E n \in One(Names \cup {"v"}) :
                    n \notin Used(sp) /\ views' = Append(views, [name |-> n, sp |-> sp, base |-> tabs[i].name, bsp |-> tabs[i].sp, cols |-> [k \in DOMAIN tabs[i].cols |-> [tabs[i].cols[k] EXCEPT !.nn = FALSE]]])
              /\ UNCHANGED <<tabs, idx, done>>
Init == tabs = <<>> /\ idx = <<>> /\ views = <<>> /\ done = FALSE
Finish == ~done /\ Len(tabs) > 0 /\ (Sim => Len(tabs) >= 2) /\ done' = TRUE /\ UNCHANGED <<tabs, idx, views>>
Next == ~done /\ (CreateTable \/ (tabs # <<>> /\ (CreateIndex \/ CreateView)) \/ Finish)
Stop == done /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars

(* ------------------------------------------------ the answers *)
IsPk(t, c) == t.pk = <<c>>
Explicit(t, c) == {idx[i].name : i \in {k \in DOMAIN idx : idx[k].sp = t.sp /\ idx[k].t = t.name /\ idx[k].cols = <<c>>}}
Secondary(t, c) == c \in t.uniq \/ Explicit(t, c) # {}
\* indexes that belong to this column alone
IndexNames(t, c) == Explicit(t, c) \cup (IF c \in t.uniq THEN {t.name \o "_" \o c \o "_key"} ELSE {}) \cup (IF IsPk(t, c) THEN {t.name \o "_" \o c \o "_pkey"} ELSE {})
Fks(t, c) == IF c \in {"a", "b"} THEN t.fk[c] ELSE {}
ColAnswer(t, i) == LET c == t.cols[i].c IN
    [c |-> c, ty |-> t.cols[i].ty, nullable |-> ~(t.cols[i].nn \/ c \in ToSet(t.pk)), pk |-> IsPk(t, c), secondary |-> Secondary(t, c), any |-> IsPk(t, c) \/ Secondary(t, c),
     names |-> SetToSeq(IndexNames(t, c)), fks |-> SetToSeq(Fks(t, c))]
TabAnswer(t) == [sp |-> t.sp, name |-> t.name, key |-> IF Len(t.pk) = 1 THEN t.pk[1] ELSE "", cols |-> [i \in DOMAIN t.cols |-> ColAnswer(t, i)]]
\* joinable columns of the default namespace
Mine == {i \in DOMAIN tabs : tabs[i].sp = ""}
Links == UNION {UNION {{<<[name |-> tabs[i].name, c |-> c], x>> : x \in Fks(tabs[i], c)} : c \in ColSet(tabs[i])} : i \in Mine}
Linked == UNION {{l[1], l[2]} : l \in Links}
RECURSIVE Closure(_)
Closure(S) == LET N == S \cup {l[1] : l \in {m \in Links : m[2] \in S}} \cup {l[2] : l \in {m \in Links : m[1] \in S}} IN IF N = S THEN S ELSE Closure(N)
Classes == {Closure({x}) : x \in Linked}
\* the first of the candidate tables that has the column
Candidates == SetToSeq({tabs[i].name : i \in Mine})
Owner(c) == LET ok == SelectSeq(Candidates, LAMBDA n : c \in ColSet(tabs[Find("", n)])) IN IF ok = <<>> THEN "" ELSE ok[1]
Answers == [tabs |-> [i \in DOMAIN tabs |-> TabAnswer(tabs[i])], views |-> views, classes |-> SetToSeq({SetToSeq(k) : k \in Classes}), links |-> SetToSeq(Links),
            candidates |-> Candidates, owners |-> [a |-> Owner("a"), b |-> Owner("b"), c |-> Owner("c"), d |-> ""]]

TypeOK == \A i \in DOMAIN tabs : \A c \in {"a", "b"} : \A x \in tabs[i].fk[c] : \E k \in 1..(i - 1) : tabs[k].sp = tabs[i].sp /\ tabs[k].name = x.name /\ x.c \in KeyCols(tabs[k])
\* the classes partition the linked columns
Partition == /\ UNION Classes = Linked
             /\ \A k \in Classes : \A m \in Classes : k = m \/ k \cap m = {}
             /\ \A l \in Links : \E k \in Classes : {l[1], l[2]} \subseteq k
Emit == done => PrintT("@@" \o ToJson([ddl |-> tabs, idx |-> idx, exp |-> Answers]))
=============================================================================
