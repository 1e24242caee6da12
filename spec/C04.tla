------------------------------- MODULE C04 -------------------------------
(* Scoping and column binding.                                                *)
(* A query text is written from left to right: WITH entries, FROM items, then  *)
(* SELECT / WHERE / HAVING entries, then GROUP BY / ORDER BY.  Subqueries open  *)
(* a new scope on the stack, and closing it returns to the enclosing query.    *)
(* Each column reference gets the table SQL's scoping rules give it at the     *)
(* place where it is written; ambiguous references are not written.           *)
(*                                                                            *)
(* table: <<name, alias, schema, virtual>>      ref: [q, c, tab]  (tab = <<>> : unbound) *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Bases,      \* physical tables that are used
          Aliases,    \* aliases of FROM items ("" : none)
          CteNames,   \* names of named subqueries
          Columns,    \* column names in references
          Rich,       \* all kinds of items and clauses, not only the basic ones
          MaxOps, MaxStack, MaxItems, Sim

VARIABLES stack, n, schema, done
vars == <<stack, n, schema, done>>

R(S) == RandomElement(S)
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
NoTab == <<>>

(* ------------------------------------------------------------------ the data *)
\* physical tables and their columns; "o.r" is table r of schema o
BaseCols(b) == IF schema = 1 THEN CASE b = "r" -> <<"a", "b">> [] b = "s" -> <<"b", "c">> [] b = "t" -> <<"a", "c", "d">> [] b = "o.r" -> <<"c", "e">>
               ELSE CASE b = "r" -> <<"a", "c">> [] b = "s" -> <<"b", "d">> [] b = "t" -> <<"b", "e">> [] b = "o.r" -> <<"a", "b">>
BaseName(b) == IF b = "o.r" THEN "r" ELSE b
BaseSchema(b) == IF b = "o.r" THEN "o" ELSE ""

NoQuery == <<>>
\* FROM items; cols: the visible columns in order, chain: first item of the explicit join it belongs to
Item(k, tab, cols, join, chain, q, refs) == [k |-> k, tab |-> tab, cols |-> cols, join |-> join, chain |-> chain, q |-> q, refs |-> refs, on |-> <<>>]
Ident(it) == IF it.tab = NoTab THEN "" ELSE IF it.tab[2] # "" THEN it.tab[2] ELSE it.tab[1]
\* entries of the clauses: t: ref, exp (a computed value), star, qstar, const, exists, in, scalar
Entry(t, refs, alias, q) == [t |-> t, refs |-> refs, alias |-> alias, q |-> q]
Ref(qual, col, tab) == [q |-> qual, c |-> col, tab |-> tab]

Scope(kind, name, slot) ==
  [kind |-> kind, name |-> name, slot |-> slot, phase |-> "with", rec |-> FALSE, isset |-> FALSE, ctes |-> <<>>, items |-> <<>>,
   sels |-> <<>>, where |-> <<>>, hav |-> <<>>, grp |-> <<>>, ord |-> <<>>, left |-> NoQuery, right |-> NoQuery, leftOut |-> <<>>, on |-> FALSE]
NoSlot == Entry("none", <<>>, "", NoQuery)

Top == Len(stack)
Cur == stack[Top]
Upd(s) == [stack EXCEPT ![Top] = s]

(* ------------------------------------------------------------------- scoping *)
\* the FROM items of level l that can be referenced right now: inside an ON condition only those of the join
Seen(l) == LET s == stack[l] IN IF s.on THEN SubSeq(s.items, s.items[Len(s.items)].chain, Len(s.items)) ELSE s.items

\* the next outer level whose FROM items are visible from level l
RECURSIVE Outer(_)
Outer(l) == IF l = 1 THEN 0
            ELSE IF stack[l].kind \in {"sublink", "lateral", "left", "right"} THEN l - 1
            ELSE Outer(l - 1)

Matches(items, c) == {i \in 1..Len(items) : \E j \in 1..Len(items[i].cols) : items[i].cols[j] = c}
\* how often a column occurs in the items
Count(items, c) == FoldSeq(LAMBDA it, k : k + Cardinality({j \in 1..Len(it.cols) : it.cols[j] = c}), 0, items)
Found(t) == <<"tab", t>>
Ambiguous == <<"ambiguous">>
Nowhere == <<"tab", NoTab>>

\* columns in front of which the items are `items` and the rest of the search starts at level l
RECURSIVE Search(_, _, _)
Search(items, l, c) ==
  LET m == Matches(items, c) IN
  IF Count(items, c) > 1 THEN Ambiguous
  ELSE IF m # {} THEN Found(items[CHOOSE i \in m : TRUE].tab)
  ELSE IF \E i \in 1..Len(items) : items[i].k = "func" THEN Ambiguous    \* the columns of a function's result are not known
  ELSE IF Outer(l) = 0 THEN Nowhere ELSE Search(Seen(Outer(l)), Outer(l), c)

\* the item a qualifier stands for
RECURSIVE Qualifier(_, _, _)
Qualifier(items, l, id) ==
  LET m == {i \in 1..Len(items) : Ident(items[i]) = id} IN
  IF m # {} THEN <<items[CHOOSE i \in m : TRUE]>>
  ELSE IF Outer(l) = 0 THEN <<>> ELSE Qualifier(Seen(Outer(l)), Outer(l), id)

RECURSIVE Idents(_, _)
Idents(items, l) == {Ident(items[i]) : i \in 1..Len(items)} \cup (IF Outer(l) = 0 THEN {} ELSE Idents(Seen(Outer(l)), Outer(l)))

\* all references that can be written at a place where `items` and what is outside of level l are visible
Refs(items, l) ==
  {Ref("", c, Search(items, l, c)[2]) : c \in {d \in Columns : Search(items, l, d) # Ambiguous}}
  \cup {Ref(p[1], p[2], Qualifier(items, l, p[1])[1].tab) :
          p \in {x \in (Idents(items, l) \ {""}) \X Columns : \E j \in 1..Len(Qualifier(items, l, x[1])[1].cols) : Qualifier(items, l, x[1])[1].cols[j] = x[2]}}
  \cup {Ref(id, id, Qualifier(items, l, id)[1].tab) : id \in {x \in Idents(items, l) \ {""} : Qualifier(items, l, x)[1].k = "func"}}
RefsHere == Refs(Seen(Top), Top)

(* -------------------------------------------------------------- output columns *)
\* output columns: [c |-> name, tab |-> table it is taken from, NoTab if it is computed or renamed]
ItemOut(it) == [j \in 1..Len(it.cols) |-> [c |-> it.cols[j], tab |-> it.tab]]
OutOf(e, items, l) ==
  CASE e.alias # "" -> <<[c |-> e.alias, tab |-> NoTab]>>
    [] e.t = "ref" -> <<[c |-> e.refs[1].c, tab |-> e.refs[1].tab]>>
    [] e.t = "star" -> FoldSeq(LAMBDA it, acc : acc \o ItemOut(it), <<>>, items)
    [] e.t = "qstar" -> ItemOut(Qualifier(items, l, e.refs[1].q)[1])
    [] OTHER -> <<>>
Out(s, l) == IF s.isset THEN [j \in 1..Len(s.leftOut) |-> [c |-> s.leftOut[j], tab |-> NoTab]]
             ELSE FoldSeq(LAMBDA e, acc : acc \o OutOf(e, s.items, l), <<>>, s.sels)
OutNames(s, l) == [j \in 1..Len(Out(s, l)) |-> Out(s, l)[j].c]

Outs(c) == {j \in 1..Len(Out(Cur, Top)) : Out(Cur, Top)[j].c = c}
\* plain names in ORDER BY are output columns first, those in GROUP BY are input columns first
OrderBy(c) == IF Cardinality(Outs(c)) > 1 THEN Ambiguous
              ELSE IF Outs(c) # {} THEN Found(Out(Cur, Top)[CHOOSE j \in Outs(c) : TRUE].tab)
              ELSE IF Cur.isset THEN Ambiguous   \* only output columns can be used
              ELSE Search(Cur.items, Top, c)
GroupBy(c) == IF Count(Cur.items, c) = 0 /\ Cardinality(Outs(c)) > 1 THEN Ambiguous
              ELSE IF Count(Cur.items, c) = 0 /\ Outs(c) # {} THEN Found(Out(Cur, Top)[CHOOSE j \in Outs(c) : TRUE].tab)
              ELSE Search(Cur.items, Top, c)
Qualified == {x \in RefsHere : x.q # ""}

(* ------------------------------------------------------------ named subqueries *)
\* what an unqualified table name means at level l: a named subquery (innermost first) or a physical table
RECURSIVE CteAt(_, _)
CteAt(l, name) ==
  IF l = 0 THEN <<"none">>
  ELSE LET s == stack[l]
           own == {i \in 1..Len(s.ctes) : s.ctes[i].name = name}
           up == stack[l - 1] IN
  IF own # {} THEN <<"cte", s.ctes[CHOOSE i \in own : TRUE].cols>>
  ELSE IF s.kind = "cte" /\ s.name = name /\ l > 1 /\ up.rec
       THEN IF s.isset /\ Top > l /\ stack[l + 1].kind = "right" THEN <<"cte", s.leftOut>> ELSE <<"forbidden">>
  ELSE CteAt(l - 1, name)

(* ------------------------------------------------------------------- actions *)
Busy == n < MaxOps
Tick == n' = n + 1 /\ UNCHANGED <<schema, done>>
Free(id) == id = "" \/ ~ \E i \in 1..Len(Cur.items) : Ident(Cur.items[i]) = id
Joins == IF Cur.items = <<>> THEN {"comma"} ELSE IF Rich THEN {"comma", "join", "left"} ELSE {"comma", "join"}
Chain(j) == IF j = "comma" THEN Len(Cur.items) + 1 ELSE Cur.items[Len(Cur.items)].chain
CanFrom == Busy /\ Top > 0 /\ Cur.phase \in {"with", "from"} /\ ~Cur.isset /\ ~Cur.on /\ Len(Cur.items) < MaxItems
\* (random behaviours mostly add some tables first, and do not stop too early)
Ready == ~Sim \/ Cur.phase = "body" \/ (CASE Len(Cur.items) = 0 -> R(1..8) = 1 [] Len(Cur.items) = 1 -> R(1..3) = 1 [] OTHER -> TRUE)
CanBody == Busy /\ Top > 0 /\ Cur.phase # "tail" /\ ~Cur.isset /\ ~Cur.on /\ Ready
AddItem(it) == stack' = Upd([Cur EXCEPT !.items = Append(@, it), !.phase = "from"])

AddBase == /\ CanFrom
           /\ \E b \in Pick(Bases), al \in Pick(Aliases), j \in Pick(Joins) :
                LET nm == BaseName(b)
                    tab == <<nm, al, BaseSchema(b), FALSE>>
                    it == Item("base", tab, BaseCols(b), j, Chain(j), NoQuery, <<>>) IN
                /\ BaseSchema(b) # "" \/ CteAt(Top, nm) = <<"none">>
                /\ Free(Ident(it)) /\ AddItem(it)
           /\ Tick

AddCteScan == /\ CanFrom
              /\ \E c \in Pick(CteNames), al \in Pick(Aliases), j \in Pick(Joins) :
                   /\ CteAt(Top, c)[1] = "cte"
                   /\ LET it == Item("cte", IF al = "" THEN <<"", c, "", TRUE>> ELSE <<c, al, "", TRUE>>, CteAt(Top, c)[2], j, Chain(j), NoQuery, <<>>) IN
                      Free(Ident(it)) /\ AddItem([it EXCEPT !.refs = <<Ref("", c, NoTab)>>])
              /\ Tick

\* a table function: its arguments can refer to the items before it
AddFunc == /\ CanFrom /\ Rich
           /\ \E j \in Pick(Joins), x \in Pick(Refs(Cur.items, Top)) :
                LET al == "f" IN Free(al) /\ AddItem(Item("func", <<"", al, "", TRUE>>, <<al>>, j, Chain(j), NoQuery, <<x>>))
           /\ Tick

\* VALUES lists can only refer to enclosing queries
AddValues == /\ CanFrom /\ Rich
             /\ \E j \in Pick(Joins), named \in Pick({TRUE, FALSE}), al \in Pick({"v", "r"}), x \in Pick(Refs(<<>>, Top)) :
                  /\ Free(al)
                  /\ AddItem(Item("values", <<"", al, "", TRUE>>, IF named THEN <<"a", "column2">> ELSE <<"column1", "column2">>, j, Chain(j), NoQuery, <<x>>))
             /\ Tick

\* a reference in the ON condition of the last join
AddOn == /\ Busy /\ Top > 0 /\ Cur.phase = "from" /\ ~Cur.isset /\ Cur.items # <<>>
         /\ LET k == Len(Cur.items)
                last == Cur.items[k]
                sub == SubSeq(Cur.items, last.chain, k) IN
            /\ last.join \in {"join", "left"} /\ Len(last.on) < 2
            /\ \E x \in Pick(Refs(sub, Top)) :
                 stack' = Upd([Cur EXCEPT !.items[k].on = Append(@, Entry("ref", <<x>>, "", NoQuery))])
         /\ Tick

Alias(i) == <<"", "a", "k">>[i]
AddSelect == /\ CanBody /\ Len(Cur.sels) < 3
             /\ \E t \in Pick({"ref", "exp", "star", "qstar", "const"}) :
                  LET put(e) == stack' = Upd([Cur EXCEPT !.sels = Append(@, e), !.phase = "body"]) IN
                  CASE t = "ref" -> \E x \in Pick(RefsHere), al \in Pick(Aliases \cup {"a"}) : put(Entry("ref", <<x>>, al, NoQuery))
                    [] t = "exp" -> \E x \in Pick(RefsHere) : \E y \in (IF Sim THEN Pick(RefsHere) ELSE {x}), al \in Pick({"k", "a"}) : put(Entry("exp", <<x, y>>, al, NoQuery))
                    [] t = "star" -> Cur.items # <<>> /\ (\A i \in 1..Len(Cur.items) : Cur.items[i].k # "func") /\ put(Entry("star", <<>>, "", NoQuery))
                    [] t = "qstar" -> \E id \in Pick(Idents(Cur.items, Top) \ {""}) : /\ Qualifier(Cur.items, Top, id)[1].k # "func"
                                                                                   /\ put(Entry("qstar", <<Ref(id, "*", Qualifier(Cur.items, Top, id)[1].tab)>>, "", NoQuery))
                    [] OTHER -> put(Entry("const", <<>>, "k", NoQuery))
             /\ Tick

AddWhere == /\ CanBody /\ Len(Cur.where) < 3
            /\ \E x \in Pick(RefsHere) : stack' = Upd([Cur EXCEPT !.where = Append(@, Entry("ref", <<x>>, "", NoQuery)), !.phase = "body"])
            /\ Tick
AddHaving == /\ CanBody /\ Rich /\ Len(Cur.hav) < 2
             /\ \E x \in Pick(RefsHere) : stack' = Upd([Cur EXCEPT !.hav = Append(@, Entry("ref", <<x>>, "", NoQuery)), !.phase = "body"])
             /\ Tick

CanTail == Busy /\ Top > 0 /\ Cur.phase \in {"body", "tail"} /\ (Cur.sels # <<>> \/ Cur.isset) /\ ~Cur.on
Plain(F(_)) == {Ref("", c, F(c)[2]) : c \in {d \in Columns \cup {"k", "column1"} : F(d) # Ambiguous}}
AddGroup == /\ CanTail /\ ~Cur.isset /\ Len(Cur.grp) < 2
            /\ \E t \in Pick({"ref", "exp"}) : \E x \in Pick(IF t = "ref" THEN Plain(GroupBy) \cup Qualified ELSE RefsHere) :
                 stack' = Upd([Cur EXCEPT !.grp = Append(@, Entry(t, IF t = "ref" THEN <<x>> ELSE <<x, x>>, "", NoQuery)), !.phase = "tail"])
            /\ Tick
AddOrder == /\ CanTail /\ Len(Cur.ord) < 2
            /\ \E t \in Pick(IF Cur.isset THEN {"ref"} ELSE {"ref", "exp"}) : \E x \in Pick(IF t = "exp" THEN RefsHere ELSE IF Cur.isset THEN Plain(OrderBy) ELSE Plain(OrderBy) \cup Qualified) :
                 stack' = Upd([Cur EXCEPT !.ord = Append(@, Entry(t, IF t = "ref" THEN <<x>> ELSE <<x, x>>, "", NoQuery)), !.phase = "tail"])
            /\ Tick

(* nested queries *)
CanOpen == Busy /\ Top > 0 /\ Top < MaxStack
Push(s, child) == stack' = Append(Upd(s), child)
BaseNames == {"r", "s", "t"}

OpenCte == /\ CanOpen /\ Cur.phase = "with" /\ Len(Cur.ctes) < 2 /\ ~Cur.on /\ ~Cur.isset
           /\ \E c \in Pick(CteNames), rec \in Pick(IF Cur.ctes = <<>> THEN {TRUE, FALSE} ELSE {Cur.rec}) :
                /\ ~ \E i \in 1..Len(Cur.ctes) : Cur.ctes[i].name = c
                /\ rec => c \notin BaseNames
                /\ Push([Cur EXCEPT !.rec = rec], Scope("cte", c, NoSlot))
           /\ Tick
AddValuesCte == /\ Busy /\ Rich /\ Top > 0 /\ Cur.phase = "with" /\ Len(Cur.ctes) < 2 /\ ~Cur.on /\ ~Cur.isset
                /\ \E c \in Pick(CteNames), named \in Pick({TRUE, FALSE}) :
                     /\ ~ \E i \in 1..Len(Cur.ctes) : Cur.ctes[i].name = c
                     /\ Cur.rec => c \notin BaseNames
                     /\ stack' = Upd([Cur EXCEPT !.ctes = Append(@, [name |-> c, cols |-> IF named THEN <<"a", "e">> ELSE <<"column1", "column2">>, q |-> NoQuery])])
                /\ Tick

OpenDerived == /\ CanOpen /\ CanFrom
               /\ \E kind \in Pick({"derived", "lateral"}), al \in Pick(IF Rich THEN {"q", "r", "s", ""} ELSE {"q", "r"}), j \in Pick(Joins) :
                    Free(al) /\ Push([Cur EXCEPT !.phase = "from"], Scope(kind, al, Entry(j, <<>>, "", NoQuery)))
               /\ Tick

OpenSublink == /\ CanOpen /\ CanBody
               /\ \E t \in Pick(IF Rich THEN {"exists", "in", "scalar", "having"} ELSE {"exists", "in", "scalar"}), x \in Pick(RefsHere) :
                    /\ t = "scalar" => Len(Cur.sels) < 3
                    /\ t \in {"exists", "in"} => Len(Cur.where) < 3
                    /\ Push([Cur EXCEPT !.phase = "body"], Scope("sublink", "", Entry(t, IF t = "in" THEN <<x>> ELSE <<>>, IF t = "scalar" THEN "k" ELSE "", NoQuery)))
               /\ Tick
OpenOnSublink == /\ CanOpen /\ Rich /\ Cur.phase = "from" /\ ~Cur.isset /\ Cur.items # <<>> /\ ~Cur.on
                 /\ LET last == Cur.items[Len(Cur.items)] IN
                    /\ last.join \in {"join", "left"} /\ Len(last.on) < 2
                    /\ Push([Cur EXCEPT !.on = TRUE], Scope("sublink", "", Entry("on", <<>>, "", NoQuery)))
                 /\ Tick

\* the query becomes a UNION; its left side is written first
OpenSet == /\ CanOpen /\ Cur.phase = "with" /\ ~Cur.isset /\ ~Cur.on
           /\ Push([Cur EXCEPT !.isset = TRUE, !.phase = "body"], Scope("left", "", NoSlot))
           /\ Tick

\* when there is no room left, the open queries are completed
Complete == /\ ~Busy /\ Top > 0 /\ ~Cur.isset /\ Cur.sels = <<>>
            /\ stack' = Upd([Cur EXCEPT !.sels = <<IF Cur.items # <<>> /\ (\A i \in 1..Len(Cur.items) : Cur.items[i].k # "func") THEN Entry("star", <<>>, "", NoQuery) ELSE Entry("const", <<>>, "k", NoQuery)>>, !.phase = "body"])
            /\ UNCHANGED <<n, schema, done>>

Term(s) == [isset |-> s.isset, rec |-> s.rec, ctes |-> s.ctes, items |-> s.items, sels |-> s.sels, where |-> s.where, hav |-> s.hav, grp |-> s.grp, ord |-> s.ord, left |-> s.left, right |-> s.right]
Emit(q) == PrintT("@@" \o ToJson([schema |-> schema, query |-> q]))

Close ==
  /\ Top > 0 /\ ~Cur.on
  /\ ~Sim \/ Top > 1 \/ ~Busy \/ (Cur.phase = "tail" /\ R(1..3) = 1)
  /\ IF Cur.isset THEN Cur.right # NoQuery ELSE Cur.sels # <<>>
  /\ LET q == Term(Cur)
         names == OutNames(Cur, Top)
         rest == SubSeq(stack, 1, Top - 1)
         p == stack[Top - 1]
         put(s) == [rest EXCEPT ![Top - 1] = s] IN
     IF Top = 1 THEN stack' = <<>> /\ done' = q /\ UNCHANGED <<n, schema>>
     ELSE /\ CASE Cur.kind = "cte" -> stack' = put([p EXCEPT !.ctes = Append(@, [name |-> Cur.name, cols |-> names, q |-> q])])
               [] Cur.kind \in {"derived", "lateral"} ->
                    stack' = put([p EXCEPT !.items = Append(@, Item(Cur.kind, IF Cur.name = "" THEN NoTab ELSE <<"", Cur.name, "", TRUE>>, names, Cur.slot.t,
                                                                    IF Cur.slot.t = "comma" THEN Len(p.items) + 1 ELSE p.items[Len(p.items)].chain, q, <<>>))])
               [] Cur.kind = "sublink" /\ Cur.slot.t = "on" -> stack' = put([p EXCEPT !.on = FALSE, !.items[Len(p.items)].on = Append(@, Entry("exists", <<>>, "", q))])
               [] Cur.kind = "sublink" /\ Cur.slot.t = "having" -> stack' = put([p EXCEPT !.hav = Append(@, Entry("exists", <<>>, "", q))])
               [] Cur.kind = "sublink" /\ Cur.slot.t = "scalar" -> stack' = put([p EXCEPT !.sels = Append(@, [Cur.slot EXCEPT !.q = q])])
               [] Cur.kind = "sublink" -> stack' = put([p EXCEPT !.where = Append(@, [Cur.slot EXCEPT !.q = q])])
               [] Cur.kind = "left" -> stack' = Append(put([p EXCEPT !.left = q, !.leftOut = names]), Scope("right", "", NoSlot))
               [] Cur.kind = "right" -> stack' = put([p EXCEPT !.right = q])
          /\ UNCHANGED <<n, schema, done>>

Init == /\ stack = <<Scope("top", "", NoSlot)>> /\ n = 0 /\ done = NoQuery
        /\ schema \in {1, 2}
Next == \/ AddBase \/ AddCteScan \/ AddFunc \/ AddValues \/ AddOn \/ AddSelect \/ AddWhere \/ AddHaving \/ AddGroup \/ AddOrder
        \/ OpenCte \/ AddValuesCte \/ OpenDerived \/ OpenSublink \/ OpenOnSublink \/ OpenSet \/ Complete \/ Close
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- invariants *)
InvEmit == (done # NoQuery) => Emit(done)
\* a bound reference is bound to a table that is on the stack of scopes, and that table has the column
AllItems == UNION {{stack[l].items[i] : i \in 1..Len(stack[l].items)} : l \in 1..Top}
Sound(x) == x.tab = NoTab \/ \E it \in AllItems : it.tab = x.tab /\ \E j \in 1..Len(it.cols) : it.cols[j] = x.c
InvRefs == Top > 0 => \A x \in (IF Cur.on THEN {} ELSE RefsHere) : Sound(x)
\* references out of a subquery in FROM never see the items next to it unless it is LATERAL
InvLateral == \A l \in 2..Top : stack[l].kind \in {"derived", "cte"} => Outer(l) < l - 1
==========================================================================
