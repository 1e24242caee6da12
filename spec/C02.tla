------------------------------- MODULE C02 -------------------------------
(* Table and column references as immutable values.                          *)
(* State: a pool of references built so far.  Actions derive a new reference *)
(* from one in the pool (or fail); nothing ever changes an existing entry.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,     \* identifiers (indices into the alphabet below), 0 is the empty identifier
          MaxLen, Sim

VARIABLES pool, h
vars == <<pool, h>>

(* alphabet: 1 "a", 2 "A", 3 "b", 4 "select", 5 "my tab", 6 "x-1", 7 "_z$9", 8 quote sign inside, 9 "1st", 10 "B" *)
Norm == <<2, 2, 3, 5, 4, 7, 1, 6, 0, 3>>      \* rank of the normalized (lower case) spelling
Quoted == {2, 4, 5, 6, 8, 9, 10}              \* identifiers that do not survive without quotes
N(i) == IF i = 0 THEN -1 ELSE Norm[i]
Id == Names \cup {0}

Tab(s, n, a, v) == [k |-> "tab", schema |-> s, name |-> n, alias |-> a, virtual |-> v]
NoTab == [k |-> "none"]
Col(n, t) == [k |-> "col", name |-> n, tab |-> t]
Err == [k |-> "err"]

MkTab(s, n, a, v) == IF (n = 0 /\ a = 0) \/ (s # 0 /\ n = 0) THEN Err ELSE Tab(s, n, a, v)
MkCol(n, t) == IF n = 0 \/ t.k = "err" THEN Err ELSE Col(n, t)

Ident(t) == IF t.alias # 0 THEN t.alias ELSE t.name

(* equality ignores letter case and virtual-ness: a reference is identified by its names *)
EqTab(s, t) == N(s.name) = N(t.name) /\ N(s.alias) = N(t.alias) /\ N(s.schema) = N(t.schema)
SameTab(s, t) == CASE s.k # t.k -> FALSE [] s.k = "none" /\ t.k = "none" -> TRUE [] OTHER -> EqTab(s, t)
Eq(x, y) == CASE x.k # y.k -> FALSE
              [] x.k = "tab" -> EqTab(x, y)
              [] x.k = "col" -> N(x.name) = N(y.name) /\ SameTab(x.tab, y.tab)
LtTab(s, t) == N(Ident(s)) < N(Ident(t))
LtCol(x, y) == CASE SameTab(x.tab, y.tab) -> N(x.name) < N(y.name)
                 [] x.tab.k = "none" -> TRUE
                 [] y.tab.k = "none" -> FALSE
                 [] OTHER -> LtTab(x.tab, y.tab)
Lt(x, y) == IF x.k = "tab" THEN LtTab(x, y) ELSE LtCol(x, y)

(* the rendered form: a sequence of tokens, identifiers with their quoting *)
Tok(i) == [id |-> i, q |-> i \in Quoted]
Text(s) == [text |-> s]
RenderName(t) == IF t.schema # 0 THEN <<Tok(t.schema), Text("."), Tok(t.name)>> ELSE IF t.name # 0 THEN <<Tok(t.name)>> ELSE <<>>
RenderTab(t) == IF t.name # 0 /\ t.alias # 0 THEN RenderName(t) \o <<Text(" AS "), Tok(t.alias)>>
                ELSE IF t.alias # 0 THEN <<Tok(t.alias)>> ELSE RenderName(t)
Render(x) == CASE x.k = "tab" -> RenderTab(x)
               [] x.k = "col" -> IF x.tab.k = "none" THEN <<Tok(x.name)>> ELSE <<Tok(Ident(x.tab)), Text("."), Tok(x.name)>>
               [] OTHER -> <<>>

(* ------------------------------------------------------------------ actions *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Tabs == {i \in 1..Len(pool) : pool[i].k = "tab"}
Cols == {i \in 1..Len(pool) : pool[i].k = "col"}
Ids(S) == IF S = {} THEN {} ELSE Pick(S)

Step(op, i, args, r) ==
  /\ pool' = IF r.k = "err" THEN pool ELSE Append(pool, r)
  /\ h' = Append(h, [op |-> op, on |-> i, args |-> args, res |-> r, txt |-> Render(r)])

NewTab == \E s \in Pick(Id), n \in Pick(Id), a \in Pick(Id), v \in Pick(BOOLEAN) :
             Step("table", 0, <<s, n, a, v>>, MkTab(s, n, a, v))
NewVirtual == \E n \in Pick(Id), a \in Pick(Id) : Step("create_virtual", 0, <<a, n>>, MkTab(0, n, a, TRUE))
DropAlias == \E i \in Ids(Tabs) : LET t == pool[i] IN
     Step("drop_alias", i, <<>>, IF t.virtual THEN Err ELSE MkTab(t.schema, t.name, 0, FALSE))
WithAlias == \E i \in Ids(Tabs), a \in Pick(Names) : LET t == pool[i] IN
     Step("with_alias", i, <<a>>, IF t.name = 0 THEN Err ELSE MkTab(t.schema, t.name, a, t.virtual))
MakeVirtual == \E i \in Ids(Tabs) : LET t == pool[i] IN Step("make_virtual", i, <<>>, MkTab(t.schema, t.name, t.alias, TRUE))
UpdName == \E i \in Ids(Tabs), n \in Pick(Id) : LET t == pool[i] IN Step("update_name", i, <<n>>, MkTab(t.schema, n, t.alias, t.virtual))
UpdAlias == \E i \in Ids(Tabs), a \in Pick(Id) : LET t == pool[i] IN Step("update_alias", i, <<a>>, MkTab(t.schema, t.name, a, t.virtual))
UpdSchema == \E i \in Ids(Tabs), s \in Pick(Id) : LET t == pool[i] IN Step("update_schema", i, <<s>>, MkTab(s, t.name, t.alias, t.virtual))
UpdVirtual == \E i \in Ids(Tabs), v \in Pick(BOOLEAN) : LET t == pool[i] IN Step("update_virtual", i, <<v>>, MkTab(t.schema, t.name, t.alias, v))
NewCol == \E n \in Pick(Id) : Step("column", 0, <<n>>, MkCol(n, NoTab))
BoundCol == \E n \in Pick(Names), i \in Ids(Tabs) : Step("bound_column", i, <<n>>, MkCol(n, pool[i]))
BindTo == \E c \in Ids(Cols), i \in Ids(Tabs) : Step("bind_to", c, <<i>>, MkCol(pool[c].name, pool[i]))
Unbind == \E c \in Ids(Cols) : Step("as_unbound", c, <<>>, MkCol(pool[c].name, NoTab))
DropTabAlias == \E c \in Ids(Cols) : LET x == pool[c] IN
     Step("drop_table_alias", c, <<>>,
          CASE x.tab.k = "none" -> x [] x.tab.virtual -> Err [] OTHER -> MkCol(x.name, MkTab(x.tab.schema, x.tab.name, 0, FALSE)))
Copies == \E i \in Ids(1..Len(pool)), w \in Pick({"copy", "deepcopy", "pickle"}) : Step(w, i, <<>>, pool[i])

Init == pool = <<>> /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E k \in Pick(1..16) :
           \/ (k = 1 /\ NewTab)
           \/ (k = 2 /\ NewVirtual)
           \/ (k = 3 /\ DropAlias)
           \/ (k = 4 /\ WithAlias)
           \/ (k = 5 /\ MakeVirtual)
           \/ (k = 6 /\ UpdName)
           \/ (k = 7 /\ UpdAlias)
           \/ (k = 8 /\ UpdSchema)
           \/ (k = 9 /\ UpdVirtual)
           \/ (k = 10 /\ NewCol)
           \/ (k = 11 /\ BoundCol)
           \/ (k = 12 /\ BindTo)
           \/ (k = 13 /\ Unbind)
           \/ (k = 14 /\ DropTabAlias)
           \/ (k = 15 /\ Copies)
           \/ (k = 16 /\ NewTab)
           \/ (k \in 3..9 /\ Tabs = {} /\ NewTab)
           \/ (k \in 11..14 /\ (Tabs = {} \/ Cols = {}) /\ NewCol)
           \/ (k = 15 /\ pool = <<>> /\ NewVirtual)
Spec == Init /\ [][Next]_vars

Pairs == {p \in (1..Len(pool)) \X (1..Len(pool)) : pool[p[1]].k = pool[p[2]].k}
Obs == [eq |-> {p \in Pairs : Eq(pool[p[1]], pool[p[2]])}, lt |-> {p \in Pairs : Lt(pool[p[1]], pool[p[2]])}]
Emit == Len(h) = MaxLen => PrintT("@@" \o ToJson([h |-> h, obs |-> Obs]))
----------------------------------------------------------------------------
EqEquivalence == \A i, j, k \in 1..Len(pool) :
    /\ Eq(pool[i], pool[i]) /\ (Eq(pool[i], pool[j]) = Eq(pool[j], pool[i]))
    /\ (Eq(pool[i], pool[j]) /\ Eq(pool[j], pool[k]) => Eq(pool[i], pool[k]))
LtStrict == \A i, j \in 1..Len(pool) : pool[i].k = pool[j].k =>
    /\ ~Lt(pool[i], pool[i]) /\ ~(Lt(pool[i], pool[j]) /\ Lt(pool[j], pool[i]))
    /\ (Eq(pool[i], pool[j]) => ~Lt(pool[i], pool[j]))
WellFormed == \A i \in 1..Len(pool) : pool[i].k = "tab" =>
    (pool[i].name # 0 \/ pool[i].alias # 0) /\ (pool[i].schema # 0 => pool[i].name # 0)
Immutable == [][\A i \in 1..Len(pool) : pool'[i] = pool[i]]_vars
==========================================================================
