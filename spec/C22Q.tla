------------------------------- MODULE C22Q -------------------------------
(* Queries that have a relational algebra counterpart (conjunctive joins of   *)
(* tables, derived tables and CTEs, filters of all kinds, (correlated)        *)
(* subqueries, grouping, DISTINCT, ordering, set operations) together with    *)
(* the rows their algebra trees have to compute.  The semantics is C03Q's.    *)
EXTENDS C03Q

Add(a, b) == [k |-> "add", a |-> a, b |-> b]
And(l, r) == [k |-> "and", l |-> l, r |-> r]
Or(l, r) == [k |-> "or", l |-> l, r |-> r]
Neg(l) == [k |-> "not", l |-> l]
Lit(n) == [k |-> "lit", n |-> n]
Btw(a, l, r) == [k |-> "btw", a |-> a, l |-> l, r |-> r]
InL(a, l) == [k |-> "inl", a |-> a, l |-> l]
Scalar(z) == [k |-> "scv", q |-> z]
SubOf(id, name, c) == [Plain EXCEPT !.from = <<Base(id, name)>>, !.x = C(id, "x"), !.single = TRUE, !.where = c]
AggOfSub(id, name, f, c) == [SubOf(id, name, c) EXCEPT !.agg = TRUE, !.x = Agg(f, C(id, "x"), FALSE, None)]

(* ------------------------------------------------ systematic families *)
\* every kind of conjunct over the tables a and b
Pool == {
    CmpL(">", C("a", "x"), 1), CmpL("<=", C("b", "y"), 1), IsNull(C("a", "y")), [k |-> "nnul", a |-> C("b", "x")],
    Cmp2("=", C("a", "x"), C("a", "y")), CmpL("=", Add(C("a", "x"), C("a", "y")), 3),
    Or(CmpL("=", C("a", "x"), 1), CmpL(">", C("a", "y"), 0)), Or(CmpL("=", C("b", "x"), 2), IsNull(C("b", "x"))),
    Neg(Or(CmpL("=", C("a", "x"), 1), CmpL(">", C("a", "y"), 0))),
    Cmp2("=", C("a", "x"), C("b", "x")), Cmp2("<", C("a", "y"), C("b", "y")), Cmp2(">=", C("b", "x"), C("a", "x")),
    Cmp2("<=", Add(C("a", "x"), C("a", "y")), C("b", "x")), Cmp2("=", Add(C("a", "x"), C("b", "y")), C("b", "x")), CmpL(">", Add(C("a", "x"), C("b", "x")), 2),
    Or(Cmp2("=", C("a", "x"), C("b", "x")), Cmp2("=", C("a", "y"), C("b", "y"))), Or(Cmp2("=", C("a", "x"), C("b", "x")), CmpL("=", C("a", "x"), 1)), Neg(Cmp2("=", C("a", "x"), C("b", "x"))),
    Or(CmpL("=", C("a", "x"), 1), CmpL("=", C("b", "x"), 2)),
    [k |-> "in", a |-> C("a", "x"), q |-> SubOf("z", "s", None)], [k |-> "in", a |-> C("b", "x"), q |-> SubOf("z", "u", Cmp2("=", C("z", "y"), C("b", "y")))],
    [k |-> "in", a |-> C("b", "x"), q |-> AggOfSub("z", "u", "max", None)],
    [k |-> "ex", q |-> SubOf("z", "s", Cmp2("=", C("z", "x"), C("a", "x")))], [k |-> "ex", q |-> SubOf("z", "u", CmpL(">", C("z", "x"), 5))], [k |-> "nex", q |-> SubOf("z", "s", Cmp2(">", C("z", "x"), C("a", "x")))],
    [k |-> "sc", op |-> "=", a |-> C("a", "x"), q |-> AggOfSub("z", "s", "max", None)], [k |-> "sc", op |-> "<", a |-> C("b", "y"), q |-> AggOfSub("z", "u", "max", Cmp2("=", C("z", "x"), C("b", "x")))],
    [k |-> "sc", op |-> ">=", a |-> C("a", "x"), q |-> AggOfSub("z", "u", "count", Cmp2("=", C("z", "x"), C("b", "x")))],
    InL(C("a", "x"), <<1, 2>>), InL(Add(C("b", "x"), C("b", "y")), <<3, 0>>), InL(Add(C("a", "x"), C("b", "y")), <<2, 3>>),
    Btw(C("a", "x"), Lit(1), Lit(2)), Btw(C("b", "x"), C("b", "y"), Add(C("b", "y"), C("b", "y"))), Btw(C("a", "x"), C("b", "y"), Lit(2)),
    Btw(C("b", "x"), Scalar(AggOfSub("z", "u", "min", None)), Lit(2)), Btw(C("b", "x"), Lit(0), Scalar(AggOfSub("z", "s", "max", Cmp2("=", C("z", "y"), C("b", "y"))))),
    Cmp2("=", C("a", "x"), Add(Scalar(AggOfSub("z", "s", "max", None)), Lit(0))), Cmp2(">", Add(Scalar(AggOfSub("z", "u", "count", Cmp2("=", C("z", "x"), C("a", "x")))), C("b", "y")), C("a", "x")),
    Cmp2("<", Scalar(AggOfSub("z", "s", "max", None)), Scalar(AggOfSub("z2", "u", "max", Cmp2("=", C("z2", "x"), C("b", "x"))))),
    Or([k |-> "ex", q |-> SubOf("z", "s", Cmp2("=", C("z", "x"), C("a", "x")))], CmpL("=", C("a", "x"), 1)),
    Or([k |-> "ex", q |-> SubOf("z", "s", Cmp2("=", C("z", "x"), C("a", "x")))], [k |-> "in", a |-> C("a", "x"), q |-> SubOf("z2", "u", None)]) }
Shapes1 == [Plain EXCEPT !.from = From1, !.x = C("a", "x"), !.y = C("b", "y")]
Shapes2 == [Plain EXCEPT !.from = From1, !.agg = TRUE, !.grp = <<C("a", "x")>>, !.x = C("a", "x"), !.y = Agg("sum", C("b", "x"), FALSE, None), !.having = [a |-> Agg("count*", C("a", "x"), FALSE, None), op |-> ">", n |-> 1]]
Shapes == {
    Shapes1, Shapes2,
    [Plain EXCEPT !.from = From1, !.x = C("b", "x"), !.y = Add(C("a", "x"), C("b", "y")), !.distinct = TRUE],
    [Plain EXCEPT !.from = From1, !.agg = TRUE, !.grp = <<Add(C("a", "x"), C("b", "y")), C("b", "x")>>, !.x = Add(C("a", "x"), C("b", "y")), !.y = Agg("count", C("b", "x"), TRUE, None), !.having = [a |-> C("b", "x"), op |-> ">", n |-> 0]],
    [Plain EXCEPT !.from = From1, !.x = Scalar(AggOfSub("zz", "s", "count", Cmp2("=", C("zz", "x"), C("a", "x")))), !.y = Add(C("b", "y"), Scalar(AggOfSub("zy", "u", "max", None)))],
    [Plain EXCEPT !.from = From1, !.agg = TRUE, !.x = Agg("count*", C("a", "x"), FALSE, None), !.y = Agg("max", Add(C("a", "x"), C("b", "y")), FALSE, None)] }
Pairs22 == {[z EXCEPT !.where = w] : z \in Shapes, w \in {And(c, d) : c \in Pool, d \in Pool} \cup Pool \cup {None}}
\* shapes of the FROM clause
D(id, z) == [k |-> "d", id |-> id, q |-> z, lat |-> FALSE]
Cte(name, z) == [name |-> name, m |-> "", q |-> z]
CRef(id, name) == [k |-> "c", id |-> id, name |-> name]
Inner == {A1, [SelectAll("i", "s") EXCEPT !.where = CmpL(">", C("i", "x"), 0)], [SelectAll("i", "r") EXCEPT !.distinct = TRUE, !.y = C("i", "x")],
          [Plain EXCEPT !.from = <<Base("i", "r"), Base("j", "s")>>, !.where = EqX("i", "j"), !.x = C("i", "y"), !.y = C("j", "y")],
          [Plain EXCEPT !.from = <<Base("i", "r")>>, !.agg = TRUE, !.grp = <<C("i", "x")>>, !.x = C("i", "x"), !.y = Agg("count*", C("i", "x"), FALSE, None)],
          SetQ("UNION", SelectAll("i", "r"), SelectAll("j", "s")), SetQ("UNION ALL", SelectAll("i", "r"), SelectAll("i", "r")), SetQ("EXCEPT", SelectAll("i", "r"), SelectAll("j", "s")), SetQ("INTERSECT", SelectAll("i", "r"), SelectAll("j", "s"))}
Froms ==
    UNION {{[Plain EXCEPT !.from = <<D("v", z), Base("b", "s")>>, !.where = w, !.x = x, !.y = C("b", "y")] : w \in {None, EqX("v", "b"), And(EqX("v", "b"), CmpL(">", C("v", "y"), 0))}, x \in {C("v", "x"), C("b", "x")}} : z \in Inner}
    \cup UNION {{[Plain EXCEPT !.ctes = <<Cte("w", z)>>, !.from = <<CRef(i, "w"), Base("b", "s")>>, !.where = w, !.x = C(i, "x"), !.y = C("b", "y")] : i \in {"w", "v"}, w \in {None, CmpL(">", C("b", "y"), 0)}} : z \in Inner}
    \cup UNION {{[Plain EXCEPT !.ctes = <<Cte("w", z)>>, !.from = <<CRef("v", "w"), CRef("v2", "w")>>, !.where = w, !.x = C("v", "x"), !.y = C("v2", "y")] : w \in {None, EqX("v", "v2")}} : z \in Inner}
    \cup {[Plain EXCEPT !.ctes = <<Cte("w", z)>>, !.from = <<Base("b", "s")>>, !.x = C("b", "x"), !.y = C("b", "y")] : z \in Inner}
    \cup {[Plain EXCEPT !.ctes = <<Cte("w", z), Cte("w2", [Plain EXCEPT !.from = <<CRef("k", "w")>>, !.x = C("k", "y"), !.y = C("k", "x")])>>, !.from = <<CRef("w2", "w2"), Base("b", "s")>>, !.where = EqX("w2", "b"), !.x = C("w2", "x"), !.y = C("b", "y")] : z \in Inner}
    \cup {[Plain EXCEPT !.from = <<Base("a", "r"), Base("b", "s"), Base("c", "u")>>, !.where = w, !.x = C("a", "x"), !.y = C("c", "y")] :
            w \in {And(EqX("a", "b"), EqX("b", "c")), And(EqX("a", "b"), And(EqX("b", "c"), Cmp2("=", C("c", "y"), C("a", "y")))), And(EqX("a", "c"), CmpL(">", C("b", "y"), 0)), Cmp2("=", Add(C("a", "x"), C("b", "x")), C("c", "x")),
                   And(EqX("a", "b"), Or(EqX("b", "c"), EqX("a", "c"))), And(Cmp2("=", Add(C("a", "x"), C("b", "y")), C("c", "x")), EqX("a", "b")), Or(CmpL("=", C("a", "x"), 1), Or(CmpL("=", C("b", "x"), 2), CmpL("=", C("c", "x"), 1)))}}
    \cup UNION {{SetQ(o, SelectAll("i", "r"), SelectAll("j", "s")), SetQ(o, SelectAll("i", "r"), SelectAll("i", "r")), SetQ(o, [SelectAll("i", "s") EXCEPT !.where = CmpL(">", C("i", "y"), 0)], [SelectAll("i", "s") EXCEPT !.distinct = TRUE]),
                 [SetQ(o, SelectAll("j", "s"), [Plain EXCEPT !.from = <<CRef("w", "w")>>, !.x = C("w", "x"), !.y = C("w", "y")]) EXCEPT !.ctes = <<Cte("w", A1)>>]} : o \in SetOps}
    \cup {SetQ(o1, SetQ(o2, SelectAll("i", "r"), SelectAll("j", "s")), SelectAll("i", "u")) : o1 \in SetOps, o2 \in SetOps}
    \cup {[SelectAll("a", "r") EXCEPT !.order = o, !.x = x, !.distinct = d] : d \in BOOLEAN, x \in {C("a", "x"), Add(C("a", "x"), C("a", "y"))}, o \in {<<Ord("x", d1, "", "expr"), Ord("y", d2, "", "expr")>> : d1 \in Dir, d2 \in Dir} \cup {<<Ord("y", d1, "", "expr"), Ord("x", "", "", "expr")>> : d1 \in Dir}}
    \cup UNION {{Hid([z EXCEPT !.order = SortedBy(Ord("h", d, "", "expr"), <<Ord("x", "", "", "expr"), Ord("y", "DESC", "", "expr")>>)], e) : e \in {C("b", "x"), Add(C("a", "y"), C("b", "x"))}} :
                        d \in Dir, z \in {Shapes1, [Shapes1 EXCEPT !.where = EqX("a", "b")]}}
    \cup UNION {{Hid([z EXCEPT !.order = SortedBy(Ord("h", d, "", "expr"), <<Ord("x", "", "", "expr"), Ord("y", "DESC", "", "expr")>>)], e) :
                        e \in {Agg("max", C("b", "y"), FALSE, None), Agg("count*", C("a", "x"), FALSE, None), Agg("sum", Add(C("a", "y"), C("b", "y")), FALSE, None), C("a", "x")}} :
                        d \in Dir, z \in {Shapes2, [Shapes2 EXCEPT !.having = None], [Shapes2 EXCEPT !.y = C("a", "x"), !.having = None]}}

(* ------------------------------------------------ random queries *)
RECURSIVE G(_, _, _, _, _), GConds(_, _, _, _, _, _)
GE(sc, z) == IF RE(1..3) = 1 THEN Add(RndCol(sc), RndCol(sc)) ELSE RndCol(sc)
\* one conjunct; negations and disjunctions contain no subqueries that may be unknown
RECURSIVE GPlain(_, _)
GPlain(d, sc) == LET k == RE({"cc", "cl", "nul", "nnul", "cl2", "btw", "inl"} \cup (IF d > 0 THEN {"and", "or", "not"} ELSE {})) IN
    CASE k = "cc" -> Cmp2(RndOp(d), GE(sc, d), GE(sc, d))
      [] k \in {"cl", "cl2"} -> CmpL(RndOp(d), GE(sc, d), RE(0..3))
      [] k \in {"nul", "nnul"} -> [k |-> k, a |-> RndCol(sc)]
      [] k = "btw" -> Btw(GE(sc, d), IF RE(1..2) = 1 THEN Lit(RE(0..2)) ELSE RndCol(sc), IF RE(1..2) = 1 THEN Lit(RE(1..3)) ELSE GE(sc, d))
      [] k = "inl" -> InL(GE(sc, d), <<RE(0..2), RE(0..4)>>)
      [] k = "and" -> And(GPlain(d - 1, sc), GPlain(d - 1, sc))
      [] k = "or" -> Or(GPlain(d - 1, sc), GPlain(d - 1, sc))
      [] k = "not" -> Neg(GPlain(d - 1, sc))
GConj(d, own, sc, p, cs) == LET k == RE({"plain", "plain2", "join", "join2", "one"} \cup (IF d > 0 THEN {"in", "ex", "nex", "sc", "orex", "scx", "scb"} ELSE {}))
                            scalar(i) == Scalar(G(d - 1, IF RE(1..2) = 1 THEN sc ELSE <<>>, p \o i, cs, "scalar"))
                            ex(i) == [k |-> "ex", q |-> G(d - 1, sc, p \o i, cs, "single")] IN
    CASE k \in {"plain", "plain2"} -> GPlain(2, own)
      [] k = "one" -> GPlain(1, <<own[RE(1..Len(own))]>>)
      [] k \in {"join", "join2"} -> Cmp2(RE({"=", "=", "<"}), RndCol(own), RndCol(sc))
      [] k = "in" -> [k |-> "in", a |-> RndCol(own), q |-> G(d - 1, IF RE(1..2) = 1 THEN sc ELSE <<>>, p \o "q", cs, "single")]
      [] k = "ex" -> ex("e")
      [] k = "nex" -> [k |-> "nex", q |-> G(d - 1, sc, p \o "q", cs, "single")]
      [] k = "sc" -> [k |-> "sc", op |-> RndOp(d), a |-> RndCol(own), q |-> G(d - 1, IF RE(1..2) = 1 THEN sc ELSE <<>>, p \o "q", cs, "scalar")]
      [] k = "scx" -> Cmp2(RndOp(d), GE(own, d), Add(scalar("a"), RndCol(sc)))
      [] k = "scb" -> Btw(RndCol(own), scalar("l"), scalar("r"))
      [] k = "orex" -> Or(GPlain(1, <<own[RE(1..Len(own))]>>), ex("o"))
GConds(n, d, own, sc, p, cs) == IF n = 1 THEN GConj(d, own, sc, p \o "1", cs) ELSE And(GConj(d, own, sc, p \o ToString(n), cs), GConds(n - 1, d, own, sc, p, cs))
GSrc(d, id, cs) == LET k == RE({"t", "t2", "t3"} \cup (IF cs = <<>> THEN {} ELSE {"c", "c2"}) \cup (IF d > 0 THEN {"d"} ELSE {})) IN
    CASE k \in {"t", "t2", "t3"} -> Base(id, RE(Names \ {"e"}))
      [] k \in {"c", "c2"} -> CRef(id, cs[RE(1..Len(cs))])
      [] k = "d" -> D(id, G(d - 1, <<>>, id \o "d", cs, "any"))
GAgg(sc) == LET f == RE({"count*", "count", "sum", "min", "max"}) IN Agg(f, IF f = "count*" THEN RndCol(sc) ELSE GE(sc, f), f # "count*" /\ RE(1..4) = 1, None)
G(d, outer, p, cs, want) ==
    IF d > 0 /\ want = "any" /\ RE(1..5) = 1 THEN SetQ(RE(SetOps), G(d - 1, <<>>, p \o "L", cs, want), G(d - 1, <<>>, p \o "R", cs, want))
    ELSE
        LET ct == IF d > 0 /\ RE(1..4) = 1 THEN <<Cte(p \o "w", G(d - 1, <<>>, p \o "C", cs, "any"))>> ELSE <<>>
            cs2 == IF ct = <<>> THEN cs ELSE Append(cs, ct[1].name)
            n == RE(IF want = "any" THEN {1, 2, 2, 3} ELSE {1, 1, 2})
            own == [i \in 1..n |-> p \o ToString(i)]
            from == [i \in 1..n |-> GSrc(d, own[i], cs2)]
            all == own \o outer
            mode == IF want = "scalar" THEN "ungrouped" ELSE RE({"plain", "plain2", "grouped", "ungrouped", "distinct"})
            agg == mode \in {"grouped", "ungrouped"}
            g1 == GE(own, d)
            g2 == RndCol(own)
            x == CASE mode = "grouped" -> g1 [] mode = "ungrouped" -> GAgg(own) [] OTHER -> IF d > 0 /\ RE(1..6) = 1 THEN Scalar(G(d - 1, all, p \o "s", cs2, "scalar")) ELSE GE(own, d)
            y == CASE agg -> GAgg(own)
                   [] mode = "plain2" -> [k |-> "case", l |-> GPlain(0, own), a |-> RndCol(own), b |-> Add(RndCol(own), RndCol(own))]
                   [] OTHER -> GE(own, d)
            sorted == want = "any" /\ mode # "ungrouped" /\ RE(1..3) = 1
            z == [k |-> "q", ctes |-> ct, from |-> from, where |-> IF RE(1..5) = 1 THEN None ELSE GConds(RE(1..4), d, own, all, p, cs2), grp |-> IF mode = "grouped" THEN IF RE(1..2) = 1 THEN <<g1>> ELSE <<g1, g2>> ELSE <<>>, agg |-> agg,
         having |-> IF mode = "grouped" /\ RE(1..2) = 1 THEN [a |-> IF RE(1..3) = 1 THEN g1 ELSE GAgg(own), op |-> RndOp(d), n |-> RE(0..2)] ELSE None,
         distinct |-> mode = "distinct", on |-> FALSE, x |-> x, y |-> IF want \in {"single", "scalar"} THEN <<>> ELSE y, single |-> want \in {"single", "scalar"},
         order |-> IF sorted THEN Swap(<<Ord("x", RE(Dir), "", "expr"), Ord("y", RE(Dir), "", "expr")>>) ELSE <<>>, limit |-> -1, offset |-> -1] IN
        IF sorted /\ ~z.distinct /\ RE(1..2) = 1 THEN Hid([z EXCEPT !.order = SortedBy(Ord("h", RE(Dir), "", "expr"), z.order)], IF mode = "grouped" THEN (IF RE(1..4) = 1 THEN g1 ELSE GAgg(own)) ELSE GE(own, d))
        ELSE z

NextG == /\ ~done /\ done' = TRUE
         /\ CASE Shape = "pairs" -> q' \in Pairs22
              [] Shape = "froms" -> q' \in Froms
              [] Shape = "random" -> \E z \in {G(Depth, <<>>, "n", <<>>, "any")} : q' = Within(z, 1200)
SpecG == Init /\ [][NextG \/ Stop]_vars
=============================================================================
