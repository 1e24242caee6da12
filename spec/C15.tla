------------------------------- MODULE C15 -------------------------------
(* Which queries the feature checks accept.  The queries are those of C05,    *)
(* used directly or nested: as derived table, CTE, IN-subquery, operand of a  *)
(* set operation or at two levels.                                            *)
EXTENDS C05

Wraps == <<"plain", "derived", "cte", "where", "left", "right", "outer", "cte where", "derived left">>
RECURSIVE Nested(_), Correlated(_)
\* nested queries in expressions: does an expression contain one / a correlated one
Nested(x) ==
  CASE x = None \/ x[1] \in {"col", "num"} -> FALSE
    [] x[1] = "sub" -> TRUE
    [] x[1] \in {"bin", "cmp"} -> Nested(x[3]) \/ Nested(x[4])
    [] x[1] \in {"sum", "fn", "and", "or"} -> \E i \in DOMAIN x[2] : Nested(x[2][i])
    [] x[1] \in {"cast", "null", "not", "ex"} -> Nested(x[2])
    [] x[1] \in {"case", "win", "btw"} -> Nested(x[2]) \/ Nested(x[3]) \/ Nested(x[4])
    [] x[1] \in {"agg", "insub"} -> Nested(x[2]) \/ Nested(x[3])
    [] x[1] = "in" -> Nested(x[2]) \/ \E i \in DOMAIN x[3] : Nested(x[3][i])
Correlated(x) ==
  CASE x = None \/ x[1] \in {"col", "num"} -> FALSE
    [] x[1] = "sub" -> Tabs(x[3]) \ {x[2]} # {}
    [] x[1] \in {"bin", "cmp"} -> Correlated(x[3]) \/ Correlated(x[4])
    [] x[1] \in {"sum", "fn", "and", "or"} -> \E i \in DOMAIN x[2] : Correlated(x[2][i])
    [] x[1] \in {"cast", "null", "not", "ex"} -> Correlated(x[2])
    [] x[1] \in {"case", "win", "btw"} -> Correlated(x[2]) \/ Correlated(x[3]) \/ Correlated(x[4])
    [] x[1] \in {"agg", "insub"} -> Correlated(x[2]) \/ Correlated(x[3])
    [] x[1] = "in" -> Correlated(x[2]) \/ \E i \in DOMAIN x[3] : Correlated(x[3][i])

RECURSIVE Equi(_, _, _)
Equi(p, conj, nest) ==
  IF p[1] = "and" THEN conj /\ \A i \in DOMAIN p[2] : Equi(p[2][i], conj, nest)
  ELSE p[1] = "cmp" /\ p[2] = "=" /\ Cardinality(Range(Cols(p))) = 2 /\ (nest \/ (p[3][1] = "col" /\ p[4][1] = "col"))

Exprs0(x) == x.sel \o x.grp \o x.ord \o x.where \o Map(LAMBDA t : t.on, x.tabs) \o <<x.hav>>
\* the verdicts for a query on its own
Own(x, o) == LET E == Exprs0(x)  EqAll(c, n) == \A i \in DOMAIN o.joins : Equi(o.joins[i], c, n) IN
  [implicit |-> o.implicit, cross |-> ~o.cross, virtual |-> \A i \in DOMAIN x.tabs : x.tabs[i].k = "base",
   equi |-> EqAll(FALSE, FALSE), equiconj |-> EqAll(TRUE, FALSE), equinest |-> EqAll(FALSE, TRUE), equiany |-> EqAll(TRUE, TRUE),
   inner |-> \A i \in DOMAIN x.tabs : x.tabs[i].j \in {"comma", "inner"},
   subquery |-> o.subs = {} /\ ~\E i \in DOMAIN E : Nested(E[i]),
   dependent |-> ~\E i \in DOMAIN E : Correlated(E[i]),
   setop |-> \A i \in DOMAIN x.tabs : x.tabs[i].k # "set"]
\* FROM (Q) s | WITH s AS (Q) ... FROM s | FROM zz WHERE zz.x IN (Q) | Q UNION (zz) | (zz) UNION Q | zz LEFT JOIN (Q) s
Wrap(w, V) ==
  CASE w = "plain" -> V
    [] w = "derived" -> [V EXCEPT !.implicit = FALSE, !.cross = TRUE, !.virtual = FALSE, !.subquery = FALSE]
    [] w = "cte" -> [V EXCEPT !.implicit = TRUE, !.cross = TRUE, !.virtual = FALSE]
    [] w = "where" -> [V EXCEPT !.implicit = TRUE, !.cross = TRUE, !.equi = TRUE, !.equiconj = TRUE, !.equinest = TRUE, !.equiany = TRUE, !.subquery = FALSE]
    [] w \in {"left", "right"} -> [V EXCEPT !.implicit = FALSE, !.setop = FALSE]
    [] w = "outer" -> [V EXCEPT !.implicit = FALSE, !.cross = TRUE, !.virtual = FALSE, !.subquery = FALSE, !.inner = FALSE]
Verdicts(x, o) == LET V == Own(x, o) IN
  [i \in DOMAIN Wraps |-> LET w == Wraps[i] IN
     [w |-> w, v |-> CASE w = "cte where" -> Wrap("where", Wrap("cte", V)) [] w = "derived left" -> Wrap("left", Wrap("derived", V)) [] OTHER -> Wrap(w, V)]]

EmitChecks == Len(h) = MaxSteps =>
  LET s == h[MaxSteps] IN PrintT("@@" \o ToJson([q |-> s.q, v |-> Verdicts(s.q, s.obs)]))
\* a query that passes the nesting checks passes them wherever it is used, unless the nesting itself is the reason
Monotone == h # <<>> => LET s == h[Len(h)]  V == Verdicts(s.q, s.obs) IN
  \A i \in DOMAIN V : /\ V[i].v.dependent = V[1].v.dependent
                      /\ (V[i].v.setop => V[1].v.setop) /\ (V[i].v.subquery => V[1].v.subquery) /\ (V[i].v.inner => V[1].v.inner)
                      /\ (V[i].v.equi => V[i].v.equiconj /\ V[i].v.equinest) /\ (V[i].v.equiconj \/ V[i].v.equinest => V[i].v.equiany)
==========================================================================
