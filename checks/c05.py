import itertools
from postbound import TableReference, ColumnReference
from postbound.qal import (SimpleFilter, SimpleJoin, BinaryPredicate, determine_join_equivalence_classes, Select, BaseProjection, From, ImplicitFromClause, ExplicitFromClause, Where, GroupBy, Having, OrderBy,
                           OrderByExpression, DirectTableSource, SubqueryTableSource, ValuesTableSource, FunctionTableSource, JoinTableSource,
                           CommonTableExpression, WithQuery, SetQuery, SetOperator, FunctionExpression, StaticValueExpression, LogicalOperator,
                           ImplicitSqlQuery, ExplicitSqlQuery, build_query)
from vk import tlc
from vk.ast import Env, flat, JOIN, CMP
from vk.core import expect, require

OPN = {**{v: k for k, v in CMP.items()}, LogicalOperator.Between: "BETWEEN", LogicalOperator.In: "IN", LogicalOperator.Is: "IS"}


def env_for(q):
    tabs = {"u": TableReference("u"), "v": TableReference("u", "v")}
    for t in q["tabs"]:
        n = t["n"]
        tabs[n] = TableReference("r" if n in "ab" else "s", n) if t["k"] == "base" else TableReference.create_virtual(n)
    return Env(tabs)


def inner(E, t):
    n, k = t["n"], t["k"]
    n1, n2 = n + "_1", n + "_2"
    sel = lambda x: Select([BaseProjection(E.col(x, "x"))])
    src = lambda *x: ImplicitFromClause([DirectTableSource(E.tab(y)) for y in x])
    if k in ("sub", "cte"): return build_query([sel(n1), src(n1), Where(E.pred(["cmp", "=", ["col", n1, "z"], ["num", 1]]))])
    if k == "sub2": return build_query([sel(n1), src(n1, n2), Where(E.pred(["and", [["cmp", "=", ["col", n1, "x"], ["col", n2, "x"]], ["cmp", "<", ["col", n1, "z"], ["num", 4]]]]))])
    return SetQuery(build_query([sel(n1), src(n1)]), build_query([sel(n2), src(n2)]), set_operation=SetOperator.Union)


def source(E, t):
    n, k = t["n"], t["k"]
    if k in ("base", "cte"): return DirectTableSource(E.tab(n))
    if k == "val": return ValuesTableSource([(StaticValueExpression(1), StaticValueExpression(2))], alias=n, columns=["x", "y"])
    if k == "fn": return FunctionTableSource(FunctionExpression("generate_series", [StaticValueExpression(1), StaticValueExpression(3)]), alias=n)
    return SubqueryTableSource(inner(E, t), n)


def build(E, q):
    items, explicit = [], False
    for t in q["tabs"]:
        s = source(E, t)
        if t["j"] == "comma": items.append(s)
        else:
            items[-1] = JoinTableSource(items[-1], s, join_condition=E.pred(t["on"]) if t["on"] else None, join_type=JOIN[t["j"]])
    cl = []
    ctes = [t for t in q["tabs"] if t["k"] == "cte"]
    if ctes: cl.append(CommonTableExpression([WithQuery(inner(E, t), t["n"]) for t in ctes]))
    cl.append(Select([BaseProjection(E.expr(e)) for e in q["sel"]] or [BaseProjection(StaticValueExpression(1))]))
    if items:
        if all(isinstance(i, DirectTableSource) for i in items): cl.append(ImplicitFromClause(items))
        elif len(items) == 1 and isinstance(items[0], JoinTableSource): cl.append(ExplicitFromClause(items))
        else: cl.append(From(items))
    if q["where"]: cl.append(Where(E.pred(q["where"][0] if len(q["where"]) == 1 else ["and", q["where"]])))
    if q["grp"]: cl.append(GroupBy([E.expr(e) for e in q["grp"]]))
    if q["hav"]: cl.append(Having(E.pred(q["hav"])))
    if q["ord"]: cl.append(OrderBy([OrderByExpression(E.expr(e)) for e in q["ord"]]))
    return build_query(cl)


def names(ts):
    return sorted(t.identifier() for t in ts)


def col(c):
    return (c.table.identifier() if c.table else None, c.name)


def cols(cs):
    return sorted(col(c) for c in cs)


def ps(E, l):
    return frozenset(x for p in l for x in flat(E.pred(p)))


def px(E, l):
    return frozenset(E.pred(p) for p in l)


def check(q, o, query=None):
    E = env_for(q)
    S = query or build(E, q)
    spred = lambda l: sorted(map(str, l))
    same = lambda clause, want, got: expect(clause, spred(want), spred(got)) if set(want) != set(got) else None
    expect("tables", sorted(o["tables"]), names(S.tables()))
    for t in S.tables(): require("virtual tables", t == E.tab(t.identifier()), t)
    expect("columns", sorted(map(tuple, o["columns"])), cols(S.columns()))
    expect("columns in reading order", sorted(map(tuple, o["iter"])), sorted(col(c) for c in S.itercolumns()))
    for t in o["ff"]:
        expect("columns of table", sorted(tuple(c) for c in o["columns"] if c[0] == t), cols(S.columns_of(E.tab(t))))
    P = S.predicates()
    expect("empty predicates", o["empty"], P.is_empty())
    same("filters", px(E, o["filters"]), P.filters()); same("joins", px(E, o["joins"]), P.joins())
    same("filters of query", px(E, o["filters"]), S.filters()); same("joins of query", px(E, o["joins"]), S.joins())
    same("all predicates", px(E, o["filters"] + o["joins"]), list(P))
    for p in P.filters(): require("filters do not join", p.is_filter() and not p.is_join() and not p.joins_table(E.tab("a")), p)
    G = P.join_graph()
    expect("join graph nodes", sorted(o["nodes"]), names(G.nodes))
    for t, l in dict(o["ff"]).items():
        same("filters for table", ps(E, l), flat(P.filters_for(E.tab(t)))); same("filters for table", ps(E, l), flat(S.filters_for(E.tab(t))))
        if t in o["nodes"]: same("filters in join graph", ps(E, l), flat(G.nodes[E.tab(t)]["predicate"]))
    for t, gs in dict(o["jf"]).items():
        want = sorted(sorted(map(str, ps(E, g["preds"]))) for g in gs)
        for got in (P.joins_for(E.tab(t)), S.joins_for(E.tab(t))):
            expect("joins for table", want, sorted(sorted(map(str, flat(g))) for g in got))
    for b in o["between"]:
        A, B = [E.tab(t) for t in b["a"]], [E.tab(t) for t in b["b"]]
        want = ps(E, b["preds"])
        same("joins between", want, flat(P.joins_between(A, B)))
        same("joins between", want, flat(S.joins_between(set(A), frozenset(B))))
        if len(A) == len(B) == 1:
            same("joins between", want, flat(P.joins_between(A[0], B[0])))
        if not want: expect("no joins between", None, P.joins_between(A, B))
    for c in o["connects"]:
        ts = [E.tab(t) for t in c["s"]]
        if o["empty"]: continue
        expect("tables are joined with each other", c["r"], P.joins_tables(ts)); expect("tables are joined with each other", c["r"], S.joins_tables(ts[0], *ts[1:]))
    want = sorted((sorted(e["e"]), sorted(map(str, ps(E, e["preds"])))) for e in o["edges"])
    expect("join graph edges", want, sorted((names(e[:2]), sorted(map(str, flat(e[2]["predicate"])))) for e in G.edges(data=True)))
    for p, pairs in zip(o["joins"], o["pairs"]):
        x = E.pred(p)
        want = {frozenset(map(tuple, z)) for z in pairs}
        expect("join partners", want, {frozenset((col(a), col(b))) for a, b in x.join_partners()})
        for t in {c[0] for z in want for c in z}:
            expect("join partners of table", sorted({c for z in want if t in {y[0] for y in z} for c in z if c[0] != t}), cols(x.join_partners_of(E.tab(t))))
            require("joins table", x.joins_table(E.tab(t)))
        require("joins join", x.is_join() and not x.is_filter())
    M = S.join_graph(merge_aliases=True)
    expect("tables of merged join graph", sorted((n["n"], sorted(n["aliases"])) for n in o["merged"]["nodes"]),
           sorted((t.full_name or t.identifier(), names(d["aliases"])) for t, d in M.nodes(data=True)))
    for t, d in M.nodes(data=True):
        for a, p in d["predicate"].items():
            if a.identifier() in o["ff"]: same("filters in merged join graph", ps(E, o["ff"][a.identifier()]), flat(p))
        expect("filtered aliases in merged join graph", names(d["aliases"]), names(d["predicate"]))
    want = sorted((sorted(e["b"]) * (2 if len(e["b"]) == 1 else 1), sorted((sorted(map(tuple, x["cols"])), sorted(map(str, ps(E, x["preds"])))) for x in e["on"])) for e in o["merged"]["edges"])
    expect("edges of merged join graph", want, sorted((sorted(t.full_name or t.identifier() for t in (a, b)), sorted((cols(k), sorted(map(str, flat(p)))) for k, p in d["predicate"].items()))
                                                       for a, b, d in M.edges(data=True)))
    expect("cross product", o["cross"], S.contains_cross_product())
    expect("bound tables", sorted(o["bound"]), names(S.bound_tables())); expect("unbound tables", sorted(o["unbound"]), names(S.unbound_tables()))
    expect("dependent", bool(o["unbound"]), S.is_dependent())
    expect("subqueries", sorted(sorted(s) for s in o["subs"]), sorted({tuple(names(s.tables())) for s in S.subqueries()}) and sorted(map(list, {tuple(names(s.tables())) for s in S.subqueries()})))
    expect("implicit", o["implicit"], S.is_implicit())
    expect("scalar", o["scalar"], S.is_scalar())
    views = []
    for p, v in zip(o["filters"], o["views"]):
        x = E.pred(p)
        expect("simple filter", bool(v), SimpleFilter.can_wrap(x))
        if v:
            w = SimpleFilter.wrap(x); views.append(w)
            val = list(w.value) if isinstance(w.value, (tuple, list)) else [] if w.value is None else [w.value]
            expect("simple filter view", [tuple(v[0][1:]), v[1], v[2]], [col(w.column), OPN[w.operation], val])
            expect("simple filter view", x, w.unwrap())
        else:
            try: SimpleFilter.wrap(x)
            except ValueError: pass
            else: require("only simple filters have a view", False, x)
    for p, v in zip(o["joins"], o["jviews"]):
        x = E.pred(p)
        expect("simple join", bool(v), SimpleJoin.can_wrap(x))
        if v:
            w = SimpleJoin.wrap(x); views.append(w)
            expect("simple join view", [tuple(c[1:]) for c in v], [col(w.lhs), col(w.rhs)])
            expect("simple join view", x, w.unwrap())
            require("simple join view", all(w.joins(E.tab(c[1])) and w.joins(E.cref(*c[1:])) for c in v))
    expect("simple predicates", sorted(set(map(str, views))), sorted(map(str, P.simplify())))
    expect("all simple", all(o["views"]) and all(o["jviews"]), P.all_simple())
    eq = [p for p in P.joins() if isinstance(p, BinaryPredicate) and p.operation == LogicalOperator.Equal]
    expect("equivalent columns", sorted(sorted(map(tuple, c)) for c in o["classes"]), sorted(cols(c) for c in determine_join_equivalence_classes(eq)))
    return S


def replay(ck):
    def go(c):
        E, last = None, None
        for s in c["h"]:
            ck.steps += 1
            for t in s["q"]["tabs"]: ck.act("from " + t["k"]); ck.act(t["j"])
            for p in s["q"]["where"][-1:]: ck.act("where " + p[0])
            S = check(s["q"], s["obs"])
            last = S, s
        S, s = last
        check(s["q"], s["obs"], S)        # repeated questions get the same answers
        if s["q"]["tabs"] and not s["obs"]["unbound"]:
            T = TableReference("zz"); other = build_query([Select.star(), ImplicitFromClause([DirectTableSource(T)])])
            for l, r in ((S, other), (other, S)):
                U = SetQuery(l, r, set_operation=SetOperator.UnionAll)
                expect("tables of set query", sorted(s["obs"]["tables"] + ["zz"]), names(U.tables()))
                expect("bound tables of set query", sorted(s["obs"]["bound"] + ["zz"]), names(U.bound_tables()))
                expect("columns of set query", sorted(map(tuple, s["obs"]["columns"])), cols(U.columns()))
    return go


KINDS, JOINS = {"base", "sub", "sub2", "cte", "set", "val", "fn"}, {"comma", "inner", "left", "cross", "natural"}


def run(ck):
    q = ck.quick
    base = dict(Names={"x"}, Inner={"u", "v"}, MaxSteps=2, Depth=1, Sim=False)
    inv = ["Partition", "JoinsJoin", "Emit"]
    jobs = [
        dict(label="every predicate of the pool over two tables", constants={**base, "Kinds": {"base"}, "Joins": {"comma"}, "MinTabs": 2, "MaxTabs": 2}, invariants=inv),
        dict(label="every combination of sources", constants={**base, "Kinds": {"base", "sub2", "cte", "val", "set", "fn", "sub"} if not q else {"base", "sub", "cte"}, "Joins": JOINS if not q else {"comma", "left", "natural", "cross"}, "MinTabs": 0, "MaxTabs": 3 if q else 3, "MaxSteps": 1}, invariants=inv),
        dict(label="random queries", constants={**base, "Kinds": KINDS, "Joins": JOINS, "MinTabs": 0, "MaxTabs": 4, "MaxSteps": 8, "Depth": 2, "Sim": True}, invariants=["Emit"], sim=500 if q else 8000, depth=14, seed=ck.seed),
        dict(label="random queries over plain tables", constants={**base, "Kinds": {"base"}, "Joins": {"comma"}, "MinTabs": 2, "MaxTabs": 4, "MaxSteps": 8, "Depth": 2, "Sim": True}, invariants=["Emit"], sim=500 if q else 8000, depth=14, seed=ck.seed + 1),
    ]
    for r in tlc.run_many([("C05", j) for j in jobs], 4):
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: cl + " | " + str(c["h"][-1]["q"])[:300], kind=r.label)
