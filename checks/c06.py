import json
import quacklab
from postbound import TableReference, ColumnReference, transform
from postbound.qal import (AbstractPredicate, ArrayAccessExpression, ArrayExpression, BaseProjection, BetweenPredicate, BinaryPredicate, CaseExpression, CastExpression, ColumnExpression,
                           CommonTableExpression, CompoundOperator, CompoundPredicate, DirectTableSource, Explain, ExplicitFromClause, From, FunctionExpression, FunctionTableSource, GroupBy, Having, Hint,
                           ImplicitFromClause, InPredicate, JoinTableSource, Limit, LogicalOperator, MathExpression, OrderBy, OrderByExpression, QuantifierExpression, QuantifierOperator, Select,
                           SetOperator, SetQuery, StarExpression, StaticValueExpression, SubqueryExpression, SubqueryTableSource, UnaryPredicate, ValuesTableSource, ValuesWithQuery, Where, WindowExpression,
                           WithQuery, build_query)
from vk import tlc
from vk.ast import CMP, JOIN, MATH
from vk.core import Mismatch, expect, require
from checks import c03

SET = {"UNION": SetOperator.Union, "UNION ALL": SetOperator.UnionAll, "EXCEPT": SetOperator.Except, "INTERSECT": SetOperator.Intersect}
inv = lambda d: {v: k for k, v in d.items()}
NCMP, NJOIN, NMATH, NSET = inv(CMP), inv(JOIN), inv(MATH), inv(SET)
BASE = {"a": "r", "b": "r", "c": "s", "d": "s", "u": "u", "v": "v", "m": "mm"}
VIRTUAL = {"w", "k"}


# ------------------------------------------------------- syntax trees -> query objects
class Build:
    """virtual: names of tables that are no physical tables"""
    def __init__(self, virtual=()): self.virtual = set(virtual) | VIRTUAL

    def tab(self, n):
        if n in self.virtual: return TableReference.create_virtual(n)
        return TableReference(BASE[n], n if BASE[n] != n else "") if n in BASE else TableReference(n)

    def cref(self, t, c): return ColumnReference(c, self.tab(t) if t else None)

    def x(self, x):
        k, e = x[0], self.x
        if k == "col": return ColumnExpression(self.cref(x[1], x[2]))
        if k == "num": return StaticValueExpression(x[1])
        if k == "star": return StarExpression()
        if k == "tstar": return StarExpression(from_table=self.tab(x[1]))
        if k == "cnt": return FunctionExpression("count", [StarExpression()])
        if k == "bin": return MathExpression(MATH[x[1]], e(x[2]), e(x[3]))
        if k == "sum": return MathExpression(MATH["+"], e(x[1][0]), [e(y) for y in x[1][1:]])
        if k == "cast": return CastExpression(e(x[1]), "integer")
        if k in ("fn", "series"): return FunctionExpression("coalesce" if k == "fn" else "generate_series", [e(y) for y in x[1]])
        if k == "case": return CaseExpression([(e(x[1]), e(x[2]))], else_expr=e(x[3]) if x[3] else None)
        if k == "scase": return CaseExpression([(e(x[2]), e(x[3]))], simple_expr=e(x[1]))
        if k == "agg": return FunctionExpression("max", [e(x[1])], filter_where=e(x[2]) if x[2] else None)
        if k == "aggd": return FunctionExpression("count", [e(x[1])], distinct=True)
        if k == "win": return WindowExpression(FunctionExpression("max", [e(x[1])]), partitioning=[e(x[2])], ordering=OrderBy([OrderByExpression(e(x[3]))]), filter_condition=e(x[4]) if x[4] else None)
        if k == "arr": return ArrayExpression([e(y) for y in x[1]])
        if k == "idx": return ArrayAccessExpression(e(x[1]), idx=e(x[2]))
        if k == "slice": return ArrayAccessExpression(e(x[1]), lower_idx=e(x[2]), upper_idx=e(x[3]) if x[3] else None)
        if k == "any": return QuantifierExpression(e(x[1]), quantifier=QuantifierOperator.Any)
        if k == "q": return SubqueryExpression(self.query(x[1]))
        if k == "cmp": return BinaryPredicate(CMP[x[1]], e(x[2]), e(x[3]))
        if k == "btw": return BetweenPredicate(e(x[1]), (e(x[2]), e(x[3])))
        if k == "in": return InPredicate(e(x[1]), [e(y) for y in x[2]])
        if k == "ex": return UnaryPredicate(e(x[1]), LogicalOperator.Exists)
        if k == "null": return BinaryPredicate(LogicalOperator.Is, e(x[1]), StaticValueExpression(None))
        if k == "not": return CompoundPredicate(CompoundOperator.Not, e(x[1]))
        if k in ("and", "or"): return CompoundPredicate(CompoundOperator.And if k == "and" else CompoundOperator.Or, [e(y) for y in x[1]])
        raise AssertionError(x)

    def rows(self, rows): return tuple(tuple(self.x(v) for v in r) for r in rows)

    def source(self, s):
        k = s[0]
        if k == "tab": return DirectTableSource(self.tab(s[1]))
        if k == "sub": return SubqueryTableSource(self.query(s[2]), s[1], lateral=s[3])
        if k == "val": return ValuesTableSource(self.rows(s[3]), alias=s[1], columns=s[2])
        if k == "fn": return FunctionTableSource(self.x(s[2]), alias=s[1])
        return JoinTableSource(self.source(s[2]), self.source(s[3]), join_condition=self.x(s[4]) if s[4] else None, join_type=JOIN[s[1]])

    def clause(self, c, q):
        if c == "hint" and q["hint"]: return Hint(*q["hint"])
        if c == "explain" and q["expl"]: return Explain.plan() if q["expl"] == "plan" else Explain.explain_analyze()
        if c == "cte" and q["cte"]:
            mat = {"": None, "yes": True, "no": False}
            return CommonTableExpression([ValuesWithQuery(self.rows(w["rows"]), target_name=w["n"], columns=w["cols"]) if w["cols"] else WithQuery(self.query(w["q"][0]), w["n"], materialized=mat[w["mat"]]) for w in q["cte"]])
        if c == "select" and q["sel"]:
            return Select([BaseProjection(self.x(p["e"]), p["as"]) for p in q["sel"]], distinct=True if q["dist"] == [["all"]] else [self.x(e) for e in q["dist"]] if q["dist"] else False)
        if c == "from" and q["from"]:
            items = [self.source(s) for s in q["from"]]
            if all(s[0] == "tab" for s in q["from"]): return ImplicitFromClause(items)
            return ExplicitFromClause(items) if len(items) == 1 and q["from"][0][0] == "join" else From(items)
        if c == "where" and q["where"]: return Where(self.x(q["where"]))
        if c == "group" and q["grp"]: return GroupBy([self.x(e) for e in q["grp"]])
        if c == "having" and q["hav"]: return Having(self.x(q["hav"]))
        if c == "order" and q["ord"]: return OrderBy([OrderByExpression(self.x(o["e"]), {"": None, "asc": True, "desc": False}[o["d"]], {"": None, "first": True, "last": False}[o["n"]]) for o in q["ord"]])
        if c == "limit" and q["lim"]: return Limit(limit=q["lim"][0] if q["lim"][0] >= 0 else None, offset=q["lim"][1] if q["lim"][1] >= 0 else None)
        return None

    def query(self, q):
        if q["kind"] == "set":
            return SetQuery(*[self.query(p) for p in q["parts"]], set_operation=SET[q["op"]], cte_clause=self.clause("cte", q), orderby_clause=self.clause("order", q), limit_clause=self.clause("limit", q),
                            hints=self.clause("hint", q), explain_clause=self.clause("explain", q))
        return build_query([c for c in (self.clause(n, q) for n in CLAUSES) if c])


CLAUSES = {"hint": Hint, "explain": Explain, "cte": CommonTableExpression, "select": Select, "from": From, "where": Where, "group": GroupBy, "having": Having, "order": OrderBy, "limit": Limit}


# ------------------------------------------------------- query objects -> syntax trees
def tname(t): return t.identifier() if t else ""


def ax(e):
    """syntax tree of an expression or predicate; None -> []"""
    if e is None: return []
    t = type(e)
    if t is ColumnExpression: return ["col", tname(e.column.table), e.column.name]
    if t is StaticValueExpression: return ["num", e.value]
    if t is StarExpression: return ["tstar", tname(e.from_table)] if e.from_table else ["star"]
    if t is MathExpression:
        if isinstance(e.second_arg, (list, tuple)): return ["sum", [ax(e.first_arg)] + [ax(y) for y in e.second_arg]]
        return ["bin", NMATH[e.operator], ax(e.first_arg), ax(e.second_arg)]
    if t is CastExpression: return ["cast", ax(e.casted_expression)]
    if t is CaseExpression:
        (c, v), = e.cases
        return ["scase", ax(e.simple_expression), ax(c), ax(v)] if e.simple_expression else ["case", ax(c), ax(v), ax(e.else_expression)]
    if t is FunctionExpression:
        a = [ax(y) for y in e.arguments]
        f = e.function.lower()
        if f == "count" and a == [["star"]]: return ["cnt"]
        if f == "count": return ["aggd" if e.distinct else "count", a[0]]
        if f == "max": return ["agg", a[0], ax(e.filter_where)]
        return [{"coalesce": "fn", "generate_series": "series"}[f], a]
    if t is WindowExpression: return ["win", ax(e.window_function)[1], ax(e.partitioning[0]), ax(e.ordering.expressions[0].column), ax(e.filter_condition)]
    if t is ArrayExpression: return ["arr", [ax(y) for y in e.elements]]
    if t is ArrayAccessExpression: return ["idx", ax(e.array), ax(e.index)] if e.index else ["slice", ax(e.array), ax(e.lower_index), ax(e.upper_index)]
    if t is QuantifierExpression: return ["any" if e.quantifier == QuantifierOperator.Any else "all", ax(e.expression)]
    if t is SubqueryExpression: return ["q", aq(e.query)]
    if t is BinaryPredicate: return ["null", ax(e.first_argument)] if e.operation == LogicalOperator.Is else ["cmp", NCMP[e.operation], ax(e.first_argument), ax(e.second_argument)]
    if t is BetweenPredicate: return ["btw", ax(e.column), ax(e.interval_start), ax(e.interval_end)]
    if t is InPredicate: return ["in", ax(e.column), [ax(v) for v in e.values]]
    if t is UnaryPredicate: return ["ex", ax(e.column)]
    if t is CompoundPredicate:
        if e.operation == CompoundOperator.Not: return ["not", ax(e.children)]
        return [{CompoundOperator.And: "and", CompoundOperator.Or: "or"}[e.operation], [ax(c) for c in e.children]]
    raise Mismatch("known kind of expression", "an expression", f"{t}: {e}")


def rows(rs): return [[ax(v) for v in r] for r in rs]


def src(s):
    t = type(s)
    if t is DirectTableSource: return ["tab", tname(s.table)]
    if t is SubqueryTableSource: return ["sub", s.target_name, aq(s.query), bool(s.lateral)]
    if t is ValuesTableSource: return ["val", tname(s.table), [c.name for c in s.cols], rows(s.rows)]
    if t is FunctionTableSource: return ["fn", tname(s.target_table), ax(s.function)]
    if t is JoinTableSource: return ["join", NJOIN[s.join_type], src(s.left), src(s.right), ax(s.join_condition)]
    raise Mismatch("known kind of table source", "a table source", f"{t}: {s}")


def aq(q):
    out = dict(kind="sel", op="", parts=[], hint=[], expl="", cte=[], dist=[], sel=[], where=[], grp=[], hav=[], ord=[], lim=[])
    out["from"] = []
    h = q.hints
    if h and (h.preparatory_statements or h.query_hints): out["hint"] = [h.preparatory_statements, h.query_hints]
    if q.explain: out["expl"] = "analyze" if q.explain.analyze else "plan"
    if q.cte_clause:
        for w in q.cte_clause.queries:
            v = isinstance(w, ValuesWithQuery)
            out["cte"].append(dict(n=tname(w.target_table), q=[] if v else [aq(w.query)], cols=[c.name for c in w.cols] if v else [], rows=rows(w.rows) if v else [], mat={None: "", True: "yes", False: "no"}[w.materialized]))
    if q.orderby_clause: out["ord"] = [dict(e=ax(o.column), d={None: "", True: "asc", False: "desc"}[o.ascending], n={None: "", True: "first", False: "last"}[o.nulls_first]) for o in q.orderby_clause.expressions]
    if q.limit_clause:
        out["lim"] = [-1 if v is None else v for v in (q.limit_clause.limit, q.limit_clause.offset)]
    if isinstance(q, SetQuery): return {**out, "kind": "set", "op": NSET[q.set_operation], "parts": [aq(q.left_query), aq(q.right_query)]}
    d = q.select_clause.distinct_specifier()
    out["dist"] = [["all"]] if d is True else [ax(e) for e in d] if d else []
    out["sel"] = [{"e": ax(p.expression), "as": p.target_name or ""} for p in q.select_clause.targets]
    if q.from_clause: out["from"] = [src(s) for s in q.from_clause.items]
    if q.where_clause: out["where"] = ax(q.where_clause.predicate)
    if q.groupby_clause: out["grp"] = [ax(e) for e in q.groupby_clause.group_columns]
    if q.having_clause: out["hav"] = ax(q.having_clause.condition)
    return out


def names(q):
    """all table references of a query object, wherever they occur"""
    return set(q.tables()) | {c.table for c in q.columns() if c.table}


# --------------------------------------------------- comparison up to irrelevant order
def canon(v, moved):
    if isinstance(v, dict):
        v = {k: canon(x, moved) for k, x in v.items()}
        return v
    if isinstance(v, list):
        v = [canon(x, moved) for x in v]
        if len(v) == 2 and v[0] in ("and", "or"): v = [v[0], sorted(v[1], key=json.dumps)]
        if moved and len(v) == 4 and v[0] == "sub" and v[1] == "s":
            v[2]["sel"].sort(key=json.dumps); v[2]["from"].sort(); v[2]["where"] = sorted({json.dumps(c) for c in conjuncts(v[2]["where"])})
    return v


def conjuncts(p): return [y for x in p[1] for y in conjuncts(x)] if p and p[0] == "and" else [p] if p else []


def orient(p):
    return ["cmp", "=", *sorted(p[2:])] if p[:2] == ["cmp", "="] and p[2][0] == p[3][0] == "col" else p


def same(op, want, got, moved):
    if op in ("to_implicit", "flatten", "close_ec", "into_subquery"):
        for q in (want, got):
            q["where"] = sorted(map(orient, conjuncts(q["where"])) if op == "close_ec" else conjuncts(q["where"]), key=json.dumps)
            q["where"] = [x for i, x in enumerate(q["where"]) if i == 0 or q["where"][i - 1] != x]
    if op == "expand" or moved:
        for q in (want, got): q["from"] = sorted(q["from"], key=json.dumps)
    want, got = canon(want, moved), canon(got, moved)
    if want != got:
        d = [k for k in want if want[k] != got.get(k)]
        raise Mismatch(f"{op}: {', '.join(d)}", {k: want[k] for k in d}, {k: got.get(k) for k in d})


# ----------------------------------------------------------------------- the rewrites
def apply(B, q, step, cur):
    op, a, T = step["op"], step["a"], transform
    if op == "star": return T.as_star_query(q)
    if op == "count_star": return T.as_count_star_query(q)
    if op == "drop_hints": return T.drop_hints(q, preparatory_statements_only=True) if a[0] else T.drop_hints(q)
    if op == "explain": return T.as_explain_analyze(q) if a[0] == "analyze" else T.as_explain(q)
    if op == "drop":
        inst = {"hint": q.hints, "explain": q.explain, "cte": q.cte_clause, "order": q.orderby_clause, "limit": q.limit_clause}
        if cur["kind"] == "sel": inst.update({"from": q.from_clause, "where": q.where_clause, "group": q.groupby_clause, "having": q.having_clause})
        what = [inst[c] if a[1] else CLAUSES[c] for c in a[0]]
        return T.drop_clause(q, what[0] if len(what) == 1 else what)
    if op in ("add", "replace"):
        what = [Build(virtual_of(a[1])).clause(c, a[1]) for c in a[0]]
        return (T.add_clause if op == "add" else T.replace_clause)(q, what[0] if len(what) == 1 else what)
    if op == "remove_predicate":
        p = T.remove_predicate(q.where_clause.predicate, B.x(a[0]))
        return T.add_clause(q, Where(p)) if p else T.drop_clause(q, Where)
    if op == "flatten": return T.replace_clause(q, Where(T.flatten_and_predicate(q.where_clause.predicate)))
    if op == "replace_predicate": return T.replace_predicate(q, B.x(a[0]), B.x(a[1]))
    if op == "rename_columns": return T.rename_columns_in_query(q, {B.cref(*f): B.cref(*t) for f, t in a[0]})
    if op == "rename_table":
        B.virtual |= {t for f, t in a[0] if f in B.virtual}
        m = {B.tab(f): B.tab(t) for f, t in a[0]}
        if a[2]: (f, t), = m.items(); return T.rename_table(q, f, t, prefix_column_names=a[1])
        return T.rename_table(q, m, prefix_column_names=a[1])
    if op == "merge_tables": return T.merge_tables(q, [B.tab(t) for t in a[0]], target=B.tab(a[1]))
    if op == "replace_expressions":
        x, y = B.x(a[0]), B.x(a[1])
        return T.replace_expressions(q, lambda e: y if e == x else e)
    if op == "fragment":
        t = [B.tab(t) for t in a[0]]
        return T.extract_query_fragment(q, t[0] if len(t) == 1 else t, projection=a[1])
    if op == "to_implicit": return T.explicit_to_implicit(q)
    if op == "close_ec": return T.add_ec_predicates(q)
    if op == "into_subquery": return T.move_into_subquery(q, [B.tab(t) for t in a[0]], a[1])
    if op == "expand": return T.expand_to_query(q.where_clause.predicate)
    raise AssertionError(op)


def virtual_of(q):
    out = set()
    def go(v):
        if isinstance(v, dict):
            for w in v.get("cte", ()): out.add(w["n"])
            for x in v.values(): go(x)
        elif isinstance(v, list):
            if v and v[0] in ("sub", "val", "fn") and len(v) > 2 and isinstance(v[1], str): out.add(v[1])
            for x in v: go(x)
    go(q)
    return out


DB = {}
def run_sql(text):
    import os
    if os.getpid() not in DB:
        cur = DB[os.getpid()] = quacklab.connect(":memory:", config={"threads": 1})
        for t in ("r", "s", "u", "v"):
            cur.execute(f"CREATE TABLE {t} (x INTEGER, y INTEGER); INSERT INTO {t} VALUES (1, 1), (1, 2), (2, 1), (3, NULL), (NULL, 2)" if t != "s" else f"CREATE TABLE {t} (x INTEGER, y INTEGER); INSERT INTO {t} VALUES (1, 2), (2, 2), (NULL, 1)")
    try: return sorted(DB[os.getpid()].execute(text).fetchall(), key=repr)
    except (quacklab.InternalException, quacklab.FatalException): DB.pop(os.getpid()); raise


def replay(ck, execute):
    def go(case):
        h = case["h"]
        first = h[0]["q"]
        B = Build(virtual_of(first))
        q = B.query(first)
        expect("query", canon(first, False), canon(aq(q), False))
        moved, flavour = False, None
        for cur, step in zip([s["q"] for s in h], h[1:]):
            op = step["op"]
            ck.steps += 1; ck.act(op)
            before, text = aq(q), str(q)
            if op == "no_fragment":
                expect("fragment over other tables", None, transform.extract_query_fragment(q, [B.tab(t) for t in step["a"][0]])); continue
            if op == "not_implicit":
                try: r = transform.explicit_to_implicit(q)
                except ValueError: continue
                raise Mismatch("outer joins and subqueries have no implicit form", "ValueError", str(r))
            r = apply(B, q, step, cur)
            moved = moved or op == "into_subquery"
            B.virtual |= virtual_of(step["q"])
            for t in names(r): require(f"{op}: table references", t == B.tab(t.identifier()), (repr(t), repr(B.tab(t.identifier()))))
            expect(f"{op}: input stays as it is", (before, text), (aq(q), str(q)))
            same(op, json.loads(json.dumps(step["q"])), aq(r), moved)
            if execute and op != "expand":
                try: rows = run_sql(text)
                except quacklab.Error: rows = None
                if rows is not None:
                    ck.act("executed " + op)
                    try: got = run_sql(str(r))
                    except (quacklab.InternalException, quacklab.FatalException): got = rows
                    except quacklab.Error as e: raise Mismatch(f"{op}: result", text, f"{r}: {e}")
                    if got != rows: raise Mismatch(f"{op}: result", f"{text} -> {rows}", f"{r} -> {got}")
            q = r
    return go


def run(ck):
    s = ck.quick
    inv = ["FlatLaw", "FragLaw", "RenameLaw", "Emit"]
    job = lambda label, mode, steps, d=1, **k: ("C06", dict(label=label, constants=dict(Mode=mode, MaxSteps=steps, Depth=d), invariants=inv, **k))
    sim = lambda label, mode, steps, n, d=1, i=0: job(label, mode, steps, d, sim=n, depth=steps + 3, seed=ck.seed + i, jvm=["-Xss256m"])
    jobs = [job("each rewrite of each combination of clauses", "clauses", 1), job("each predicate rewrite of each small predicate", "predicates", 1),
            sim("random sequences of rewrites", "random", 7, 250 if s else 4000, 2), sim("random renamings of tables", "tables", 6, 250 if s else 3000, 2, 1),
            sim("rewrites that keep the result", "plain", 4, 500 if s else 6000, 1, 2)]
    jobs[2:2] = [] if s else [job("pairs of predicate rewrites", "predicates", 2)]
    for (_, j), r in zip(jobs, tlc.run_many(jobs, 5)):
        ck.replay(ck.add_run(r), replay(ck, j["constants"]["Mode"] == "plain"), sig=lambda c, cl: cl + " | " + str([x["op"] for x in c["h"]])[:200], kind=r.label, limit=25)
