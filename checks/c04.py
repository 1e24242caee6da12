import warnings
from postbound import TableReference, ColumnReference, parse_query
from postbound.qal import (BinaryPredicate, ColumnExpression, CompoundPredicate, DirectTableSource, FunctionTableSource, InPredicate, JoinTableSource, SetQuery, StarExpression, SubqueryExpression,
                           SubqueryTableSource, UnaryPredicate, ValuesTableSource, ValuesWithQuery)
from vk import tlc
from vk.core import Mismatch, expect, require

COLS = {1: {"r": "ab", "s": "bc", "t": "acd", "o.r": "ce"}, 2: {"r": "ac", "s": "bd", "t": "be", "o.r": "ab"}}


class Schema:
    """The catalog: provides the columns of the physical tables."""
    def __init__(self, cols): self.cols = cols

    def columns(self, t):
        t = TableReference(t) if isinstance(t, str) else t
        n = (t.schema + "." if t.schema else "") + t.full_name
        if n not in self.cols: raise ValueError(f"unknown table {t}")
        return [ColumnReference(c, t) for c in self.cols[n]]


SCHEMA = {i: Schema(c) for i, c in COLS.items()}


# ---------------------------------------------------------------- text of a query
def ref(x): return f"{x['q']}.{x['c']}" if x["q"] else x["c"]


def named(sql, e): return f"{sql} AS {e['alias']}" if e["alias"] else sql


def sel(e):
    t = e["t"]
    if t == "ref": return named(ref(e["refs"][0]), e)
    if t == "exp":
        a, b = map(ref, e["refs"])
        return named([f"coalesce({a}, {b})", f"CASE WHEN {a} = 1 THEN {b} ELSE 0 END", f"sum({a}) OVER (PARTITION BY 1 ORDER BY {b})", f"max({a}) FILTER (WHERE {b} > 0)", f"CAST({a} + {b} AS integer)"][(ord(a[-1]) + 3 * ord(b[-1]) + len(a)) % 5], e)
    if t == "star": return "*"
    if t == "qstar": return ref(e["refs"][0])
    if t == "const": return named("1", e)
    return named(f"({sql(e['q'])})", e)


def cond(e):
    if e["t"] == "ref": return ref(e["refs"][0]) + " = 1"
    if e["t"] == "in": return f"{ref(e['refs'][0])} IN ({sql(e['q'])})"
    return f"EXISTS ({sql(e['q'])})"


def tail(e): return ref(e["refs"][0]) if e["t"] == "ref" else f"{ref(e['refs'][0])} + {ref(e['refs'][1])}"


def item(it):
    k, tab = it["k"], it["tab"]
    alias = f" AS {tab[1]}" if tab and tab[1] else ""
    if k == "base": return (tab[2] + "." if tab[2] else "") + tab[0] + alias
    if k == "cte": return it["refs"][0]["c"] + (alias if tab[0] else "")
    if k == "func": return f"generate_series(1, {ref(it['refs'][0])}){alias}"
    if k == "values": return f"(VALUES ({ref(it['refs'][0])}, 2), (3, 4)){alias}" + ("(a)" if it["cols"][0] == "a" else "")
    return ("LATERAL " if k == "lateral" else "") + f"({sql(it['q'])}){alias}"


def sql(q):
    out = []
    if q["ctes"]:
        out.append("WITH " + ("RECURSIVE " if q["rec"] else "") + ", ".join(
            f"{c['name']} AS ({sql(c['q'])})" if c["q"] else f"{c['name']}{'(a, e)' if c['cols'][0] == 'a' else ''} AS (VALUES (1, 2))" for c in q["ctes"]))
    if q["isset"]:
        out.append(f"({sql(q['left'])}) UNION ALL ({sql(q['right'])})")
    else:
        out.append("SELECT " + ", ".join(map(sel, q["sels"])))
        frm = []
        for it in q["items"]:
            if it["join"] == "comma": frm.append(item(it))
            elif it["join"] == "join" and not it["on"]: frm[-1] += " CROSS JOIN " + item(it)
            else: frm[-1] += (" JOIN " if it["join"] == "join" else " LEFT JOIN ") + item(it) + " ON " + (" AND ".join(map(cond, it["on"])) or "1 = 1")
        if frm: out.append("FROM " + ", ".join(frm))
        if q["where"]: out.append("WHERE " + " AND ".join(map(cond, q["where"])))
        if q["grp"]: out.append("GROUP BY " + ", ".join(map(tail, q["grp"])))
        if q["hav"]: out.append("HAVING " + " AND ".join(map(cond, q["hav"])))
    if q["ord"]: out.append("ORDER BY " + ", ".join(map(tail, q["ord"])))
    return " ".join(out)


# ---------------------------------------------------------------- comparison with the parsed query
def shape(t): return None if t is None else (t.full_name, t.alias, t.schema, t.virtual)


def want(tab): return None if not tab else tuple(tab)


def how(x): return "qualified" if x["q"] else "unqualified" if x["tab"] else "unavailable"


class Walk:
    """Visits the parsed query together with the specified one."""
    def __init__(self, strict, act): self.strict, self.act, self.n = strict, act, 0

    def col(self, where, x, c):
        self.n += 1
        self.act(f"{where}: {how(x)}" + ("" if self.strict else ", without a schema"), 1)
        expect(f"{where}: column", x["c"], c.name)
        if not self.strict and not x["q"]:
            # without a schema, the columns of physical tables are unknown, but this does not justify wrong tables
            require(f"{where}: {how(x)} column without a schema", c.table is None or shape(c.table) == want(x["tab"]), (shape(c.table), want(x["tab"])))
            return
        expect(f"{where}: {how(x)} column", want(x["tab"]), shape(c.table))

    def cols(self, where, refs, expr):
        cs = list(expr.itercolumns())
        rest = list(refs)
        expect(f"{where}: columns", sorted(x["c"] for x in refs), sorted(c.name for c in cs))
        for c in cs:
            fit = [x for x in rest if x["c"] == c.name]
            good = [x for x in fit if shape(c.table) == want(x["tab"])]
            x = (good or fit)[0]
            rest.remove(x)
            self.col(where, x, c)

    def conds(self, where, es, p):
        ps = list(p.children) if isinstance(p, CompoundPredicate) else [p]
        expect(f"{where}: conditions", len(es), len(ps))
        for e, p in zip(es, ps):
            if e["t"] == "ref": self.cols(where, e["refs"], p)
            elif e["t"] == "in":
                self.cols(where, e["refs"], p.column)
                self.query(p.values[0].query, e["q"])
            else: self.query(p.column.query, e["q"])

    def item(self, it, src):
        k = it["k"]
        if k in ("base", "cte"):
            expect(f"{k} table in FROM", want(it["tab"]), shape(src.table))
        elif k == "func":
            expect("function in FROM", want(it["tab"]), shape(src.target_table))
            self.cols("function argument", it["refs"], src.function)
        elif k == "values":
            expect("VALUES in FROM", want(it["tab"]), shape(src.table))
            self.cols("VALUES", it["refs"], src.rows[0][0])
        else:
            expect("subquery in FROM", want(it["tab"]), shape(src.target_table) if src.target_name else None)
            expect("lateral", k == "lateral", src.lateral)
            self.query(src.query, it["q"])

    def source(self, items, src):
        if len(items) == 1: return self.item(items[0], src)
        require("join", isinstance(src, JoinTableSource), type(src).__name__)
        self.source(items[:-1], src.left)
        self.item(items[-1], src.right)
        if items[-1]["on"]: self.conds("ON", items[-1]["on"], src.join_condition)

    def query(self, p, q):
        if q["ctes"]:
            expect("WITH", [c["name"] for c in q["ctes"]], [c.target_name for c in p.cte_clause.queries])
            for c, pc in zip(q["ctes"], p.cte_clause.queries):
                if c["q"]: self.query(pc.query, c["q"])
        if q["isset"]:
            self.query(p.left_query, q["left"])
            self.query(p.right_query, q["right"])
        else:
            groups = []
            for it in q["items"]:
                if it["join"] == "comma": groups.append([it])
                else: groups[-1].append(it)
            if groups:
                expect("FROM", len(groups), len(p.from_clause.items))
                for g, s in zip(groups, p.from_clause.items): self.source(g, s)
            expect("SELECT", len(q["sels"]), len(p.select_clause.targets))
            for e, t in zip(q["sels"], p.select_clause.targets):
                if e["t"] == "scalar": self.query(t.expression.query, e["q"])
                elif e["t"] == "qstar": expect("SELECT table.*", want(e["refs"][0]["tab"]), shape(t.expression.from_table))
                elif e["refs"]: self.cols("SELECT", e["refs"], t.expression)
            if q["where"]: self.conds("WHERE", q["where"], p.where_clause.predicate)
            for e, g in zip(q["grp"], p.groupby_clause.group_columns if q["grp"] else []): self.cols("GROUP BY " + e["t"], e["refs"], g)
            if q["hav"]: self.conds("HAVING", q["hav"], p.having_clause.condition)
        for e, o in zip(q["ord"], p.orderby_clause.expressions if q["ord"] else []): self.cols(("UNION " if q["isset"] else "") + "ORDER BY " + e["t"], e["refs"], o.column)


def one(ck, case):
    text, q = sql(case["query"]), case["query"]
    n = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for strict in (True, False):
            p = parse_query(text, accept_set_query=True, db_schema=SCHEMA[case["schema"]] if strict else None, bind_columns=strict)
            w = Walk(strict, ck.act)
            try: w.query(p, q)
            except Mismatch as e:
                e.expected, e.actual = (e.expected, "in: " + text), (e.actual, type(p).__name__)
                raise
            n += w.n
    ck.steps += n


def run(ck):
    K = dict(Bases={"r", "s", "t", "o.r"}, Aliases={"", "r", "x"}, CteNames={"r", "x", "y"}, Columns={"a", "b", "c", "e"}, Rich=True, MaxOps=14, MaxStack=4, MaxItems=3, Sim=True)
    S = dict(K, Rich=False, Bases={"r", "s"}, Aliases={"", "r"}, CteNames={"r", "x"}, Columns={"a", "b"}, Sim=False)
    inv = ["InvEmit", "InvRefs", "InvLateral"]
    k = 1 if ck.quick else 4
    more = [("C04", dict(label="short queries, all features", constants=dict(S, Rich=True, Bases={"r"}, CteNames={"x"}, MaxOps=3, MaxStack=2, MaxItems=2), invariants=inv))]
    plan = [("C04", dict(label="short queries", constants=dict(S, MaxOps=3 if ck.quick else 4, MaxStack=2, MaxItems=2), invariants=inv)),
            ("C04", dict(label="long queries", constants=K, invariants=inv, sim=2000 * k, depth=40, seed=ck.seed)),
            ("C04", dict(label="deep nestings", constants=dict(K, MaxOps=20, MaxStack=5), invariants=inv, sim=1000 * k, depth=60, seed=ck.seed + 1)),
            ("C04", dict(label="few names", constants=dict(K, Bases={"r", "s"}, CteNames={"r", "s", "x"}, Aliases={"", "r", "s"}, Columns={"a", "b"}), invariants=inv, sim=2000 * k, depth=40, seed=ck.seed + 2))]
    if not ck.quick: plan += more
    for (_, kw), r in zip(plan, tlc.run_many(plan, parallel=4)):
        cases = ck.add_run(r)
        ck.replay(cases, lambda case: one(ck, case), sig=lambda case, clause: clause, kind=kw["label"])
