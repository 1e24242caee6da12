"""Relational algebra: the trees of queries are evaluated and have to compute the rows that the specification predicts; trees that
are built, mutated, cloned and re-rooted have to be the trees the specification says, with consistent links."""
import functools, os, warnings
from postbound import ColumnReference, TableReference, qal, relalg
from postbound.parser import parse_query
from checks import c03
from vk import tlc
from vk.core import Mismatch, expect, require

warnings.simplefilter("ignore")
NULL = -99
DATA = {"r": [(1, 0), (2, None), (2, 1)], "s": [(2, 1), (None, 1), (0, 2)], "u": [(1, 1), (2, 2)], "e": []}
Op = qal.LogicalOperator


class Row(dict):
    """the values of expressions; out is the tuple that a projection produces"""
    out = None
    def plus(self, other):
        r = Row(self); r.update(other); r.out = self.out
        return r


class NotProvided(Exception): pass


# ---------------------------------------------------------------- expressions over a row
def cmp(op, v, w):
    if op in (Op.Is, Op.IsNot): return int((v == w) == (op is Op.Is))
    if v is None or w is None: return None
    return int({"=": v == w, "<>": v != w, "<": v < w, "<=": v <= w, ">": v > w, ">=": v >= w}[op.value])
def neg(v): return None if v is None else 1 - v
def conj(vs): return 0 if 0 in vs else None if None in vs else 1
def disj(vs): return 1 if 1 in vs else None if None in vs else 0


def value(e, row, outer):
    for known in (row, outer):
        if e in known: return known[e]
    return compute(e, row, outer)


def compute(e, row, outer):
    go = lambda x: value(x, row, outer)
    if isinstance(e, qal.StaticValueExpression): return e.value
    if isinstance(e, qal.AbstractPredicate): return truth(e, row, outer)
    if isinstance(e, qal.CastExpression): return go(e.casted_expression)
    if isinstance(e, qal.MathExpression):
        second = e.second_arg if isinstance(e.second_arg, (tuple, list)) else [e.second_arg]
        vals = [go(e.first_arg)] + [go(x) for x in second]
        if any(v is None for v in vals): return None
        require("only sums were asked for", e.operator == qal.MathOperator.Add, str(e))
        return sum(vals)
    if isinstance(e, qal.CaseExpression):
        for c, r in e.cases:
            if go(c) == 1: return go(r)
        return go(e.else_expression) if e.else_expression is not None else None
    raise NotProvided(str(e))


def truth(p, row, outer):
    go = lambda x: value(x, row, outer)
    if isinstance(p, qal.CompoundPredicate):
        if p.operation is qal.CompoundOperator.Not: return neg(truth(p.children, row, outer))
        return (conj if p.operation is qal.CompoundOperator.And else disj)([truth(c, row, outer) for c in p.children])
    if isinstance(p, qal.BinaryPredicate): return cmp(p.operation, go(p.first_argument), go(p.second_argument))
    if isinstance(p, qal.BetweenPredicate): return conj([cmp(Op.GreaterEqual, go(p.column), go(p.interval_start)), cmp(Op.LessEqual, go(p.column), go(p.interval_end))])
    if isinstance(p, qal.InPredicate): return disj([cmp(Op.Equal, go(p.column), go(v)) for v in p.values])
    if isinstance(p, qal.UnaryPredicate) and p.operation in (Op.Is, Op.IsNot): return int((go(p.column) is None) == (p.operation is Op.Is))
    raise NotProvided(str(p))


# ---------------------------------------------------------------- nodes: outer holds the columns of the current rows of the outer queries
def provided(what, exprs, row, outer):
    for e in exprs:
        if isinstance(e, (qal.StaticValueExpression, qal.StarExpression)): continue
        if e not in row and e not in outer: raise NotProvided(f"{e} for {what}")


def visible(row): return {e: v for e, v in row.items() if isinstance(e, qal.ColumnExpression)}


def order(v, d): return (v is None, 0 if v is None else -v if d == "desc" else v)


def rows(n, outer):
    ev = lambda c: rows(c, outer)
    kind = n.node_type
    if kind == "Relation":
        cols = [c for c in n.provided_expressions() if isinstance(c, qal.ColumnExpression) and c.column.table == n.table]
        bound = {c: outer[c] for c in cols if c in outer}
        if bound:  # a table of an outer query: just its current row
            provided(f"outer table {n.table}", cols, bound, {})
            return [Row(bound)]
        if n.subquery_input is None: return [Row({c: dict(zip("xy", d))[c.column.name] for c in cols}) for d in DATA[n.table.full_name]]
        return [Row({c: dict(zip("xy", d.out))[c.column.name] for c in cols}) for d in ev(n.subquery_input)]
    if kind == "SubqueryScan":
        got = ev(n.input_node)
        require("a subquery yields tuples of its projection", all(r.out is not None for r in got), n.inspect())
        return got
    if kind == "Selection":
        def keep(r):
            provided(f"selection {n.predicate}", n.predicate.iterexpressions(), r, outer)
            return truth(n.predicate, r, outer) == 1
        return [r for r in ev(n.input_node) if keep(r)]
    if kind == "Map":
        out = []
        for r in ev(n.input_node):
            targets = {t for ts in n.mapping.values() for t in ts}
            for args, ts in n.mapping.items():
                for a in args:
                    if a not in r and a not in outer and a not in targets: raise NotProvided(f"{a} for mapping {n}")
            new = {}
            for t in targets:
                if isinstance(t, qal.ColumnExpression) and t not in r and t not in outer: raise NotProvided(f"{t} mapped from nothing")
                new[t] = value(t, r, outer)
            out.append(r.plus(new))
        return out
    if kind in ("CrossProduct", "ThetaJoin"):
        out = []
        right = None if isinstance(n.right_input, relalg.SubqueryScan) else ev(n.right_input)
        for l in ev(n.left_input):
            dep = isinstance(n.right_input, relalg.SubqueryScan)
            inner = rows(n.right_input, {**outer, **visible(l)}) if dep else right
            if dep: require("a scalar subquery has one row", len(inner) == 1, n.inspect())
            for r in inner:
                if dep:
                    m = l.plus({qal.SubqueryExpression(n.right_input.subquery): r.out[0]})
                else: m = l.plus(r)
                if kind == "ThetaJoin":
                    provided(f"join {n.predicate}", n.predicate.iterexpressions(), m, outer)
                    if truth(n.predicate, m, outer) != 1: continue
                out.append(m)
        return out
    if kind in ("SemiJoin", "AntiJoin"):
        out = []
        for l in ev(n.input_node):
            inner = rows(n.subquery_node, {**outer, **visible(l)})
            if n.predicate is not None:
                def match(r):
                    m = l.plus(r); provided(f"semi join {n.predicate}", n.predicate.iterexpressions(), m, outer)
                    return truth(n.predicate, m, outer) == 1
                inner = [r for r in inner if match(r)]
            if bool(inner) == (kind == "SemiJoin"): out.append(l)
        return out
    if kind == "Projection":
        out = []
        for r in ev(n.input_node):
            provided("projection", n.columns, r, outer)
            p = Row({c: value(c, r, outer) for c in n.columns})
            p.out = tuple(value(c, r, outer) for c in n.columns)
            out.append(p)
        return out
    if kind == "Grouping":
        groups = {}
        inp = ev(n.input_node)
        for r in inp:
            provided("grouping", n.group_columns, r, outer)
            groups.setdefault(tuple(value(g, r, outer) for g in n.group_columns), []).append(r)
        if not n.group_columns and not groups: groups[()] = []
        return [Row({**dict(zip(n.group_columns, k)), **{f: aggregate(f, g, outer) for fs in n.aggregates.values() for f in fs}}) for k, g in groups.items()]
    if kind == "Sort":
        inp = ev(n.input_node)
        for r in inp: provided("sorting", [e for e, _ in n.sorting], r, outer)
        return sorted(inp, key=lambda r: [order(value(e, r, outer), d) for e, d in n.sorting])
    if kind == "DuplicateElimination":
        seen, out = set(), []
        for r in ev(n.input_node):
            k = r.out if r.out is not None else frozenset(r.items())
            if k not in seen: seen.add(k); out.append(r)
        return out
    if kind in ("Union", "Intersection", "Difference"):
        l, r = ev(n.left_input), ev(n.right_input)
        if all(x.out is not None for x in l + r): key = lambda x: x.out
        else:
            common = set.intersection(*(set(x) for x in l + r)) if l + r else set()
            key = lambda x: frozenset((e, v) for e, v in x.items() if e in common)
            if kind == "Union": l, r = ([Row({e: v for e, v in x.items() if e in common}) for x in s] for s in (l, r))
        have = {key(x) for x in r}
        return l + r if kind == "Union" else [x for x in l if (key(x) in have) == (kind == "Intersection")]
    raise Mismatch("known operator", "an operator of the algebra", kind)


def aggregate(f, group, outer):
    if len(f.arguments) == 1 and isinstance(f.arguments[0], qal.StarExpression): return len(group)
    vals = []
    for r in group:
        provided(f"aggregate {f}", f.arguments, r, outer)
        vals.append(value(f.arguments[0], r, outer))
    vals = [v for v in vals if v is not None]
    if f.distinct: vals = list(dict.fromkeys(vals))
    if f.function.upper() == "COUNT": return len(vals)
    if not vals: return None
    return {"SUM": sum, "MIN": min, "MAX": max}[f.function.upper()](vals)


# ---------------------------------------------------------------- linkage of any tree
def sound(what, root):
    nodes = {}
    def walk(n):
        if id(n) in nodes: return
        nodes[id(n)] = n
        for c in n.children(): walk(c)
    walk(root)
    parents = {i: [] for i in nodes}
    for n in nodes.values():
        for c in n.children():
            if not any(p is n for p in parents[id(c)]): parents[id(c)].append(n)
    for i, n in nodes.items():
        have = ([n.parent_node] if n.parent_node is not None else []) + list(n.sideways_pass)
        want = parents[i]
        # of two equal parents (which later copies will merge) only one is listed
        if len(set(map(id, have))) < len(have) or not all(any(p is w for w in want) for p in have) or not all(any(p == w for p in have) for w in want):
            raise Mismatch(f"{what}: parents of a node", f"{n.node_type} {n}: {[f'{p.node_type} {p}' for p in want]}", [f"{p.node_type} {p}" for p in have])
        for p in n.sideways_pass: require(f"{what}: sideways nodes can be looked up", p in n.sideways_pass, str(p))
        require(f"{what}: root", n.root() is root, str(n.root()))
    return list(nodes.values())


def merged(what, root):
    """a copy does not contain redundant nodes"""
    nodes = list({id(x): x for x in root.dfs_walk()}.values())
    require(f"{what}: equal nodes of the copy are one node", len(nodes) == len(set(nodes)), root.inspect())


# ---------------------------------------------------------------- queries
def flat(c): return f"{flat(c['l'])} AND {flat(c['r'])}" if c["k"] == "and" else f"({c03.cond(c)})" if c["k"] in ("or", "not") else c03.cond(c)


def text(q, style):
    """SQL text; conjunctions are written nested or flat"""
    old = c03.cond
    if style:
        def cond(c):
            if c["k"] == "and": return f"{wrap(c['l'])} AND {wrap(c['r'])}"
            return old(c)
        wrap = lambda c: f"({cond(c)})" if c["k"] in ("or", "not") else cond(c)
        c03.cond = cond
    try: return c03.query(q)
    finally: c03.cond = old


def base_tables(q):
    """aliases of the plain tables of the query itself and of all nested queries and CTEs that are actually used"""
    out, ctes, used = set(), {}, set()
    def go(v):
        if isinstance(v, list):
            for x in v: go(x)
        elif isinstance(v, dict):
            if v.get("k") == "t": out.add(v["id"].lower())
            if v.get("k") == "c": used.add(v["name"])
            for k, x in v.items():
                if k == "ctes": ctes.update({c["name"]: c["q"] for c in x})
                else: go(x)
    go(q)
    seen = set()
    while used - seen:
        name = (used - seen).pop(); seen.add(name)
        go(ctes[name])
    return out


def replay_query(ck):
    def go(case):
        q = case["q"]
        want = [tuple(None if r[c] == NULL else r[c] for c in ("x", "y") if c in r) for r in case["rows"]]
        sql = text(q, sum(map(ord, str(q))) % 2)
        ck.steps += 1
        for k in c03.kinds(q): ck.act(k)
        tree = relalg.parse_relalg(parse_query(sql))
        try: got = rows(tree, {})
        except NotProvided as e: raise Mismatch("every operator gets the expressions it needs", sql, f"{e}\n{tree.inspect()}")
        require("the tree produces tuples", all(r.out is not None for r in got), tree.inspect())
        got = [r.out for r in got]
        key = lambda r: [(v is None, v or 0) for v in r]
        if q["order"]: ok = got == want
        else: ok = sorted(got, key=key) == sorted(want, key=key)
        if not ok: raise Mismatch("rows of the algebra tree", f"{sql}\n{want}", f"{got}\n{tree.inspect()}")
        sound("parsed tree", tree); merged("parsed tree", tree)
        expect("tables of the tree", base_tables(q), {t.identifier() for t in tree.tables() if not t.virtual and t.full_name})
    return go


# ---------------------------------------------------------------- histories of trees
T = {t: TableReference({"a": "ta", "b": "tb", "ss": "tss"}.get(t, ""), t, virtual=t not in ("a", "b", "ss")) for t in ("a", "b", "w", "w2", "c", "ss")}
def col(t, c): return qal.ColumnExpression(ColumnReference(c, T[t]))
AX, AY, BX, BY = col("a", "x"), col("a", "y"), col("b", "x"), col("b", "y")
def plus(e): return qal.MathExpression(qal.MathOperator.Add, e, qal.StaticValueExpression(1))
COUNT, SUM = qal.FunctionExpression("COUNT", [qal.StarExpression()]), qal.FunctionExpression("SUM", [AY])
SUBQUERIES = {n: parse_query(f"SELECT ss.x FROM tss AS ss WHERE ss.y = {n}") for n in (1, 2)}
def token(e):
    """an expression of the specification"""
    if e["f"] == "sub": return qal.SubqueryExpression(SUBQUERIES[int(e["t"])])
    if e["f"] == "count": return COUNT
    c = col(e["t"], e["c"])
    return {"col": lambda: c, "plus": lambda: plus(c), "sum": lambda: qal.FunctionExpression("SUM", [c])}[e["f"]]()


def attributes(op, a, style):
    """the arguments of an operator; style switches between the accepted ways of writing them"""
    binary = qal.BinaryPredicate
    raw = (lambda e: e.column) if style else (lambda e: e)
    if op == "rel": return dict(table=T["b" if a == 3 else "a"], provided_columns=(list if style else tuple)(map(raw, {1: [AX, AY], 2: [AX], 3: [BX, BY]}[a])))
    if op == "relsub": return dict(table=T["w" if a == 1 else "w2"], provided_columns=[raw(col("w" if a == 1 else "w2", "x"))])
    if op == "sel": return dict(predicate=binary.equal(AX, qal.StaticValueExpression(a)))
    if op == "proj": return dict(targets=(list if style else tuple)([AX] if a == 1 else [BX, plus(AX)]))
    if op == "grp": return dict(group_columns=[AX] if a == 1 else [], aggregates={frozenset([qal.StarExpression()]): frozenset([COUNT])} if a == 1 else {frozenset([AY]): frozenset([SUM])})
    if op == "ren": return dict(mapping={(AX if a == 1 else AY).column: col("c", "x" if a == 1 else "y").column})
    if op == "srt": return dict(sorting=[AX if style else (AX, "asc")] if a == 1 else [(AX, "desc"), (AY, "asc")])
    if op == "map": return dict(mapping={frozenset([AX if a == 1 else AY]): frozenset([plus(AX if a == 1 else AY)])})
    if op == "sub": return dict(subquery=SUBQUERIES[a])
    if op == "join": return dict(predicate=binary.equal(AX, BX if a == 1 else BY))
    if op in ("semi", "anti"): return dict(predicate=binary.equal(AX, col("ss", "x" if a == 1 else "y")) if a else None)
    return {}


CLASS = dict(rel="Relation", relsub="Relation", sel="Selection", proj="Projection", grp="Grouping", ren="Rename", srt="Sort", map="Map", sub="SubqueryScan", dup="DuplicateElimination",
             join="ThetaJoin", cross="CrossProduct", union="Union", inter="Intersection", diff="Difference", semi="SemiJoin", anti="AntiJoin")
def inputs(op): return ("left_input", "right_input") if op in ("join", "cross", "union", "inter", "diff") else ("input_node", "subquery_node") if op in ("semi", "anti") else ("subquery_input",) if op == "relsub" else ("input_node",)
# the getter of each attribute
GETTER = dict(targets="columns", provided_columns=None)


def key(v): return (v["op"], v["a"], tuple(map(key, v["k"])))


def build(v, style, memo):
    """equal subtrees become one node (but a subquery below a semi join belongs to that join)"""
    if key(v) in memo: return memo[key(v)]
    kids = [build(k, style, {} if v["op"] in ("semi", "anti") and i == 1 else memo) for i, k in enumerate(v["k"])]
    n = getattr(relalg, CLASS[v["op"]])(**dict(zip(inputs(v["op"]), kids)), **attributes(v["op"], v["a"], style))
    memo[key(v)] = n
    return n


def same_tree(what, v, n):
    require(f"{what}: operator", type(n).__name__ == CLASS[v["op"]] and n.node_type == CLASS[v["op"]], f"{CLASS[v['op']]} expected, got {n.node_type}")
    for a, want in attributes(v["op"], v["a"], 0).items():
        if a == "provided_columns":
            expect(f"{what}: columns of a relation", set(want), {e for e in n.provided_expressions() if e.column.table == v_table(v)})
            continue
        got = getattr(n, GETTER.get(a, a))
        if isinstance(want, (list, tuple)): expect(f"{what}: {a}", tuple(want), got)
        else: expect(f"{what}: {a}", want, got if not isinstance(want, dict) else dict(got))
    expect(f"{what}: number of inputs of {v['op']}", len(v["k"]), len(n.children()))
    for name, k, c in zip(inputs(v["op"]), v["k"], n.children()):
        require(f"{what}: inputs can be accessed", getattr(n, name) is c, name)
        same_tree(what, k, c)


def v_table(v): return attributes(v["op"], v["a"], 0)["table"]


class Visitor(relalg.RelNodeVisitor):
    """names the methods that are called, in pre-order"""
METHODS = dict(rel="base_relation", relsub="base_relation", sel="selection", proj="projection", grp="grouping", ren="rename", srt="sort", map="map", sub="subquery", dup="duplicate_elim",
               join="theta_join", cross="cross_product", union="union", inter="intersection", diff="difference", semi="semijoin", anti="antijoin")
for _m in set(METHODS.values()):
    setattr(Visitor, f"visit_{_m}", (lambda name: lambda self, n: [name] + [x for c in n.children() for x in c.accept_visitor(self)])(_m))
Visitor.__abstractmethods__ = frozenset()


def observed(what, o, v, n):
    expect(f"{what}: provided expressions", {token(e) for e in o["provided"]}, set(n.provided_expressions()))
    expect(f"{what}: tables", {T[t] for t in o["tables"]}, set(n.tables()))
    expect(f"{what}: tables outside of subqueries", {T[t] for t in o["outer"]}, set(n.tables(ignore_subqueries=True)))
    leaf = n.leaf()
    if o["leaf"]: require(f"{what}: there is a unique leaf", leaf is not None, n.inspect()); same_tree(f"{what}: leaf", o["leaf"][0], leaf)
    else: require(f"{what}: there is no unique leaf", leaf is None, str(leaf))
    expect(f"{what}: depth-first walk", [CLASS[x] for x in o["dfs"]], [x.node_type for x in n.dfs_walk()])
    expect(f"{what}: visited methods", [METHODS[x] for x in o["dfs"]], n.accept_visitor(Visitor()))
    expect(f"{what}: lines of the description", len(o["dfs"]), len(n.inspect().splitlines()))
    require(f"{what}: is root", n.root() is n and n.parent_node is None, n.inspect())


def identity(what, v, n, others):
    """equality and hashes follow the structure"""
    fresh = build(v, 1, {})
    require(f"{what}: equal trees are equal", n == fresh and fresh == n and hash(n) == hash(fresh), n.inspect())
    for w, m in others:
        require(f"{what}: trees are equal iff they have the same structure", (n == m) == (key(v) == key(w)) and (key(v) != key(w) or hash(n) == hash(m)), f"{n.inspect()}\n{m.inspect()}")


def find(v, n):
    for x in n.dfs_walk():
        if matches(v, x): return x
    raise Mismatch("a node of the tree can be found", v, n.inspect())


def matches(v, n):
    try: same_tree("", v, n)
    except Mismatch: return False
    return True


def replay_history(ck):
    def go(case):
        style = len(str(case)) % 2
        root = build(case["first"], style, {})
        same_tree("built tree", case["first"], root); observed("built tree", case["obs"], case["first"], root); sound("built tree", root)
        earlier = [(case["first"], root)]
        identity("built tree", case["first"], root, [])
        for h in case["hist"]:
            ck.steps += 1; ck.act(f"{h['u']}{' as root' if h['root'] else ''}")
            v, n = h["at"], find(h["at"], root)
            names, args = inputs(v["op"]), {}
            if h["u"] in ("attr", "both"): args.update(attributes(v["op"], h["a"], style))
            if h["u"] == "kid": args[names[h["i"] - 1]] = build(h["c"][0], style, {})
            if h["u"] == "both": args[names[1]] = build(h["c"][0], style, {})
            if h["u"] == "wrap": args[names[h["i"] - 1]] = relalg.Selection(n.children()[h["i"] - 1], **attributes("sel", 2, style))
            if h["u"] == "skip": args[names[h["i"] - 1]] = n.children()[h["i"] - 1].children()[h["a"] - 1]
            if h["u"] == "swap": args = dict(zip(names, reversed(n.children())))
            if v["op"] == "grp" and h["u"] == "same": got = n.mutate(as_root=h["root"])
            else: got = n.mutate(**args, **({"as_root": True} if h["root"] else {}))
            what = f"{h['u']} of {v['op']}"
            same_tree(f"{what}: mutated node", h["to"], got)
            new = got.root()
            same_tree(f"{what}: tree", h["tree"], new)
            old = {id(x) for _, t in earlier for x in t.dfs_walk()}
            require(f"{what}: the mutation creates a copy of the tree", not any(id(x) in old for x in new.dfs_walk()), new.inspect())
            sound(what, new)
            if h["u"] == "same": merged(what, new)
            observed(what, h["obs"], h["tree"], new)
            identity(what, h["tree"], new, earlier)
            for w, t in earlier:
                same_tree(f"{what}: earlier tree", w, t)
                require(f"{what}: root of an earlier tree", t.root() is t, t.inspect())
            root = new
            earlier.append((h["tree"], new))
        for n in root.dfs_walk():
            c = n.clone()
            require("clones are equal but separate nodes", c is not n and c == n and hash(c) == hash(n) and list(map(id, c.children())) == list(map(id, n.children())), str(n))
    return go


def run(ck):
    inv = ["TypeOK", "Kept", "Untouched", "Emitted"]
    hs = tlc.run_many([
        ("C22", dict(label="every mutation of small trees", constants=dict(Kind="all", Depth=1 if ck.quick else 2, Steps=1), invariants=inv)),
        ("C22", dict(label="random histories of trees", constants=dict(Kind="random", Depth=4, Steps=4), invariants=inv, sim=1500 if ck.quick else 30000, depth=8, seed=ck.seed)),
    ], parallel=2)
    for r in hs:
        ck.replay(ck.add_run(r), replay_history(ck), sig=lambda case, clause: clause, kind=r.label, limit=40)
    q = ck.quick
    Q = dict(invariants=["Emitted"], spec="SpecG")
    runs = tlc.run_many([
        ("C22Q", dict(label="pairs of conjuncts", constants=dict(Shape="pairs", Depth=1), **Q)),
        ("C22Q", dict(label="shapes of FROM", constants=dict(Shape="froms", Depth=1), **Q)),
        ("C22Q", dict(label="random queries", constants=dict(Shape="random", Depth=1), sim=800 if q else 20000, depth=3, seed=ck.seed, jvm=["-Xss512m"], **Q)),
        ("C22Q", dict(label="random deep queries", constants=dict(Shape="random", Depth=2), sim=800 if q else 20000, depth=3, seed=ck.seed + 1, jvm=["-Xss512m"], **Q)),
    ], parallel=4)
    for r in runs:
        ck.replay(ck.add_run(r), replay_query(ck), sig=lambda case, clause: f"{'/'.join(sorted(c03.kinds(case['q'])))}: {clause}", kind=r.label, limit=40)
