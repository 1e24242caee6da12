"""UES join ordering: the optimizer's join trees must be among those of the specification."""
import collections, random, warnings
warnings.simplefilter("ignore")
import postbound as pb
from postbound import Cardinality, JoinOperator
from postbound.opt import ues
from vk.core import expect, require
from vk.fakes import FakeSchema
from checks.c07 import KIND, T, no

SCHEMA = FakeSchema({f"t{i}": dict(KIND) for i in range(1, 9)})


def filtered(case, i): return (i + len(case["preds"]) + case["base"][0] // 60) % 2 == 0


class Stats:
    cache_enabled = False

    def __init__(self): self.case, self.freq, self.mode = None, {}, 0
    def plain(self, c): return self.mode < 2 and (no(c.table) + len(c.name) + self.freq[no(c.table), c.name]) % 3 == 0
    def total_rows(self, t, **kw):
        if self.mode < 2: return 60
        require("total rows of an unfiltered table", not filtered(self.case, no(t)), t)
        return self.case["base"][no(t) - 1]
    def num_distinct(self, c, **kw): return 60 // self.freq[no(c.table), c.name]
    def most_common_values(self, c, k=None, **kw):
        return [] if self.plain(c) else [("v", self.freq[no(c.table), c.name]), ("w", 1), ("x", 1)][:k]


class Hints:
    ok = True
    def supports_hint(self, h): return self.ok


class Server:
    def __init__(self): self.stats, self.hints, self.case = Stats(), Hints(), None
    def statistics(self): return self.stats
    def schema(self): return SCHEMA
    def hinting(self): return self.hints
    def optimizer(self): return self
    def describe(self): return {}
    def base(self, q):
        (t,) = q.tables()
        text = str(q).rstrip(";")
        expect("filters of the table", f"t{no(t)}.z = {no(t)}" if filtered(self.case, no(t)) else "", text.partition(" WHERE ")[2])
        return self.case["base"][no(t) - 1]
    def cardinality_estimate(self, q):
        require("the rows of the table are estimated", "COUNT" not in str(q).upper(), q)
        return Cardinality(self.base(q))
    def execute_query(self, q, **kw):
        require("the rows are counted", "COUNT(*)" in str(q).upper(), q)
        return self.base(q)


class Base(ues.BaseTableEstimator):
    def __init__(self, server): super().__init__("given"); self.server = server
    def setup_for_query(self, query): pass
    def estimate_for(self, table): return Cardinality(self.server.case["base"][no(table) - 1])
    def estimate_total_rows(self, table): return self.estimate_for(table)
    def describe(self): return {}


class Estimator(pb.CardinalityEstimator):
    def __init__(self, server): super().__init__(); self.server = server; self.now = None
    def initialize(self, target_db, query): require("target database", target_db is self.server); self.now = query
    def calculate_estimate(self, query, intermediate):
        require("initialized for the query", self.now == query, query)
        (t,) = [intermediate] if isinstance(intermediate, pb.TableReference) else intermediate
        return Cardinality(self.server.case["base"][no(t) - 1])
    def describe(self): return {}


BASES = [Base, Estimator, ues.NativeCardinalityEstimator, ues.PreciseCardinalityEstimator]


def query(n, preds, case):
    ps = [f"t{a}.{x} = t{b}.{y}" if (a + b) % 2 else f"t{b}.{y} = t{a}.{x}" for a, b, x, y in preds]
    ps += [f"t{i}.z = {i}" for i in range(1, n + 1) if filtered(case, i)]
    return pb.parse_query(f"SELECT COUNT(*) FROM {', '.join(f't{i}' for i in range(1, n + 1))}" + (" WHERE " + " AND ".join(ps) if ps else ""), bind_columns=False)


def make(server, mode, linear, eager=False):
    return ues.UESJoinOrderOptimizer(base_table_estimation=None if mode == 2 else BASES[mode](server), database=server, pull_eager_pk_tables=eager,
                                     subquery_policy=ues.LinearJoinTreePolicy() if linear else None)


def setup(server, mode, c):
    server.case = server.stats.case = c
    server.stats.mode = mode
    server.stats.freq = {(f["t"], f["c"]): f["f"] for f in c["freq"]}


def value(x): return float(x) if not isinstance(x, Cardinality) else float(x.value)


def shape(node):
    if node.is_join(): return (shape(node.outer_child), shape(node.inner_child), value(node.annotation))
    return (no(node.base_table), value(node.annotation))


def wanted(h):
    tree = (h[0]["t"], h[0]["b"])
    for s in h[1:]:
        right = (s["t"], s["leaf"])
        for p in s["pks"]: right = (right, (p["t"], p["leaf"]), p["b"])
        tree = (tree, right, s["b"])
    return tree


def close(a, b):
    if len(a) != len(b) or abs(a[-1] - b[-1]) > 1 + 1e-9 * abs(b[-1]): return False
    return a[0] == b[0] if len(a) == 2 else close(a[0], b[0]) and close(a[1], b[1])


def sound(q, edges, tree, linear):
    """what holds for every query: each table once, no avoidable cross product, all nodes annotated"""
    require("there is a join order", tree is not None, q)
    leaves = [no(t.base_table) for t in tree.iternodes() if not t.is_join()]
    expect("each table is joined once", sorted(no(t) for t in q.tables()), sorted(leaves))
    for j in tree.iternodes():
        v = value(j.annotation)
        require("known cardinality", v == v and v >= 0, str(tree))
    comps = []
    for t in leaves:
        near = [c for c in comps if any(frozenset((t, x)) in edges for x in c)]
        comps = [c for c in comps if c not in near] + [frozenset({t}).union(*near)]
    for j in tree.iterjoins():
        L, R = ({no(t) for t in x.tables()} for x in (j.outer_child, j.inner_child))
        joined = any(frozenset((a, b)) in edges for a in L for b in R)
        split = [c for c in comps if c & L and c & R]
        require("no avoidable cross product", joined or not split, str(tree))
        if not joined:
            require("partitions are completed before they are combined", all(c <= L or c <= R for c in comps if c & (L | R)), str(tree))
            a, b, r = (value(x.annotation) for x in (j.outer_child, j.inner_child, j))
            require("a cross product multiplies the cardinalities", abs(r - a * b) <= 1e-9 * r + 1e-9, str(tree))
    if linear and len(comps) == 1: require("linear policy", tree.is_linear(), str(tree))
    node, cards = tree, []
    while len(comps) > 1 and node.is_join() and not any({no(t) for t in node.tables()} <= c for c in comps):
        cards.append(value(node.inner_child.annotation)); node = node.outer_child
    if cards and len(leaves) > 2:
        cards = [value(node.annotation)] + cards[::-1]
        expect("smaller partitions first", sorted(cards), cards)


def shifted(tree, d): return (tree[0] + d, tree[1]) if len(tree) == 2 else (shifted(tree[0], d), shifted(tree[1], d), tree[2])


def replay(ck):
    pool = {}

    def go(c):
        n, linear = c["n"], c["linear"]
        preds = [(e["a"], e["b"], *p) for e in c["preds"] for p in e["ps"]]
        edges = {frozenset(p[:2]) for p in preds}
        mode = (sum(c["base"]) // 60 + len(preds)) % 4
        if (linear, mode) not in pool:
            server = Server()
            pool[linear, mode] = (server, make(server, mode, linear))
        server, opt = pool[linear, mode]
        setup(server, mode, c)
        q = query(n, preds, c)
        ck.steps += n
        for fresh in (False, True):
            tree = (make(server, mode, linear) if fresh else opt).optimize_join_order(q)
            sound(q, edges, tree, linear)
            for offset, tabs, want in c["parts"]:
                part = [x for x in tree.iternodes() if {no(t) for t in x.tables()} == {t + offset for t in tabs}]
                require("a partition is a part of the join order", len(part) == 1, str(tree))
                got, hs = shape(part[0]), [shifted(wanted(h), offset) for h in want]
                ck.act("partition" if len(tabs) < n else "two tables" if n == 2 else "branch" if any(s["op"] == "sub" for s in want[0]) else "linear")
                require("one of the join orders of UES", any(close(got, h) for h in hs), {"got": got, "want": hs[:3]})
        sound(q, edges, make(server, mode, linear, eager=True).optimize_join_order(q), linear)
        expect("a query with one table has no join order", None, opt.optimize_join_order(query(1, [], c)))
        for nlj in (True, False):
            server.hints.ok = nlj
            a = ues.UESOperatorSelection(server).select_physical_operators(q, tree)
            expect("operators", {JoinOperator.NestedLoopJoin: False} if nlj else {}, dict(a.global_settings))
            require("no further operators", not a.join_operators and not a.scan_operators, str(a))
    return go


def group(found):
    by = collections.OrderedDict()
    for c in found: by.setdefault(c["k"], []).append(c)
    out = []
    for cs in by.values():
        c = dict(cs[0], want=[] if any(x["big"] for x in cs) else [x["h"] for x in cs])
        del c["h"], c["big"]
        c["parts"] = [(0, list(range(1, c["n"] + 1)), c["want"])] if c["want"] else []
        out.append(c)
    return out


def scattered(cases, rnd):
    """queries with cross products: the tables of two cases side by side, along with unjoined tables"""
    out = []
    for x, y in zip(cases, rnd.sample(cases, len(cases))):
        extra = rnd.choice([0, 0, 1, 2])
        n = x["n"] + y["n"] + extra
        if n > 8: continue
        d = x["n"]
        out.append(dict(k=f'{x["k"]}+{y["k"]}+{extra}', n=n, linear=x["linear"], base=x["base"] + y["base"] + [rnd.choice([0, 7, 120, 9999])] * extra, parts=[(d if c is y else 0, list(range(1, c["n"] + 1)), c["want"]) for c in (x, y) if c["want"] and (c["n"] > 2 or c["preds"])],
                        preds=x["preds"] + [dict(a=e["a"] + d, b=e["b"] + d, ps=e["ps"]) for e in y["preds"]],
                        freq=x["freq"] + [dict(f, t=f["t"] + d) for f in y["freq"]]))
    return out


def sig(case, clause): return clause


def run(ck):
    from vk.tlc import run_many
    q = ck.quick
    inv = ["Complete", "Reduced", "NoBranches", "Emit"]
    def job(label, n, k, linear=False, style="any", preds=1):
        return ("C28", dict(label=label, constants=dict(N=n, MaxPreds=preds, K=k if q else k * 10, Seed=ck.seed % 1000 + n, Linear=linear, Style=style), invariants=inv, deadlock=True, timeout=800))
    jobs = [job("two tables", 2, 300, preds=2), job("three tables", 3, 500, preds=2), job("four tables", 4, 800), job("four tables, star queries", 4, 400, style="star"),
            job("four tables, linear", 4, 400, linear=True), job("four tables, n:m joins", 4, 400, style="nm", preds=2), job("five tables", 5, 500, style="mixed", preds=2), job("five tables, star queries", 5, 250, style="star")]
    if not q: jobs.append(job("six tables", 6, 100, style="mixed"))
    rnd, small = random.Random(ck.seed), [[], []]
    for r in run_many(jobs, 4):
        cases = group(ck.add_run(r))
        ck.replay(cases, replay(ck), sig=sig, kind=r.label)
        small[r.label.endswith("linear")] += [c for c in cases if c["n"] <= 4 and "n:m" not in r.label]
    for cases in small: ck.replay(scattered(cases[:: 2 if len(cases) > 500 else 1], rnd), replay(ck), sig=sig, kind="cross products")
