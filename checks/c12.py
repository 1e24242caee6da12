import itertools, math, warnings
import postbound as pb
from postbound import Cardinality, ScanOperator, JoinOperator, IntermediateOperator
from postbound.postgres import PostgresInterface
from postbound.opt.dynprog import DynamicProgrammingEnumerator, PostgresDynProg
from postbound.parser import parse_query
from vk import tlc
from vk.core import expect, require
from vk.fakes import FakeSchema
from checks.c08 import T, no

OPS = {o.name: o for e in (ScanOperator, JoinOperator, IntermediateOperator) for o in e}


def colname(t, x):
    return {8: "id", 9: "f"}.get(x) or f"k{min(t, x)}{max(t, x)}"


def colno(t, name):
    if name in ("id", "f"): return {"id": 8, "f": 9}[name]
    a, b = int(name[1]), int(name[2])
    return b if a == t else a


class Hinting:
    def __init__(self, ops): self.ops = ops
    def supports_hint(self, h): return h in self.ops


class DB:
    def __init__(self, schema, ops): self._s, self._h = schema, Hinting(ops)
    def schema(self): return self._s
    def hinting(self): return self._h
    def describe(self): return {}


class PG(PostgresInterface):
    def __init__(self, schema, ops): self._s, self._h = schema, Hinting(ops)
    def schema(self): return self._s
    def hinting(self): return self._h
    def describe(self): return {}
    def __repr__(self): return "PG"


class Boom(Exception):
    pass


class Proto:
    """initialize -> calls -> cleanup"""
    def start(self, log, db, fail_at=None):
        self.log, self.db, self.live, self.calls, self.fail_at = log, db, 0, 0, fail_at

    def initialize(self, target_db, query):
        require("initialized with the target database", target_db is self.db)
        require("initialized once", self.live == 0)
        self.live, self.q = 1, query

    def cleanup(self):
        require("cleaned up once", self.live == 1)
        self.live = 0

    def asked(self, query):
        require("used between initialize and cleanup", self.live == 1)
        require("asked about the tables of the query", query.tables() <= self.q.tables())
        self.calls += 1
        if self.calls == self.fail_at: raise Boom()

    def describe(self): return {}
    def pre_check(self): return pb.EmptyPreCheck()


class Est(Proto):
    def __init__(self, cards): self.cards = cards

    def calculate_estimate(self, query, tables):
        self.asked(query)
        key = frozenset(no(t) for t in ([tables] if isinstance(tables, pb.TableReference) else tables))
        require("cardinalities are requested for joinable parts of the query", key in self.cards, sorted(key))
        return Cardinality(self.cards[key])


class Cost(Proto):
    def __init__(self, scans, joins, sorts, cards): self.scans, self.joins, self.sorts, self.cards = scans, joins, sorts, cards

    def estimate_cost(self, query, plan):
        self.asked(query)
        return own(self, plan) + sum(c.estimated_cost for c in plan.children)


def ts(p): return frozenset(no(t) for t in p.tables())


def own(m, p):
    op = p.operator
    require("cost is requested for a plan with its cardinality", p.estimated_cardinality == m.cards.get(ts(p)), (str(op), sorted(ts(p)), p.estimated_cardinality))
    if op in ScanOperator:
        t = no(p.base_table)
        x = 0
        if op in (ScanOperator.IndexScan, ScanOperator.IndexOnlyScan):
            x = colno(t, p.params.index.split("_")[1])
        require("scan path is available", (op.name, t, x) in m.scans, (op.name, t, x))
        return m.scans[op.name, t, x]
    if op in JoinOperator:
        o, i = (ts(c) for c in p.children)
        require("join is available", (op.name, o, i) in m.joins, (op.name, sorted(o), sorted(i)))
        return m.joins[op.name, o, i]
    if op == IntermediateOperator.Sort: return m.sorts[ts(p)]
    return 1


def check_plan(c, m, p, q):
    """recomputes the cost of the returned plan, bottom up"""
    kids = sum(check_plan(c, m, k, q) for k in p.children)
    cost = own(m, p) + kids
    expect("cost at every node", cost, p.estimated_cost)
    if p.operator in ScanOperator:
        expect("filter of a scan", q.predicates().filters_for(p.base_table), p.filter_predicate)
    if p.operator == JoinOperator.SortMergeJoin and c["pg"]:
        o, i = p.children
        keys = [{str(x) for x in k.sort_keys[0].equivalence_class} if k.sort_keys else set() for k in (o, i)]
        pairs = [(str(a), str(b)) for a, b in itertools.chain(*(j.join_partners() for j in q.joins()))]
        require("inputs of a merge join are sorted by the join key", any((a in keys[0] and b in keys[1]) or (b in keys[0] and a in keys[1]) for a, b in pairs), keys)
        for k in (o, i):
            if k.operator == IntermediateOperator.Sort: require("sorting is enabled", c["sort"])
    return cost


def setup(c):
    n = c["n"]
    gs = [sorted(e) for e in c["g"]]
    cols = {t: {colname(t, x): ("secondary" if [t, x] in c["idx"] else "none") for x in [*range(1, n + 1), 8, 9] if x > 7 or sorted((t, x)) in gs} for t in range(1, n + 1)}
    schema = FakeSchema({T(t).full_name: cols[t] for t in cols})
    ops = {OPS[o] for o in c["sops"] + c["jops"]}
    name = lambda t: T(t).identifier()
    preds = [f"{name(a)}.{colname(a, b)} = {name(b)}.{colname(b, a)}" for a, b in map(sorted, c["g"])]
    preds += [f"{name(t)}.f > {t}" for t in c["f"]]
    k = sum(map(sum, c["g"])) + len(preds)
    if preds: preds = preds[k % len(preds):] + preds[:k % len(preds)]
    tabs = list(range(1, n + 1)); tabs = tabs[k % n:] + tabs[:k % n]
    sel = "*" if c["star"] else "count(*)"
    q = parse_query(f"SELECT {sel} FROM " + ", ".join(str(T(t)) for t in tabs) + (" WHERE " + " AND ".join(preds) if preds else ""))
    cards = {frozenset(s): v for s, v in c["cards"]}
    scans = {tuple(p): v for p, v in c["scans"]}
    joins = {(o, frozenset(a), frozenset(b)): v for o, a, b, v in c["joins"]}
    sorts = {frozenset(s): v for s, v in c["sorts"]}
    return schema, ops, q, cards, scans, joins, sorts


def go(ck):
    def f(c):
        schema, ops, q, cards, scans, joins, sorts = setup(c)
        est, cm = Est(cards), Cost(scans, joins, sorts, cards)
        before = (str(q), set(q.columns()))
        opt = {frozenset(s): v for s, v in c["opt"]}[frozenset(range(1, c["n"] + 1))]
        sops, jops = {OPS[o] for o in c["sops"]}, {OPS[o] for o in c["jops"]}
        every_s, every_j = set(ScanOperator), {JoinOperator.NestedLoopJoin, JoinOperator.HashJoin, JoinOperator.SortMergeJoin}
        db = (PG if c["pg"] else DB)(schema, None)
        # the allowed operators can be restricted by the user, by the database or by both
        for how in range(3 if c["n"] < 4 else 1):
            db._h = Hinting(set(OPS.values()) if how == 0 else ops if how == 1 else ops | {ScanOperator.SequentialScan} | jops)
            kw = dict(target_db=db)
            if how != 1: kw |= dict(supported_scan_ops=sops, supported_join_ops=jops if how == 0 else jops | every_j)
            if how == 2: db._h = Hinting(jops | every_s)
            if c["pg"]:
                e = PostgresDynProg(enable_sort=c["sort"], enable_materialize=how != 1, enable_memoize=how != 2, **kw)
            else:
                e = DynamicProgrammingEnumerator(**kw)
            ck.steps += 1
            for again in range(2):
                ck.act("enumerate " + ("postgres" if c["pg"] else "default"))
                est.start([], db); cm.start([], db)
                try:
                    p = e.generate_execution_plan(q, cost_model=cm, cardinality_estimator=est)
                except Exception as x:
                    from vk.core import Mismatch
                    if isinstance(x, Mismatch) or opt < 9999: raise
                    p = None
                require("cost model is released", cm.live == 0)
                require("cardinality estimator is released", est.live == 0)
                if p is None:
                    ck.act("no plan"); continue
                require("a plan exists", opt < 9999)
                expect("tables of the plan", set(range(1, c["n"] + 1)), set(ts(p)))
                expect("scanned tables", sorted(range(1, c["n"] + 1)), sorted(no(t) for t in p.iternodes() if False) or sorted(no(x.base_table) for x in leaves(p)))
                expect("cost of the plan", opt, check_plan(c, cm, p, q))
                expect("query is left alone", before, (str(q), set(q.columns())))
            if opt < 9999 and how == 0:
                ck.act("estimator fails")
                est.start([], db, fail_at=1 + c["cards"][0][1] % max(1, est.calls)); cm.start([], db)
                fails(e, q, cm, est)
                est.start([], db); cm.start([], db, fail_at=1 + c["cards"][0][1] % max(1, cm.calls or 3))
                fails(e, q, cm, est)
    return f


def fails(e, q, cm, est):
    try:
        e.generate_execution_plan(q, cost_model=cm, cardinality_estimator=est)
    except Boom:
        pass
    require("cost model is released after a failure", cm.live == 0)
    require("cardinality estimator is released after a failure", est.live == 0)


def leaves(p):
    return [p] if not p.children else [x for k in p.children for x in leaves(k)]


def run(ck):
    S = ["SequentialScan", "IndexScan", "IndexOnlyScan", "BitmapScan"]
    J = ["NestedLoopJoin", "HashJoin", "SortMergeJoin"]
    sub = lambda X: frozenset(frozenset(s) for k in range(1, len(X) + 1) for s in itertools.combinations(X, k))
    some = frozenset({frozenset(S), frozenset(S[:1]), frozenset(S[1:]), frozenset(S[3:])})
    inv = ("Optimal", "Complete", "Affordable", "Emit")
    fl = frozenset({"default", "postgres", "postgres-nosort"})
    base = dict(Flavors=fl, ScanChoices=sub(S), JoinChoices=sub(J), MaxIdx=1, Sim=False)
    q = ck.quick
    jobs = [("C12", dict(label="one/two", constants=base | dict(Sizes={1, 2}, Salts={3, 10} if q else set(range(1, 9)), ScanChoices=some if q else sub(S)), invariants=inv)),
            ("C12", dict(label="three", constants=base | dict(Sizes={3}, Salts={7} if q else {7, 12, 22}, ScanChoices=frozenset({frozenset(S)}), MaxIdx=0 if q else 1), invariants=inv)),
            ("C12", dict(label="three sim", constants=base | dict(Sizes={2, 3}, Salts=set(range(1, 200)), Sim=True), invariants=inv, sim=300 if q else 5000, depth=9, seed=ck.seed)),
            ("C12", dict(label="four", constants=base | dict(Sizes={4}, Salts=set(range(1, 200)), Sim=True), invariants=inv, sim=400 if q else 5000, depth=18, seed=ck.seed + 1)),
            ("C12", dict(label="five", constants=base | dict(Sizes={5}, Salts=set(range(1, 200)), Sim=True), invariants=inv, sim=60 if q else 1500, depth=34, seed=ck.seed + 2))]
    for r in tlc.run_many(jobs, parallel=4):
        ck.replay(ck.add_run(r), go(ck), kind="plan space " + r.label, limit=60)
    ck.assumptions += ["cost models are additive with own costs that depend on the operator and the joined sets; total costs below 100, so that PostgreSQL's fuzzy comparison is exact"]
