import math, os, tempfile, warnings
warnings.simplefilter("ignore")
from postbound import ColumnReference, IntermediateOperator, JoinOperator, JoinTree, QueryPlan, ScanOperator, TableReference, util
from postbound.opt.tonic import QepsIdentifier, TonicOperatorSelection
from postbound.parser import parse_query
from postbound.qal import ColumnExpression
from vk.core import expect, require

OPS = {"hash": JoinOperator.HashJoin, "merge": JoinOperator.SortMergeJoin, "nestloop": JoinOperator.NestedLoopJoin}
RELS = ["t1", "t2", "t3", "t4", "t5"]


class Query:
    def __init__(self, n, q, plain):
        self.n, self.q, self.plain = n, q, plain
        self.refs = [self.ref(r) for r in range(1, len(q["rel"]) + 1)]
        self.parsed = {}

    def ref(self, r):
        q, rel = self.q, self.q["rel"][r - 1]
        if self.plain and q["rel"].count(rel) == 1: return TableReference(RELS[rel - 1])
        return TableReference(RELS[rel - 1], f"{'zyxwv'[r - 1] if q['rev'] else 'abcde'[r - 1]}")

    def tabs(self, rs): return frozenset(self.refs[r - 1] for r in rs)

    def sql(self, rs):
        """The query over these tables"""
        key = tuple(sorted(rs))
        if key not in self.parsed:
            refs = [self.refs[r - 1] for r in key]
            conds = [f"{a.identifier()}.x = {b.identifier()}.y" for a, b in zip(refs, refs[1:])]
            conds += [f"{self.refs[r - 1].identifier()}.z = {f}" for r in key if (f := self.q["filter"][r - 1])]
            if self.n % 2: conds.reverse()
            text = f"SELECT * FROM {', '.join(f'{t.full_name} AS {t.alias}' if t.alias else t.full_name for t in refs)} WHERE {' AND '.join(conds)}"
            self.parsed[key] = parse_query(text, bind_columns=False)
        return self.parsed[key]


def leaves(t): return [t[0]] if len(t) == 1 else leaves(t[0]) + leaves(t[1])


def join_tree(q, t):
    return JoinTree.scan(q.refs[t[0] - 1]) if len(t) == 1 else JoinTree.join(join_tree(q, t[0]), join_tree(q, t[1]))


def plan(q, t, joins, bits, actual=True, est=7):
    """`joins` maps the tables of each join to operator and cost. Nodes around the joins make no difference."""
    def wrap(p, b):
        for kind in ([], [], [("Hash", None)], [("Sort", IntermediateOperator.Sort), ("Hash", None)], [("Materialize", IntermediateOperator.Materialize)])[b % 5]:
            p = QueryPlan(kind[0], operator=kind[1], children=[p], estimated_cost=p.estimated_cost + 500, **cards(p.tables()))
        return p
    def cards(ts): return dict(estimated_cardinality=est, actual_cardinality=100 + len(ts)) if actual else dict(estimated_cardinality=est)
    def go(t, outer):
        nonlocal bits
        bits, b = divmod(bits, 7)
        if len(t) == 1:
            ref, kw = q.refs[t[0] - 1], {}
            if outer and b % 3 == 0: kw = dict(lookup_key=ColumnExpression(ColumnReference("y", outer)))      # a parameterized index scan
            scan = QueryPlan("Index Scan" if kw else "Seq Scan", operator=ScanOperator.IndexScan if kw else ScanOperator.SequentialScan, base_table=ref, estimated_cost=900, **kw, **cards([ref]))
            return scan if kw else wrap(scan, b)
        tabs = q.tabs(leaves(t))
        op, cost = joins[tabs]
        left = go(t[0], None)
        right = go(t[1], q.refs[leaves(t[0])[0] - 1])
        return wrap(QueryPlan("Join", operator=OPS[op], children=[left, right], estimated_cost=cost, **cards(tabs)), b)
    p = go(t, None)
    return QueryPlan("Aggregate", children=[p], estimated_cost=999, **cards([])) if bits % 2 else p


class Hinted:
    """A query together with its hints"""
    def __init__(self, query, **hints): self.query, self.hints = query, hints
    def __getattr__(self, name): return getattr(self.query, name)


def native(rs, op): return 1 + (sum(rs) + {"hash": 0, "merge": 2, "nestloop": 3}[op]) % 4


class Server:
    """Stands in for the database: it follows the hints, and has a plan of its own for queries without hints"""
    def __init__(self): self.own = None; self.wrong = self.seen = self.q = self.tree = None; self.bits = 0
    def optimizer(self): return self
    def hinting(self): return self
    def supports_hint(self, hint): return hint in OPS.values()
    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        base = query.query if isinstance(query, Hinted) else query
        return Hinted(base, plan=plan, join_order=join_order, operators=physical_operators)
    def follow(self, hints, cost):
        require("explored along the join order", hints["join_order"] == join_tree(self.q, self.tree), hints["join_order"])
        picked = {a.join: a.operator for a in hints["operators"].join_operators.values()}
        names = {o: n for n, o in OPS.items()}
        joins = {}
        def visit(t):
            if len(t) == 1: return
            visit(t[0]); visit(t[1])
            tabs = self.q.tabs(leaves(t))
            require("every join is explored with an operator", tabs in picked, picked)
            name = names[picked[tabs]]
            joins[tabs] = (name, cost(leaves(t), name))
        visit(self.tree)
        require("only joins are explored", set(joins) == set(picked), picked)
        return joins
    def analyze_plan(self, query):
        if not isinstance(query, Hinted): return self.wrong
        joins = self.follow(query.hints, lambda rs, op: 333)
        self.seen.append(frozenset((k, v[0]) for k, v in joins.items()))
        p = plan(self.q, self.tree, joins, self.bits)
        p.hints = query.hints
        self.last = query.hints
        return p
    def query_plan(self, query):
        if not isinstance(query, Hinted): return self.wrong or self.own
        p = query.hints["plan"]
        if p is None:
            return plan(self.q, self.tree, self.follow(query.hints, lambda rs, op: 444), self.bits, actual=False)
        require("costs are asked for with the true cardinalities", all(n.estimated_cardinality.get() > 100 for n in p.iternodes() if n.is_join() or n.is_scan()), p)
        if self.wrong is not None: return self.own
        return plan(self.q, self.tree, self.follow(self.last, native), self.bits, actual=False)


def advice(what, q, want, got):
    want = {q.tabs(w["s"]): {OPS[o] for o in w["o"]} for w in want if w["o"]}
    got = {frozenset(join): a.operator for join, a in got.join_operators.items()}
    require(f"{what}: an operator for exactly the joins with something to choose from", set(want) == set(got), (want, got))
    for tabs, ops in want.items(): require(f"{what}: the operator with the lowest cost", got[tabs] in ops, (tabs, ops, got))


def replay(ck):
    def go(case):
        cfg, k = case["cfg"], len(str(case))
        server = Server()
        tonic = TonicOperatorSelection(cfg["aware"], cfg["gamma"] / 2, database=server)
        qs = [Query(n, q, (k + n) % 2) for n, q in enumerate(case["qs"], 1)]
        with tempfile.TemporaryDirectory(prefix="vk-c27-") as d, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for n, s in enumerate(case["h"]):
                ck.steps += 1; ck.act(s["op"])
                tonic = step(tonic, server, qs, s, n, k * 7919 + n * 104729, d, cfg)
            costs(tonic, case)
            for i, q in enumerate(qs):
                for f in case["final"][i]:
                    advice("finally", q, f["want"], tonic.select_physical_operators(q.sql(leaves(f["tree"])), join_tree(q, f["tree"])))
            costs(tonic, case)
    return go


def costs(tonic, case):
    known = {}
    for c in case["costs"]: known.setdefault(str(c["p"]), (c["p"], {}))[1][OPS[c["o"]]] = c["c"] / 65536
    for path, want in known.values():
        node = tonic.qeps.root
        for x in path:
            if not x["s"]: node = node.subquery_root; continue
            tabs = [TableReference(RELS[r - 1]) for r in x["s"]]
            pred = parse_query(f"SELECT * FROM {tabs[0].full_name} WHERE {tabs[0].full_name}.z = {x['f']}", bind_columns=False).predicates().root if x["f"] else None
            node = node.child_nodes[QepsIdentifier(tabs, pred)]
        got = dict(node.operator_costs)
        require("learned costs", set(got) == set(want) and all(math.isclose(got[o], want[o], rel_tol=1e-9) for o in want), (path, want, got))


def step(tonic, server, qs, s, n, bits, folder, cfg):
    op = s["op"]
    if op == "reset": tonic.reset(); return tonic
    if op == "reload":
        file = os.path.join(folder, f"m{n}.json")
        with open(file, "w") as f: f.write(util.to_json(tonic))
        return TonicOperatorSelection.load_model(file, server)
    q, t = qs[s["k"] - 1], s["tree"]
    sql, tree = q.sql(leaves(t)), join_tree(q, t)
    server.q, server.tree, server.bits = q, t, bits
    server.wrong = server.own = None
    if op in ("integrate", "feedback"):
        joins = {q.tabs(j["s"]): (j["o"], j["c"]) for j in s["joins"]}
        p = plan(q, t, joins, bits, actual=False)
        if op == "feedback":
            server.own, server.wrong = p, plan(q, t, {k: (v[0], 700) for k, v in joins.items()}, bits // 3)
            tonic.simulate_feedback(sql)
        elif n % 2: server.own = p; tonic.integrate_cost(sql)
        else: tonic.integrate_cost(sql, p)
    elif op == "recommend":
        if n % 3 == 0:
            server.own = plan(q, t, {q.tabs(w["s"]): ("hash", 1) for w in s["want"]}, bits)
            got = tonic.select_physical_operators(sql, None if n % 2 else JoinTree.empty())
        else: got = tonic.select_physical_operators(sql, tree)
        advice("recommend", q, s["want"], got)
    elif op == "unknown":
        got = tonic.qeps.detect_unknown_costs(sql, tree, {OPS[o] for o in s["ops"]} if n % 2 else frozenset(OPS[o] for o in s["ops"]))
        expect("unknown costs", {q.tabs(w["s"]): {OPS[o] for o in w["o"]} for w in s["want"] if w["o"]}, {k: set(v) for k, v in got.items()})
    elif op == "explore":
        server.seen = []
        server.own = plan(q, t, {k: ("hash", 1) for k in map(frozenset, (j.tables() for j in tree.iterjoins()))}, 0)
        kw = {} if s["n"] < 0 else dict(max_combinations=s["n"])
        tonic.explore_costs(sql, None if n % 2 and s["n"] < 0 else tree, allowed_operators=[OPS[o] for o in s["ops"]], **kw)
        m = len(s["ops"]) ** (len(leaves(t)) - 1)
        require("every combination is explored once", len(server.seen) == m == len(set(server.seen)), server.seen)
    elif op == "sample":
        server.seen = []
        other = TonicOperatorSelection(cfg["aware"], cfg["gamma"] / 2, database=server)
        other.explore_costs(sql, tree, allowed_operators=[OPS[o] for o in s["ops"]] if n % 2 else None, max_combinations=s["n"])
        require("sampled combinations are different ones, and not too many", 1 <= len(server.seen) == len(set(server.seen)) <= s["n"], server.seen)
    return tonic


def sig(case, clause): return clause


def run(ck):
    from vk.tlc import run_many
    inv, props = ["Positive", "OnePath", "Emit"], ["Keeps", "Latest"]
    job = lambda label, n, m, sims, seed: ("C27", dict(label=label, constants=dict(N=n, MaxLen=m, Sim=True), invariants=inv, properties=props, sim=sims if ck.quick else sims * 20, depth=m + 2, seed=seed))
    jobs = [("C27", dict(label="all short histories over three tables", constants=dict(N=3, MaxLen=2, Sim=False), invariants=inv, properties=props)),
            job("random histories over three tables", 3, 10, 100, ck.seed), job("random histories over four tables", 4, 10, 200, ck.seed + 1),
            job("random histories over five tables", 5, 12, 150, ck.seed + 2)]
    cases = []
    for r in run_many(jobs, 4):
        found = ck.add_run(r)
        step = 1 if r.label.startswith("random") else 12 if ck.quick else 2
        cases += found[ck.seed % step::step]
    ck.replay(cases, replay(ck), sig=sig)
