import itertools, random, zlib
import networkx as nx
import postbound as pb
from postbound.util import nx as nx_utils
from postbound import TableReference, ScanOperator, JoinOperator, JoinTree
from postbound.opt import enumeration as en, randomized as rnd
from postbound.parser import parse_query
from vk import tlc
from vk.core import expect, require, Mismatch
from checks.c08 import T, no

OPS = {o.name: o for e in (ScanOperator, JoinOperator) for o in e}


class Hinting:
    def __init__(self, ops): self.ops = ops
    def supports_hint(self, h): return h in self.ops


class DB:
    def __init__(self, ops): self.h = Hinting(frozenset(ops))
    def hinting(self): return self.h


def query(c, variant):
    n, rng = c["n"], random.Random(str(c["g"]) + str(variant))
    name = lambda t: T(t).identifier()
    preds = []
    for a, b in sorted(map(sorted, c["g"])):
        x, y = (a, b) if rng.random() < .5 else (b, a)
        preds.append(f"{name(x)}.k{a}{b} = {name(y)}.k{a}{b}")
        if variant and rng.random() < .3:
            preds.append(f"{name(y)}.m{a}{b} = {name(x)}.m{a}{b}")
    if variant:
        preds += [f"{name(t)}.f > {t}" for t in range(1, n + 1) if rng.random() < .4]
    rng.shuffle(preds)
    tabs = list(range(1, n + 1)); rng.shuffle(tabs)
    return parse_query("SELECT * FROM " + ", ".join(str(T(t)) for t in tabs) + (" WHERE " + " AND ".join(preds) if preds else ""))


def tree(x):
    if x.is_scan(): return (no(x.base_table),)
    return (tree(x.outer_child), tree(x.inner_child))


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def plan(p):
    if p.is_scan(): return (p.operator.name, no(p.base_table))
    return (p.operator.name, plan(p.outer_child), plan(p.inner_child))


def once(what, xs):
    xs = list(xs)
    require(what + " are not repeated", len(set(xs)) == len(xs), [x for x in xs if xs.count(x) > 1][:3])
    return set(xs)


def same(what, spec, impl):
    if spec != impl:
        raise Mismatch(what, {"missing in the implementation": sorted(spec - impl, key=str)[:5]}, {"only in the implementation": sorted(impl - spec, key=str)[:5]})


def show_scan(a):
    return frozenset((no(t), e.operator.name) for t, e in a.scan_operators.items())


def show_join(a):
    return frozenset((frozenset(no(t) for t in k), e.operator.name) for k, e in a.join_operators.items())


def refuses(f, what):
    try:
        f()
    except ValueError:
        return
    require(what, False)


def jt(x):
    return JoinTree.scan(T(x[0])) if len(x) == 1 else JoinTree.join(jt(x[0]), jt(x[1]))


def go(ck):
    def f(c):
        n = c["n"]
        spaces = {"bushy": {tup(x) for x in c["bushy"]}, "left-deep": {tup(x) for x in c["left"]}, "right-deep": {tup(x) for x in c["right"]}}
        sops, jops = ck.sops, ck.jops
        g = nx.Graph(); g.add_nodes_from(range(1, n + 1)); g.add_edges_from(map(tuple, c["g"]))
        walks = {tuple(w) for w in c["walks"]}
        ck.act("graph walks")
        same("frontier walks", walks, {tuple(w.nodes()) for w in nx_utils.nx_frontier_walks(g)})
        random.seed(ck.seed)
        for s in [None, *range(1, n + 1)] * 4:
            w = tuple(nx_utils.nx_random_walk(g, starting_node=s))
            require("random walk", w in walks and (s is None or w[0] == s), (s, w))
        for variant in (0, 1):
            q = query(c, variant)
            for shape, space in spaces.items():
                ck.steps += 1; ck.act("enumerate " + shape)
                e = en.ExhaustiveJoinOrderEnumerator(tree_structure=shape)
                if not c["ok"]:
                    refuses(lambda: list(e.all_join_orders_for(q)), "cross products are refused (exhaustive)")
                    refuses(lambda: next(rnd.RandomJoinOrderGenerator(tree_structure=shape).random_join_orders_for(q)), "cross products are refused (random)")
                    continue
                same(shape + " join orders", space, once(shape + " join orders", [tree(x) for x in e.all_join_orders_for(q)]))
                # random generation: membership, shape, base table, no repetitions
                random.seed(ck.seed * 1000003 + zlib.crc32(str(c["g"]).encode()) % 1000 + variant)
                k = min(len(space), 60)
                for dedupe in (False, True):
                    if dedupe and len(space) > 60: k = 30
                    ck.act("random " + shape)
                    g = rnd.RandomJoinOrderGenerator(dedupe, tree_structure=shape)
                    got = [tree(x) for x in itertools.islice(g.random_join_orders_for(q), k)]
                    for x in got:
                        require("random join order is in the space", x in space, x)
                    if dedupe: same("random join orders", set(got), set(once("random join orders", got)))
                    if dedupe and len(space) <= 60: same("all random join orders", space, set(got))
                    bases = range(1, n + 1) if n > 1 else []
                    for b in bases:
                        first = {tup(x) for x in c["first"][b - 1]}
                        allowed = (space & first) if shape == "bushy" else {x for x in space if leaf(x, shape) == b}
                        m = min(12, len(allowed))
                        for x in (tree(y) for y in itertools.islice(g.random_join_orders_for(q, base_table=T(b)), m)):
                            require("random join order starts with the base table", x in allowed, (b, x))
                o = rnd.RandomJoinOrderOptimizer(generator_args={"tree_structure": shape})
                require("random join order optimizer", tree(o.optimize_join_order(q)) in space)
            if not c["ok"]:
                continue
            # operators
            for x in [tup(y["x"]) for y in c["joins"]][:6] if c["joins"] else []:
                order = jt(x)
                sa = {frozenset(map(tuple, a)) for a in c["scans"]}
                ja = {frozenset((frozenset(k), o) for k, o in a) for y in c["joins"] if tup(y["x"]) == x for a in y["a"]}
                for db, kw in configs(sops, jops):
                    for sc, jn in ((True, True), (True, False), (False, True)):
                        ck.steps += 1; ck.act("enumerate operators")
                        e = en.ExhaustiveOperatorEnumerator(include_scans=sc, include_joins=jn, database=db, **kw)
                        got = once("operator assignments", [(show_scan(a), show_join(a)) for a in e.all_operator_assignments_for(q, order)])
                        want = set(itertools.product(sa if sc else [frozenset()], ja if jn else [frozenset()]))
                        same("operator assignments", want, got)
                        for dedupe in (False, True):
                            ck.act("random operators")
                            g = rnd.RandomOperatorGenerator(include_scans=sc, include_joins=jn, eliminate_duplicates=dedupe, database=db, **kw)
                            k = min(len(want), 25)
                            r = [(show_scan(a), show_join(a)) for a in itertools.islice(g.random_operator_assignments_for(q, order), k)]
                            for a in r: require("random assignment is in the space", a in want, a)
                            if dedupe: once("random assignments", r)
                        expect("necessary hints", frozenset(OPS[o] for o in sops | jops), g.necessary_hints())
                        a = rnd.RandomOperatorOptimizer(generator_args=dict(include_scans=sc, include_joins=jn, database=db, **kw)).select_physical_operators(q, order)
                        require("random operator optimizer", (show_scan(a), show_join(a)) in want)
            # whole plans
            plans = {tup(p) for p in c["plans"]}
            if plans:
                for db, kw in configs(sops, jops):
                    ck.steps += 1; ck.act("enumerate plans")
                    e = en.ExhaustivePlanEnumerator(operator_args=dict(database=db, **kw))
                    same("plans", plans, once("plans", [plan(p) for p in e.all_plans_for(q)]))
                    for dedupe in (False, True):
                        ck.act("random plans")
                        g = rnd.RandomPlanGenerator(eliminate_duplicates=dedupe, operator_args=kw, database=db)
                        r = [plan(p) for p in itertools.islice(g.random_plans_for(q), min(len(plans), 25))]
                        for p in r: require("random plan is in the space", p in plans, p)
                        if dedupe: once("random plans", r)
                    p = rnd.RandomPlanOptimizer(operator_args=kw, database=db).optimize_query(q)
                    require("random plan optimizer", plan(p) in plans)
    return f


def leaf(x, shape):
    while len(x) > 1:
        x = x[0] if shape == "left-deep" else x[1]
    return x[0]


def configs(sops, jops):
    s, j = [OPS[o] for o in sops], [OPS[o] for o in jops]
    every = [*ScanOperator, *JoinOperator]
    # restricted by the configuration, by the database, by both
    return [(DB(every), dict(scan_operators=s, join_operators=j)), (DB(s + j), {}),
            (DB([o for o in every if o not in (ScanOperator.BitmapScan, JoinOperator.SortMergeJoin)]),
             dict(scan_operators=s + [ScanOperator.BitmapScan], join_operators=j + [JoinOperator.SortMergeJoin]))]


def run(ck):
    q = ck.quick
    two = dict(ScanOps={"SequentialScan", "IndexScan"}, JoinOps={"HashJoin", "NestedLoopJoin"})
    inv = ["Complete", "NoTrees", "Linear", "WalksAreOrders", "Emit"]
    jobs = [
        (dict(label="all graphs up to 3 tables, all plans", constants=dict(two, Sizes={1, 2, 3}, MaxEdges=3, WithPlans=True, Sim=False, Walk=True), invariants=inv)),
        (dict(label="all graphs over 4 tables", constants=dict(two, Sizes={4}, MaxEdges=6, WithPlans=False, Sim=False, Walk=not q), invariants=inv)),
        (dict(label="random graphs over 5 tables", constants=dict(two, Sizes={5}, MaxEdges=5 if q else 8, WithPlans=False, Sim=True, Walk=False), invariants=["NoTrees", "Linear", "WalksAreOrders", "Emit"], sim=25 if q else 300, depth=3, seed=ck.seed)),
        (dict(label="three operators", constants=dict(ScanOps={"SequentialScan", "IndexScan", "IndexOnlyScan"}, JoinOps={"HashJoin"}, Sizes={1, 2, 3}, MaxEdges=2, WithPlans=True, Sim=False, Walk=False), invariants=inv)),
    ]
    rs = tlc.run_many([("C13", k) for k in jobs], 4)
    for k, r in zip(jobs, rs):
        ck.sops, ck.jops = k["constants"]["ScanOps"], k["constants"]["JoinOps"]
        ck.replay(ck.add_run(r), go(ck), sig=lambda c, cl: f"{cl} | {c['n']} {sorted(map(sorted, c['g']))}", kind=r.label)
