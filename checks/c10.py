import math, warnings
import postbound as pb
from postbound import (TableReference, ColumnReference, Cardinality, QueryPlan, ScanOperator, JoinOperator, IntermediateOperator,
                       LogicalJoinTree, PhysicalOperatorAssignment, PlanParameterization)
from postbound._qep import Subplan, PlanMeasures, PlanParams, PlanEstimates
from postbound._hints import jointree_from_plan, operators_from_plan, parameters_from_plan
from postbound.opt._helpers import to_query_plan, explode_query_plan, update_plan
from postbound import qal
from postbound.parser import parse_query
from vk import tlc
from vk.core import expect, require, Mismatch
from checks.c08 import T as T8

OPS = {o.name: o for e in (ScanOperator, JoinOperator, IntermediateOperator) for o in e}


def T(i):
    return TableReference.create_virtual(f"v{i - 100}") if i >= 100 else T8(i)


def no(t):
    return 100 + int(t.alias[1:]) if t.virtual else int(t.full_name[1:])


def ts(x):
    return sorted(no(t) for t in x)


def num(x):
    if x is None:
        return -1
    v = x.get() if isinstance(x, Cardinality) else x
    return -1 if math.isnan(v) else v


def val(x):
    return math.nan if x == -1 else x


def card(x):
    return Cardinality.unknown() if x == -1 else Cardinality(x)


def column(c):
    return ColumnReference(f"c{c[1]}", T(c[0]))


def predicate(cols):
    cols = sorted(map(tuple, cols))
    if not cols:
        return None
    if len(cols) == 1:
        return qal.as_predicate(column(cols[0]), qal.LogicalOperator.Equal, 1) if hasattr(qal, "as_predicate") else None
    return qal.as_predicate(column(cols[0]), qal.LogicalOperator.Equal, column(cols[1]))


def build(n):
    kw = {}
    if n["sub"]:
        s = n["sub"][0]
        kw["subplan"] = Subplan(build(s["root"]), T(s["target"]).alias if s["target"] else "")
    if n["x"]:
        kw["custom"] = n["x"]
    return QueryPlan(OPS[n["op"]] if n["op"] else n["name"], children=[build(c) for c in n["ch"]], base_table=T(n["t"]) if n["t"] else None,
                     filter_predicate=predicate(n["flt"]), parallel_workers=n["w"], index=n["ix"], estimated_cardinality=card(n["est"]),
                     estimated_cost=val(n["cost"]), actual_cardinality=card(n["act"]), execution_time=val(n["time"]),
                     cache_hits=None if n["hits"] == -1 else n["hits"], **kw)


def dump(p):
    op = p.operator
    if op is not None:
        expect("node type of an operator", op.name, p.node_type)
        k = "scan" if isinstance(op, ScanOperator) else "join" if isinstance(op, JoinOperator) else "aux"
    else:
        k = "leaf" if p.node_type.startswith("Bitmap") else "aux"
    f = p.filter_predicate
    return {"k": k, "name": p.node_type, "op": op.name if op else "", "t": no(p.base_table) if p.base_table else 0, "ch": [dump(c) for c in p.children],
            "sub": [{"root": dump(p.subplan.root), "target": no(T_v(p.subplan.target_name)) if p.subplan.target_name else 0}] if p.subplan else [],
            "est": num(p.estimated_cardinality), "cost": num(p.estimated_cost), "act": num(p.actual_cardinality), "time": num(p.execution_time),
            "hits": num(p.measures.cache_hits), "w": p.parallel_workers, "ix": p.params.index, "x": p.get("custom", 0),
            "flt": sorted([no(c.table), int(c.name[1:])] for c in f.columns()) if f else []}


def T_v(name):
    return TableReference.create_virtual(name)


def norm(n):
    return {**n, "flt": sorted(n["flt"]), "ch": [norm(c) for c in n["ch"]], "sub": [{**s, "root": norm(s["root"])} for s in n["sub"]]}


def mark(p):
    return {"name": p.node_type, "tabs": ts(p.tables()), "est": num(p.estimated_cardinality), "act": num(p.actual_cardinality), "t": no(p.base_table) if p.base_table else 0}


def sm(m):
    return {**m, "tabs": sorted(m["tabs"])}


def tree(t):
    if t.is_scan():
        return {"k": "scan", "t": no(t.base_table), "ann": num(t.annotation)}
    return {"k": "join", "o": tree(t.outer_child), "i": tree(t.inner_child), "ann": num(t.annotation)}


def show_ops(a):
    r = [([no(t)], e.operator.name, "scan") for t, e in a.scan_operators.items()]
    for t, e in a.scan_operators.items():
        expect("table of a scan assignment", t, e.table)
    for k, e in a.join_operators.items():
        expect("tables of a join assignment", ts(k), ts(e.join))
        r.append((ts(k), e.operator.name, "join"))
    r += [(ts(k), e.name, "aux") for k, e in a.intermediate_operators.items()]
    expect("no global operators are invented", {}, dict(a.global_settings))
    return sorted(r)


def show_map(d):
    return sorted((ts(k), num(v)) for k, v in d.items())


PROBES = {"is_join": lambda p: p.is_join(), "no_op": lambda p: p.operator is None, "big": lambda p: num(p.estimated_cardinality) > 5}


def observe(p, o, n):
    expect("tables", sorted(o["tabs"]), ts(p.tables()))
    expect("columns", sorted(o["cols"]), sorted([no(c.table), int(c.name[1:])] for c in p.columns()))
    expect("depth", o["depth"], p.plan_depth()); expect("length", o["depth"], len(p))
    leaf = not o["tabs"]
    if leaf:
        return
    scan = p.is_scan()
    expect("is_linear", o["linear"], p.is_linear()); expect("is_bushy", not o["linear"], p.is_bushy())
    expect("is_left_deep", o["left"], p.is_left_deep()); expect("is_right_deep", o["right"], p.is_right_deep())
    expect("is_zigzag", scan or (o["linear"] and not o["left"] and not o["right"]), p.is_zigzag())
    expect("is_scan_branch", o["branch"], bool(p.is_scan_branch())); expect("is_base_join", o["basejoin"], bool(p.is_base_join()))
    bt = p.fetch_base_table()
    expect("fetch_base_table", o["base"], no(bt) if bt else 0)
    expect("outermost_scan", sm(o["outermost"]), mark(p.outermost_scan()))
    expect("iternodes", [sm(m) for m in o["post"]], [mark(x) for x in p.iternodes()])
    expect("iteration", [sm(m) for m in o["pre"]], [mark(x) for x in p])
    for l in o["lookup"]:
        S = [T(i) for i in l["s"]]
        for needle in (S, set(S), *(S if len(S) == 1 else [])):
            r = p.lookup(needle)
            expect("lookup", None if not l["r"]["name"] else sm(l["r"]), None if r is None else mark(r))
        expect("containment of tables", set(l["s"]) <= set(o["tabs"]), S in p)
        if len(S) == 1:
            expect("containment of a table", l["s"][0] in o["tabs"], S[0] in p)
    for k, f in PROBES.items():
        for d, kk in (("outer", "o"), ("inner", "i")):
            e, r = o["first"][k][kk], p.find_first_node(f, direction=d)
            expect("find_first_node", None if not e["name"] else sm(e), None if r is None else mark(r))
        expect("find_all_nodes", o["count"][k], len(list(p.find_all_nodes(f))))
    for e, aux in ((o["cout"], True), (o["coutcore"], False)):
        if e != ["unspecified"]:
            c = p.cout(include_auxiliaries=aux)
            expect("cout", -1 if e == ["undefined"] else e[0], num(c))
    q = p.qerror()
    if o["qerror"]: require("qerror", math.isclose(q, o["qerror"][0] / o["qerror"][1]), q)
    else: require("qerror is undefined", math.isnan(q), q)
    expect("operator_time", o["optime"][0] if o["optime"] else -1, num(p.operator_time))
    for src, k in (("estimated", "e"), ("actual", "a")):
        t = jointree_from_plan(p, card_source=src)
        require("kind of join tree", isinstance(t, LogicalJoinTree))
        expect("join tree", o["tree"][k], tree(t))
    if o["hassub"]:
        return
    ops = sorted((sorted(x["k"]), x["op"], x["kind"]) for x in o["ops"])
    a = operators_from_plan(p)
    expect("operators of the plan", ops, show_ops(a))
    for e in [*a.scan_operators.values(), *a.join_operators.values()]:
        require("no workers unless requested", math.isnan(e.parallel_workers))
    aw = operators_from_plan(p, include_workers=True)
    expect("operators of the plan (with workers)", ops, show_ops(aw))
    for x in p.iternodes():
        if not x.is_auxiliary():
            e = aw.get(x.tables())
            expect("workers of an operator", x.parallel_workers, 0 if math.isnan(e.parallel_workers) else e.parallel_workers)
    m = lambda s: sorted((sorted(x["k"]), x["e"]) for x in s)
    for i, kw in enumerate((dict(target_cardinality="estimated"), dict(target_cardinality="actual"), dict(target_cardinality="actual", fallback_estimated=True))):
        q = parameters_from_plan(p, **kw)
        expect("cardinalities of the plan", m(o["cards"][i]), show_map(q.cardinalities))
        expect("workers of the plan", m(o["works"]), show_map(q.parallel_workers))
        expect("no other parameters", ({}, None), (dict(q.system_settings), q.execution_mode))
    for src, i in (("estimated", 0), ("actual", 1)):
        jt, eo, ep = explode_query_plan(p, card_source=src)
        expect("explode: tree", o["tree"][src[0]], tree(jt)); expect("explode: operators", ops, show_ops(eo)); expect("explode: cardinalities", m(o["cards"][i]), show_map(ep.cardinalities))
        q = parameters_from_plan(jt)
        inner = sorted((ts(x.tables()), num(x.annotation)) for x in jt.iternodes() if num(x.annotation) != -1)
        expect("cardinalities of a join tree", inner, show_map(q.cardinalities))


def make_query(tabs, q):
    preds = [f"a{t}.c1 = 1" for t in sorted(q["f"])] + [f"a{a}.c2 = a{b}.c2" for a, b in sorted(q["e"])]
    preds = [x.replace("a2.", "t2.").replace("a4.", "t4.") for x in preds]
    frm = ", ".join(f"t{t} AS a{t}" if t % 2 else f"t{t}" for t in sorted(tabs))
    return parse_query(f"SELECT * FROM {frm}" + (" WHERE " + " AND ".join(preds) if preds else ""))


def parts(p, drop):
    ops = operators_from_plan(p)
    keep = PhysicalOperatorAssignment()
    for t, e in ops.scan_operators.items():
        if [no(t)] not in drop: keep.add(e)
    for k, e in ops.join_operators.items():
        if ts(k) not in drop: keep.add(e)
    for k, e in ops.intermediate_operators.items():
        if ts(k) not in drop: keep.add(e, k)
    return keep


def go(ck):
    def f(c):
        warnings.simplefilter("ignore")
        pool = []
        for s in c["h"]:
            ck.steps += 1; ck.act(s["op"])
            op, a = s["op"], s["args"]
            on = pool[s["on"] - 1] if s["on"] else None
            if op == "build": r = build(s["res"])
            elif op == "clone": r = on.clone()
            elif op == "deepclone": r = on.clone(deep=True)
            elif op == "canonical": r = on.canonical()
            elif op == "parallelize": r = on.parallelize(a[0])
            elif op == "with_estimates":
                r = on.with_estimates(cardinality=None if a[0] == -2 else card(a[0]), cost=None if a[1] == -2 else val(a[1]), keep_measures=a[2])
            elif op == "with_actual_card": r = on.with_actual_card(ignore_nan=a[0])
            elif op == "scale_cardinality": r = on.scale_cardinality(a[0], kind=a[1], recursive=a[2])
            elif op == "update_plan":
                ops, par = PhysicalOperatorAssignment(), PlanParameterization()
                for e in a[1]:
                    k = [T(t) for t in e["k"]]; o, cd, w = e["a"]
                    if o: ops.add(OPS[o], k)
                    if cd != -1: par.add_cardinality(k, cd)
                    if w: par.set_workers(k, w)
                r = update_plan(on, operators=ops, params=par, simplify=a[0])
            elif op == "recompose":
                drop = [sorted(x) for x in a[1]]
                jt, _, par = explode_query_plan(on, card_source=a[0])
                keep = parts(on, drop)
                q = make_query(ts(on.tables()), a[5]) if a[4] else None
                r = to_query_plan(jt, query=q, physical_ops=keep, plan_params=par, scan_op=OPS[a[2]], join_op=OPS[a[3]]) if keep else None
            elif op == "simple":
                jt, _, par = explode_query_plan(on, card_source=a[0])
                r = to_query_plan(jt, scan_op=OPS[a[1]], join_op=OPS[a[2]], plan_params=parameters_from_plan(on) if a[3] else None)
            if r is None:      # no operator is left: not an assignment to compose a plan from
                ck.skipped += 1
                return
            expect(op + " result", norm(s["res"]), dump(r))
            pool.append(r)
        for p, s in zip(pool, c["h"]):
            expect("plans are not changed by later operations", norm(s["res"]), dump(p))
        obs = c["obs"]
        for p, o in zip(pool[len(pool) - len(obs):], obs):
            observe(p, o, ck.n)
        for p, s in zip(pool, c["h"]):
            expect("plans are not changed by reading", norm(s["res"]), dump(p))
        eq = {tuple(p) for p in c["eq"]}
        for i, x in enumerate(pool):
            for j, y in enumerate(pool):
                expect("equality", (i + 1, j + 1) in eq, x == y)
                if (i + 1, j + 1) in eq: expect("equal plans have equal hashes", hash(x), hash(y))
        for i, s in enumerate(c["h"]):   # copies share no state with their origin
            if s["op"] in ("clone", "deepclone"):
                pool[i].params["custom"] = 99 + i; pool[i].estimates["own"] = i
                require("copies are independent", pool[s["on"] - 1].get("custom") != 99 + i and pool[s["on"] - 1].get("own") != i)
    return f


def run(ck):
    q = ck.quick
    base = dict(ScanOps={"SequentialScan", "IndexScan", "IndexOnlyScan"}, JoinOps={"HashJoin", "NestedLoopJoin", "SortMergeJoin"},
                AuxOps={"Sort", "Materialize"}, AuxNames={"Hash", "Aggregate", "Gather"}, Cards={0, 1, 4, 9, 50})
    inv = ["WellFormed", "RoundTrip", "Emit"]
    jobs = [
        (2, dict(label="all pairs of operations", constants=dict(base, ScanOps={"IndexScan"}, JoinOps={"HashJoin"}, AuxOps={"Sort"}, AuxNames={"Hash"}, Cards={9}, N=2, MaxLen=2, Sim=False), invariants=inv)),
        (3, dict(label="random histories, 3 tables", constants=dict(base, N=3, MaxLen=8, Sim=True), invariants=inv, sim=500 if q else 8000, depth=12, seed=ck.seed)),
        (4, dict(label="random histories, 4 tables", constants=dict(base, N=4, MaxLen=14, Sim=True), invariants=inv, sim=500 if q else 8000, depth=18, seed=ck.seed + 1)),
        (4, dict(label="random histories, few values", constants=dict(base, ScanOps={"SequentialScan"}, JoinOps={"HashJoin"}, Cards={4}, N=4, MaxLen=12, Sim=True), invariants=inv, sim=300 if q else 6000, depth=15, seed=ck.seed + 2)),
    ]
    rs = tlc.run_many([("C10", k) for _, k in jobs], 4)
    for (n, _), r in zip(jobs, rs):
        ck.n = n
        ck.replay(ck.add_run(r), go(ck), sig=lambda c, cl: cl + " | " + "; ".join(f"{s['op']}{s['on']},{s['args']}" for s in c["h"]), kind=r.label)
