import math
import itertools
from postbound import (TableReference, ScanOperator, JoinOperator, IntermediateOperator, PhysicalOperatorAssignment, PlanParameterization,
                       ScanOperatorAssignment, JoinOperatorAssignment, DirectionalJoinOperatorAssignment, Cardinality)
from vk import tlc
from vk.core import expect, require

OPS = {o.name: o for e in (ScanOperator, JoinOperator, IntermediateOperator) for o in e}


def T(i):
    return TableReference(f"t{i}", f"a{i}" if i % 2 else "")


def no(t):
    return int(t.full_name[1:])


def W(w):
    return math.nan if w == 0 else w


def unw(w):
    return 0 if w is None or math.isnan(w) else w


def key(s):
    return tuple(sorted(no(t) for t in s))


def entry(e):
    if e is None:
        return None
    if isinstance(e, ScanOperatorAssignment):
        return {"op": e.operator.name, "w": unw(e.parallel_workers), "dir": False, "outer": []}
    d = e.is_directional()
    require("a directional assignment is one", d == isinstance(e, DirectionalJoinOperatorAssignment))
    r = {"op": e.operator.name, "w": unw(e.parallel_workers), "dir": d, "outer": list(key(e.outer)) if d else []}
    if d:
        expect("inner relation", key(e.join - e.outer), key(e.inner))
    return r


def table(m):
    return {tuple(sorted(x["k"])): ({**x["e"], "outer": sorted(x["e"]["outer"])} if isinstance(x["e"], dict) else x["e"]) for x in m}


def check_ops(o, a, n):
    """every lookup of the real store against the specification's store"""
    expect("global settings", {k: v == "on" for k, v in o["glob"].items() if v != "unset"}, {k.name: v for k, v in a.global_settings.items()})
    scan, join, inter = table(o["scan"]), table(o["join"]), table(o["inter"])
    expect("scan operators", scan, {(no(t),): entry(e) for t, e in a.scan_operators.items()})
    expect("join operators", join, {key(t): entry(e) for t, e in a.join_operators.items()})
    expect("intermediate operators", inter, {key(t): e.name for t, e in a.intermediate_operators.items()})
    for t, e in a.scan_operators.items(): expect("entry is stored under its table", t, e.table)
    for t, e in a.join_operators.items(): expect("entry is stored under its join", t, e.join); expect("intermediate alias", e.join, e.intermediate)
    dflt = object()
    for k in range(1, n + 1):
        for c in itertools.combinations(range(1, n + 1), k):
            want = scan.get(c) if k == 1 else join.get(c)
            forms = [[T(i) for i in c], {T(i) for i in c}, tuple(T(i) for i in reversed(c)), frozenset(T(i) for i in c)]
            if k == 1: forms.append(T(c[0]))
            for f in forms:
                expect("get", want, entry(a.get(f)))
                got = a.get(f, dflt)
                expect("get with default", want is None, got is dflt)
                expect("containment", want is not None, f in a)
            if k > 1:
                expect("item access by join", want, entry(a[forms[0]]))
                expect("item access by join", want, entry(a[forms[2]]))
            else:
                expect("item access by table", want, entry(a[T(c[0])]))
    for name, op in OPS.items():
        s = o["glob"].get(name, "unset")
        expect("item access by operator", None if s == "unset" else s == "on", a[op])
    rest = set(OPS) - set(o["glob"])
    expect("enabled by default", set(o["notoff"]) | rest, {x.name for x in a.get_globally_enabled_operators()})
    expect("enabled explicitly", set(o["on"]), {x.name for x in a.get_globally_enabled_operators(include_by_default=False)})
    expect("iteration", sorted(map(str, list(scan.values()) + list(join.values()))), sorted(str(entry(e)) for e in a))
    expect("truth value", bool(scan or join or inter or any(v != "unset" for v in o["glob"].values())), bool(a))
    str(a), a.inspect()


def check_pars(o, p, n):
    expect("cardinalities", table(o["card"]), {key(t): c.value for t, c in p.cardinalities.items()})
    require("cardinalities are wrapped", all(isinstance(c, Cardinality) for c in p.cardinalities.values()))
    expect("workers", table(o["work"]), {key(t): w for t, w in p.parallel_workers.items()})
    expect("system settings", {k: v for k, v in o["sys"].items() if v != "unset"}, p.system_settings)
    expect("execution mode", None if o["mode"] == "none" else o["mode"], p.execution_mode)
    str(p), p.inspect()


def replay(ck):
    def go(c):
        n = ck.n
        ops, pars = [PhysicalOperatorAssignment()], [PlanParameterization()]
        want = {}
        for s in c["h"]:
            ck.steps += 1; ck.act(s["op"])
            op, a, i = s["op"], s["args"], s["on"]
            tabs = lambda k: [T(x) for x in k]
            o = ops[i - 1] if i and i <= len(ops) else None
            p = pars[i - 1] if i and i <= len(pars) else None
            kind, idx, res = s["res"]
            new = None
            if op == "scan_plain":
                t = [T(a[0])] if a[2].endswith("list") else T(a[0])
                r = (o.add if a[2].startswith("add") else o.set_scan_operator)(OPS[a[1]], t)
            elif op == "scan_full":
                e = ScanOperatorAssignment(OPS[a[1]], T(a[0])) if a[2] == 0 else ScanOperatorAssignment(OPS[a[1]], T(a[0]), a[2])
                r = (o.add if a[3] == "add" else o.set_scan_operator)(e)
            elif op == "join_plain":
                t = tabs(a[0])
                if a[2].endswith("rev"): t.reverse()
                r = (o.add if a[2].startswith("add") else o.set_join_operator)(OPS[a[1]], t)
            elif op == "join_full":
                r = (o.add if a[3] == "add" else o.set_join_operator)(JoinOperatorAssignment(OPS[a[1]], tabs(a[0]), parallel_workers=W(a[2])))
            elif op == "join_dir":
                inner = [T(x) for x in a[0] if x not in a[3]]
                for bad in ((inner, []), ([], tabs(a[3]))):
                    try: DirectionalJoinOperatorAssignment(OPS[a[1]], *bad)
                    except ValueError: pass
                    else: require("a directional join has an inner and an outer relation", False, s)
                r = o.add(DirectionalJoinOperatorAssignment(OPS[a[1]], inner, tabs(a[3]), parallel_workers=W(a[2])))
            elif op == "inter":
                r = (o.add if a[2] == "add" else o.set_intermediate_operator)(OPS[a[1]], tabs(a[0]))
            elif op == "global":
                r = o.set(OPS[a[0]], a[1]) if not a[2] else o.set_operator_enabled_globally(OPS[a[0]], a[1], overwrite_fine_grained_selection=True)
            elif op == "new_ops": new = PhysicalOperatorAssignment()
            elif op == "clone": new = o.clone()
            elif op == "global_only": new = o.global_settings_only()
            elif op == "merge": new = o.merge_with(ops[a[0] - 1])
            elif op == "integrate":
                try:
                    new = o.integrate_workers_from(pars[a[0] - 1], fail_on_missing=a[1])
                except ValueError:
                    expect("workers without operator are refused only if requested", "error", kind)
                else:
                    require("workers without operator are refused if requested", kind != "error")
            elif op == "new_pars": new = PlanParameterization()
            elif op == "card": r = p.add_cardinality(tabs(a[0]) if a[1] % 2 else frozenset(tabs(a[0])), a[1] if a[1] % 2 else Cardinality(a[1]))
            elif op == "workers": r = p.set_workers(tabs(a[0]) if a[1] % 2 else reversed(tabs(a[0])), a[1])
            elif op == "system": r = p.set_system_settings(a[0], a[1]) if a[2] == "pair" else p.set_system_settings(**{a[0]: a[1]})
            elif op == "system_all": r = p.set_system_settings(**{k: a[0] for k in ck.names})
            elif op == "mode": p.execution_mode = a[0]; r = p
            elif op == "merge_pars": new = p.merge_with(pars[a[0] - 1])
            elif op == "drop_workers": new = p.drop_workers()
            else: raise AssertionError(op)
            if kind == "error":
                continue
            pool = ops if kind == "o" else pars
            if new is not None: pool.append(new); expect("pool", idx, len(pool))
            else: require("updates are chained", r is pool[idx - 1])
            want[kind, idx] = res
            (check_ops if kind == "o" else check_pars)(res, pool[idx - 1], n)
        for w, a in zip(c["ops"], ops): check_ops(w, a, n)
        for w, p in zip(c["pars"], pars): check_pars(w, p, n)
        eq = {tuple(x) for x in c["eq"]}
        for i, x in enumerate(ops):
            for j, y in enumerate(ops):
                e = (i + 1, j + 1) in eq
                expect("equality of assignments", e, x == y)
                if e: expect("hash of equal assignments", hash(x), hash(y))
    return go


def run(ck):
    q = ck.quick
    scan, join, inter = {"SequentialScan", "IndexScan"}, {"HashJoin", "NestedLoopJoin"}, {"Sort", "Memoize"}
    ck.names = ["geqo", "jit"]
    inv = ["MergeLaws", "OverwriteLaw", "Emit"]
    jobs = [
        (2, dict(label="all pairs of operations", constants=dict(N=2, ScanOps={"IndexScan"}, JoinOps={"HashJoin"}, InterOps={"Sort"}, Workers={2}, Cards={4}, Names={"geqo", "jit"}, MaxLen=2, MaxPool=3, Sim=False), invariants=inv, properties=["OneStore"])),
        (3, dict(label="random operation sequences, 3 tables", constants=dict(N=3, ScanOps=scan, JoinOps=join, InterOps=inter, Workers={1, 4}, Cards={3, 8}, Names={"geqo", "jit"}, MaxLen=24, MaxPool=4, Sim=True), invariants=["Emit"], sim=900 if q else 12000, depth=30, seed=ck.seed)),
        (2, dict(label="random operation sequences, 2 tables", constants=dict(N=2, ScanOps={"IndexScan"}, JoinOps=join, InterOps={"Sort"}, Workers={3}, Cards={5, 6}, Names={"geqo", "jit"}, MaxLen=20, MaxPool=5, Sim=True), invariants=["Emit"], sim=900 if q else 12000, depth=30, seed=ck.seed + 1)),
    ]
    if not q:
        jobs.append((2, dict(label="all triples of operations", constants=dict(N=2, ScanOps={"IndexScan"}, JoinOps={"HashJoin"}, InterOps={"Sort"}, Workers={2}, Cards={4}, Names={"geqo", "jit"}, MaxLen=3, MaxPool=3, Sim=False), invariants=["Emit"], properties=["OneStore"])))
    rs = tlc.run_many([("C09", k) for _, k in jobs], 4)
    for (n, _), r in zip(jobs, rs):
        ck.n = n
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: cl + " | " + "; ".join(f"{s['op']}({s['on']},{s['args']})" for s in c["h"][-4:]), kind=r.label)
