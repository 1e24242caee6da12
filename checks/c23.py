import json, math
from postbound import ColumnReference, TableReference, PlanParameterization, PhysicalOperatorAssignment
from postbound import ScanOperator, JoinOperator, IntermediateOperator, ScanOperatorAssignment, JoinOperatorAssignment, DirectionalJoinOperatorAssignment, JoinTree, LogicalJoinTree, Cardinality
from postbound import util
from postbound._qep import PlanEstimates, PlanMeasures, PlanParams, QueryPlan, SortKey, Subplan
from postbound.opt import read_operator_json, read_operator_assignment_json, read_plan_params_json, read_query_plan_json, read_jointree_json
from postbound.opt._helpers import parse_nested_table_sequence
from postbound.parser import load_table_json, load_column_json, load_expression_json, load_predicate_json
from postbound.qal import BaseProjection, BinaryPredicate, DirectTableSource, FunctionExpression, ImplicitFromClause, Select, StaticValueExpression, Where, build_query
from vk import tlc
from vk.ast import Env as BaseEnv
from vk.core import expect, require

TABS = {"t1": TableReference("a"), "t2": TableReference("t", "b"), "t3": TableReference("t", "c", schema="s"), "t4": TableReference("u", schema="s"), "t5": TableReference("my tab", "order", schema="Other s"),
        "t6": TableReference.create_virtual("v"), "t7": TableReference("w", "x", virtual=True), "t8": TableReference("w2", virtual=True), "i1": TableReference("i1"), "i2": TableReference("q", "i2", schema="s")}
NAME = {t.identifier(): n for n, t in TABS.items()}
OPS = {o.name: o for e in (ScanOperator, JoinOperator, IntermediateOperator) for o in e}
PREDS = {"cmp", "btw", "in", "insub", "ex", "null", "not", "and", "or"}
NUM = {-1: math.nan, -2: math.inf, -3: None}


class Env(BaseEnv):
    def sub(self, x):
        t = x[1]
        return build_query([Select([BaseProjection(FunctionExpression("max", [self.col(t, "x")]))]), ImplicitFromClause([DirectTableSource(self.tab(t))]), Where(BinaryPredicate.equal(self.col(t, "y"), self.expr(x[2])))])

    def expr(self, x):
        if x[0] == "str": return StaticValueExpression(x[1])
        return self.pred(x) if x[0] in PREDS else super().expr(x)


E = Env(TABS)
num = lambda n: NUM.get(n, n)
opt = lambda n: None if n == -1 else n
tabs = lambda S: [TABS[t] for t in S]
fs = lambda S: frozenset(tabs(S))


# ---------------------------------------------------------------- specification values -> real values
def node(x, cls):
    if x[0] == "empty": return cls.empty()
    ann = num(x[-1])
    if cls is LogicalJoinTree and ann is not None: ann = Cardinality(ann)
    if x[0] == "leaf": return cls.scan(TABS[x[1]], annotation=ann)
    return cls.join(node(x[1], cls), node(x[2], cls), annotation=ann)


def seq(x): return TABS[x[1]] if x[0] == "leaf" else (seq(x[1]), seq(x[2]))


def sortkey(k): return SortKey.for_equivalence_class([E.expr(e) for e in k["class"]], ascending=k["asc"])


CUSTOM = [None, "a", 2, [1, "b"], {"k": [1]}, -1.5]


def plan(p):
    op = OPS.get(p["op"])
    extra = lambda k: {"custom": CUSTOM[k]} if k else {}
    params = PlanParams(base_table=TABS.get(p["tab"]), filter_predicate=E.pred(p["pred"]) if p["pred"] else None, sort_keys=[sortkey(k) for k in p["sort"]], parallel_workers=p["workers"], index=p["index"],
                        lookup_key=E.expr(p["lookup"]) if p["lookup"] else None, **extra(p["extra"]))
    est = PlanEstimates(cardinality=Cardinality(num(p["ecard"])), cost=num(p["ecost"]), **extra(p["eextra"]))
    mea = PlanMeasures(cardinality=Cardinality(num(p["acard"])), execution_time=num(p["time"]), cache_hits=opt(p["hits"]), cache_misses=opt(p["misses"]), **extra(p["mextra"]))
    sub = Subplan(plan(p["sub"][0]), p["target"]) if p["sub"] else None
    return QueryPlan(p["type"], operator=op, children=[plan(c) for c in p["children"]], plan_params=params, estimates=est, measures=mea, subplan=sub)


def hint(v):
    if v[0] == "op": return OPS[v[1]]
    o, w = OPS[v[1]], num(v[-1])
    if v[0] == "scan": return ScanOperatorAssignment(o, TABS[v[2]], w)
    if v[0] == "join": return JoinOperatorAssignment(o, tabs(v[2]), parallel_workers=w)
    return DirectionalJoinOperatorAssignment(o, tabs(v[3]), tabs(v[2]), parallel_workers=w)


def make(v):
    k = v[0]
    if k == "table": return TABS[v[1]]
    if k == "column": return ColumnReference(v[1], TABS.get(v[2]))
    if k == "expr": return E.expr(v[1])
    if k == "pred": return E.pred(v[1])
    if k == "tree": return node(v[2], LogicalJoinTree if v[1] == "logical" else JoinTree)
    if k == "seq": return seq(v[1])
    if k == "plan": return plan(v[1])
    if k == "ops": return PhysicalOperatorAssignment()
    if k == "params": return PlanParameterization()
    return hint(v)


def change(o, v, what, x):
    k = v[0]
    if what == "global": o.set_operator_enabled_globally(OPS[x[0]], x[1])
    elif what in ("scan", "join"): o.add(hint(x))
    elif what == "inter": o.add(OPS[x[1]], tabs(x[0]))
    elif what == "card": o.add_cardinality(tabs(x[0]), Cardinality(num(x[1])))
    elif what == "workers": o.set_workers(tabs(x[0]), x[1])
    elif what == "setting": o.set_system_settings(x[0], x[1])
    elif what == "mode": o.execution_mode = x[0] or None
    elif what == "ecard": o.estimates.cardinality = Cardinality(num(x[0]))
    elif what == "acard": o.measures.cardinality = Cardinality(num(x[0]))


# ---------------------------------------------------------------- what can be observed of a value: comparable trees of names and numbers
def t_(t): return None if t is None else (type(t).__name__, t.full_name, t.alias, t.schema, t.virtual)
def c_(c): return (type(c).__name__, c.name, t_(c.table))
def n_(x): return (type(x).__name__ if isinstance(x, Cardinality) else "", "nan" if isinstance(x, (float, Cardinality)) and math.isnan(x) else float(x) if isinstance(x, (int, float, Cardinality)) and not isinstance(x, bool) else x)
def ts_(T): return sorted(map(t_, T), key=repr)


class X:
    """an expression, compared like the library does plus its text and the tables in it"""
    def __init__(self, e): self.e = e; self.view = (type(e).__name__, str(e), ts_(e.tables()), sorted(map(repr, map(c_, e.columns()))))
    def __eq__(self, o): return self.view == o.view and self.e == o.e and hash(self.e) == hash(o.e)
    def __repr__(self): return repr(self.view)


def e_(e): return None if e is None else X(e)
def op_(o): return None if o is None else (type(o).__name__, o.name)


def node_(j):
    if j.is_empty(): return (type(j).__name__, "empty")
    if j.is_scan(): return (type(j).__name__, t_(j.base_table), n_(j.annotation))
    return (type(j).__name__, node_(j.outer_child), node_(j.inner_child), n_(j.annotation))


def plan_(p):
    keys = [(sorted(([type(e).__name__, str(e), ts_(e.tables())] for e in k.equivalence_class), key=repr), k.ascending) for k in p.sort_keys]
    nums = lambda m: {k: n_(v) for k, v in m.items()}
    rest = {k: v for k, v in p.params.items() if k not in ("base_table", "filter_predicate", "sort_keys", "lookup_key")}
    sub = (plan_(p.subplan.root), p.subplan.target_name) if p.subplan else None
    return [p.node_type, op_(p.operator), t_(p.base_table), e_(p.filter_predicate), keys, [k for k in p.sort_keys], rest, e_(p.lookup_key), nums(p.estimates), nums(p.measures), sub, [plan_(c) for c in p.children]]


def hint_(o):
    if isinstance(o, ScanOperatorAssignment): return (type(o).__name__, op_(o.operator), t_(o.table), n_(o.parallel_workers))
    if isinstance(o, DirectionalJoinOperatorAssignment): return (type(o).__name__, op_(o.operator), ts_(o.outer), ts_(o.inner), ts_(o.join), n_(o.parallel_workers))
    if isinstance(o, JoinOperatorAssignment): return (type(o).__name__, op_(o.operator), ts_(o.join), n_(o.parallel_workers))
    return op_(o)


def look(k, x):
    if k == "table": return t_(x)
    if k == "column": return c_(x)
    if k in ("expr", "pred"): return e_(x)
    if k == "tree": return node_(x)
    if k == "seq": return t_(x) if isinstance(x, TableReference) else [look(k, y) for y in x]
    if k == "plan": return plan_(x)
    if k == "ops":
        return {"global": sorted((op_(o), e) for o, e in x.global_settings.items()), "scans": sorted(((t_(t), hint_(a)) for t, a in x.scan_operators.items()), key=repr),
                "joins": sorted(((ts_(t), hint_(a)) for t, a in x.join_operators.items()), key=repr), "inters": sorted(((ts_(t), op_(a)) for t, a in x.intermediate_operators.items()), key=repr)}
    if k == "params":
        return {"cards": sorted(((ts_(t), n_(a)) for t, a in x.cardinalities.items()), key=repr), "workers": sorted(((ts_(t), n_(a)) for t, a in x.parallel_workers.items()), key=repr),
                "settings": dict(x.system_settings), "mode": x.execution_mode}
    return hint_(x)


def want(v):
    """the same view of the value that the specification describes"""
    k = v[0]
    if k == "ops":
        s = v[1]
        joins = [hint(x) for x in s["joins"]]
        return {"global": sorted((op_(OPS[o]), e) for o, e in s["global"]), "scans": sorted(((t_(TABS[x[2]]), hint_(hint(x))) for x in s["scans"]), key=repr),
                "joins": sorted(((ts_(j.join), hint_(j)) for j in joins), key=repr), "inters": sorted(((ts_(tabs(S)), op_(OPS[o])) for S, o in s["inters"]), key=repr)}
    if k == "params":
        s = v[1]
        return {"cards": sorted(((ts_(tabs(S)), n_(Cardinality(num(n)))) for S, n in s["cards"]), key=repr), "workers": sorted(((ts_(tabs(S)), n_(n)) for S, n in s["workers"]), key=repr),
                "settings": dict(s["settings"]), "mode": s["mode"] or None}
    return look(k, make(v))


READ = {"table": load_table_json, "column": load_column_json, "expr": load_expression_json, "pred": load_predicate_json, "tree": read_jointree_json, "plan": read_query_plan_json, "ops": read_operator_assignment_json,
        "params": read_plan_params_json, "seq": parse_nested_table_sequence}


def load(k, text, n):
    if k == "op": return read_operator_json(json.loads(text) if n % 2 else text.strip('"'))
    doc = json.loads(text) if n % 2 or k == "seq" else text
    return READ.get(k, read_operator_json)(doc)


SETS = {"tables", "join", "inner", "outer", "intermediate", "equivalence_class", "global_settings", "scan_operators", "join_operators", "intermediate_operators", "cardinality_hints", "parallel_worker_hints"}


def text(s):
    """a document; the order of the elements of sets is not part of it"""
    def go(d, key=""):
        if isinstance(d, dict): return {a: go(b, a) for a, b in d.items()}
        if isinstance(d, list):
            l = [go(x) for x in d]
            return sorted(l, key=repr) if key in SETS else l
        return "nan" if isinstance(d, float) and math.isnan(d) else d
    return go(json.loads(s))


def session(case):
    obj, docs, now = [], [], []
    for n, s in enumerate(case["steps"]):
        k = s["res"][0]
        if s["do"] == "new": obj.append((k, make(s["res"]))); now.append(s["res"])
        elif s["do"] == "change":
            change(obj[s["on"] - 1][1], s["res"], s["what"], s["arg"]); now[s["on"] - 1] = s["res"]
        elif s["do"] == "save": docs.append(util.to_json(obj[s["on"] - 1][1]))
        else:
            x = load(k, docs[s["on"] - 1], n)
            obj.append((k, x)); now.append(s["res"])
            expect(f"{k}: value read back", want(s["res"]), look(k, x))
            if k not in ("ops", "params", "seq", "op", "plan"):
                expect(f"{k}: equal to the value written", make(s["res"]), x)
                expect(f"{k}: same hash as the value written", hash(make(s["res"])), hash(x))
            if k == "plan": expect("plan: equal to the value written", make(s["res"]), x)
            expect(f"{k}: JSON of the value read back", text(docs[s["on"] - 1]), text(util.to_json(x)))
        for (k2, x), v in zip(obj, now):
            if s["do"] == "change" or (s["do"] == "new" and k2 in ("ops", "params")): expect(f"{k2}: values are independent", want(v), look(k2, x))
            elif s["do"] == "save": expect(f"{k2}: writing does not change a value", want(v), look(k2, x))


def run(ck):
    every = {"table", "column", "expr", "pred", "hint", "tree", "seq", "plan", "ops", "params"}
    T3, T8 = {"t1", "t3", "t6"}, {f"t{i}" for i in range(1, 9)}
    inv = ["Emit", "Kept", "Functional"]
    jobs = [("C23", dict(label="tables, columns, trees, hints", constants=dict(Tables=T8 if not ck.quick else {"t1", "t2", "t3", "t6"}, Kinds={"table", "column", "tree", "hint", "ops", "params"}, MaxOps=3, Depth=0, Sim=False), invariants=inv)),
            ("C23", dict(label="tables", constants=dict(Tables=T8, Kinds={"table", "column"}, MaxOps=3, Depth=0, Sim=False), invariants=inv)),
            ("C23", dict(label="expressions, predicates", constants=dict(Tables=T3 if ck.quick else {"t1", "t2", "t3", "t5", "t6", "t7"}, Kinds={"expr", "pred"}, MaxOps=3, Depth=0, Sim=False), invariants=inv)),
            ("C23", dict(label="random sessions", constants=dict(Tables={"t1", "t2", "t3", "t5", "t6", "t7"}, Kinds=every, MaxOps=14, Depth=2, Sim=True), invariants=inv, sim=600 if ck.quick else 8000, depth=15, seed=ck.seed)),
            ("C23", dict(label="random stores", constants=dict(Tables={"t1", "t2", "t3", "t4"}, Kinds={"ops", "params"}, MaxOps=24, Depth=1, Sim=True), invariants=inv, sim=300 if ck.quick else 4000, depth=25, seed=ck.seed + 1)),
            ("C23", dict(label="random plans", constants=dict(Tables={"t1", "t2", "t3", "t4", "t8"}, Kinds={"plan"}, MaxOps=8, Depth=1, Sim=True), invariants=inv, sim=300 if ck.quick else 4000, depth=9, seed=ck.seed + 2))]
    for r in tlc.run_many(jobs, 4):
        cases = ck.add_run(r)
        for c in cases:
            for s in c["steps"]: ck.act(f"{s['do']} {s['res'][0]}"); ck.steps += 1
        ck.replay(cases, session, sig=lambda c, clause: clause, kind=r.label)
