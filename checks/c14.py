import json, math
import postbound as pb
from postbound import (IntegratedOptimizationPipeline, TextBookOptimizationPipeline, MultiStageOptimizationPipeline, IncrementalOptimizationPipeline,
                       CompleteOptimizationAlgorithm, JoinOrderOptimization, PhysicalOperatorSelection, ParameterGeneration, CardinalityEstimator, CostModel,
                       PlanEnumerator, IncrementalOptimizationStep, QueryPlan, JoinTree, TableReference, ScanOperator)
from postbound._hints import PhysicalOperatorAssignment, PlanParameterization
from postbound._pipelines import OptimizationSettings
from postbound._stages import as_complete_algorithm
from postbound.opt.dynprog import DynamicProgrammingEnumerator
from postbound.parser import parse_query
from postbound.util import StateError
from postbound.validation import CustomCheck, PreCheckResult, UnsupportedQueryError, UnsupportedSystemError, OptimizationPreCheck
from vk import tlc
from vk.core import expect, require, Mismatch
from vk.fakes import FakeDatabase, FakeSchema

A, B, C = (TableReference(t) for t in "abc")
SQL = "SELECT * FROM a, b, c WHERE a.x = b.x AND b.y = c.y AND a.f < {}"
SCHEMA = FakeSchema({t: {"x": "none", "y": "none", "f": "none"} for t in "abc"})
CHAIN = [frozenset(s) for s in ({A}, {B}, {C}, {A, B}, {B, C}, {A, B, C})]
EST = {s: 10 * i for i, s in enumerate(CHAIN, 1)}
EST[frozenset({A, B})] = math.nan


class Boom(Exception): pass


class World:
    """the two databases, the three queries and everything the stages report"""
    def __init__(self):
        self.log, self.tokens, self.dbs = [], [], {}
        self.q = {f"q{i}": parse_query(SQL.format(i)) for i in (1, 2, 3)}
        for d in ("d1", "d2"): self.dbs[d] = DB(self, d)

    def qname(self, q):
        return next((k for k, v in self.q.items() if v is q), f"other query {q}")

    def dbname(self, d):
        return next((k for k, v in self.dbs.items() if v is d), f"other db {d}")

    def tok(self, value, name):
        self.tokens.append((value, name)); return value

    def name(self, value):
        for v, n in self.tokens:
            if v is value: return n
        if value is None: return "none"
        if isinstance(value, PhysicalOperatorAssignment) and not (value.global_settings or value.join_operators or value.scan_operators or value.intermediate_operators): return "none"
        if isinstance(value, PlanParameterization) and not (value.cardinalities or value.parallel_workers or value.system_settings or value.execution_mode): return "none"
        return f"unknown {value!r}"

    def stage(self, t, b, slot=None):
        return STAGES[t.rstrip("*")](self, t, b)


class Hinted:
    def __init__(self, q): self.q = q


class DB(FakeDatabase):
    def __init__(self, w, name): super().__init__(name); self.w = w
    def schema(self): return SCHEMA
    def hinting(self): return self
    def optimizer(self): return self
    def supports_hint(self, h): return h in (ScanOperator.SequentialScan, pb.JoinOperator.HashJoin, pb.JoinOperator.NestedLoopJoin)
    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        n = self.w.name
        h = Hinted(self.w.qname(query))
        self.w.log.append(("hint", h, {"db": self.system_name, "join": n(join_order), "ops": n(physical_operators), "par": n(plan_parameters), "plan": n(plan)}))
        return h
    def query_plan(self, q):
        p = QueryPlan(ScanOperator.SequentialScan, base_table=A)
        self.w.log.append(("native", self.system_name, q, p))
        return self.w.tok(p, "native")


class StageCheck(OptimizationPreCheck):
    def __init__(self, w, name, b): super().__init__(name); self.w, self.b = w, b
    def _r(self, bad, what): return PreCheckResult(False, f"{self.name} rejects {what}") if bad else PreCheckResult.with_all_passed()
    def check_supported_query(self, query): return self._r(self.b in ("noq2", "noq2d2") and self.w.qname(query) == "q2", "query")
    def check_supported_database_system(self, db): return self._r(self.b in ("nodb2", "noq2d2") and self.w.dbname(db) == "d2", "database")
    def describe(self): return {"name": self.name}


class Base:
    def __init__(self, w, t, b):
        super().__init__()
        self.w, self.b, self.name = w, b, f"{t}/{b}"
        self.check = StageCheck(w, self.name, b)
    def pre_check(self): return self.check
    def describe(self): return {"name": self.name}
    def act(self, q, value, *inputs, token=None):
        qn = self.w.qname(q)
        self.w.log.append(("run", self.name, [self.w.name(i) for i in inputs], qn))
        if self.b == "failq3" and qn == "q3": raise Boom(self.name)
        return self.w.tok(value, token or self.name)


class Life:
    """what an estimator or cost model has to be able to rely on"""
    alive = None
    def initialize(self, db, q):
        super().initialize(db, q)
        self.w.log.append(("init", self.name, self.w.dbname(db), self.w.qname(q))); self.alive = q
    def cleanup(self):
        super().cleanup()
        self.w.log.append(("cleanup", self.name)); self.alive = None
    def use(self, q):
        require(f"{self.name} is initialized for the query it works on", self.alive is q, self.alive)
        if self.b == "failq3" and self.w.qname(q) == "q3": raise Boom(self.name)


class Algo(Base, CompleteOptimizationAlgorithm):
    def optimize_query(self, q): return self.act(q, QueryPlan(ScanOperator.SequentialScan, base_table=B))
class Join(Base, JoinOrderOptimization):
    def optimize_join_order(self, q): return self.act(q, JoinTree.join(JoinTree.join(JoinTree.scan(A), JoinTree.scan(B)), JoinTree.scan(C)))
class Ops(Base, PhysicalOperatorSelection):
    def select_physical_operators(self, q, jo):
        p = PhysicalOperatorAssignment(); p.set_scan_operator(ScanOperator.SequentialScan, A)
        return self.act(q, p, jo)
class Par(Base, ParameterGeneration):
    def generate_plan_parameters(self, q, jo, ops):
        p = PlanParameterization(); p.set_system_settings("x", 1)
        return self.act(q, p, jo, ops)
class Est(Life, Base, CardinalityEstimator):
    def calculate_estimate(self, q, tables):
        self.use(q); return EST[frozenset(pb.util.enlist(tables))]
    def generate_plan_parameters(self, q, jo, ops):
        self.act(q, None, jo, ops); self.w.tokens.pop()
        p = super().generate_plan_parameters(q, jo, ops)
        want = CHAIN if jo is None else [n.tables() for n in jo.iternodes()]
        expect("cardinalities of the estimator for " + ("all intermediates" if jo is None else "the join order"), {s: EST[s] for s in map(frozenset, want) if not math.isnan(EST[s])}, {k: v.value for k, v in p.cardinalities.items()})
        return self.w.tok(p, self.name)
class Cost(Life, Base, CostModel):
    def estimate_cost(self, q, plan): self.use(q); return len(plan.tables()) * 1.0
class Enum(Base, PlanEnumerator):
    def generate_execution_plan(self, q, *, cost_model, cardinality_estimator):
        for x in (cost_model, cardinality_estimator): self.w.tok(x, x.name)
        return self.act(q, QueryPlan(ScanOperator.SequentialScan, base_table=B), cost_model, cardinality_estimator)
class DP(DynamicProgrammingEnumerator):
    def __init__(self, w, t, b):
        DynamicProgrammingEnumerator.__init__(self, target_db=w.dbs["d1"])
        self.w, self.b, self.name, self.check = w, b, f"{t}/{b}", StageCheck(w, f"{t}/{b}", b)
    def pre_check(self): return self.check
    def generate_execution_plan(self, q, **kw): return self.w.tok(super().generate_execution_plan(q, **kw), "dp")
class Step(Base, IncrementalOptimizationStep):
    pos = None
    def optimize_query(self, q, plan):
        n = 1 + sum(e[0] == "run" and e[1].startswith("step/") for e in self.w.log)
        return self.act(q, QueryPlan(ScanOperator.SequentialScan, base_table=B), plan, token=f"step{n}:{self.name}")


STAGES = {"algo": Algo, "join": Join, "ops": Ops, "par": Par, "est": Est, "card": Est, "cost": Cost, "enum": Enum, "dp": DP, "step": Step}
SETUP = {"algo": "setup_optimization_algorithm", "enum": "setup_plan_enumerator", "cost": "setup_cost_model", "card": "setup_cardinality_estimator",
         "check": "setup_query_support_check", "join": "setup_join_order_optimization", "ops": "setup_physical_operator_selection", "par": "setup_plan_parameterization"}


class Preset(OptimizationSettings):
    def __init__(self, mk, a): self.mk, self.a = mk, a
    def get(self, s): return None if self.a[s]["t"] == "none" else self.mk(self.a[s])
    def query_pre_check(self): return self.get("check")
    def build_join_order_optimizer(self): return self.get("join")
    def build_physical_operator_selection(self): return self.get("ops")
    def build_plan_parameterization(self): return self.get("par")


PIPES = {"integrated": IntegratedOptimizationPipeline, "textbook": TextBookOptimizationPipeline, "multi": MultiStageOptimizationPipeline, "incremental": IncrementalOptimizationPipeline}


def replay(ck):
    def make(w, st):
        t, b = st["t"], st["b"]
        if t == "check": return StageCheck(w, "check/" + b, b)
        s = STAGES[t.rstrip("*")](w, t, b)
        return as_complete_algorithm(s, database=w.dbs["d1"]) if t.endswith("*") else s

    def go(c):
        w, kind = World(), c["kind"]
        p = PIPES[kind](w.dbs["d1"])
        if kind == "textbook":
            for s in ("enum", "cost", "card"): p.use(make(w, {"t": s, "b": "ok"}))
        for h in c["h"]:
            e = h["e"]; op, a, st = e["op"], e["a"], e["st"]
            ck.steps += 1; ck.act(f"{kind} {op}" + (f" {e['out']}" if op in ("plan", "hint", "build") else ""))
            w.log.clear(); del w.tokens[:]
            out, res, err = "ok", None, None
            try:
                if op == "setup":
                    if a == "gen": p.initial_plan_generator = make(w, st)
                    elif a == "step": p.add_optimization_step(make(w, st))
                    else: require("setup returns the pipeline", getattr(p, SETUP[a])(make(w, st)) is p)
                elif op == "use": require("use() returns the pipeline", p.use(make(w, st)) is p)
                elif op == "load": p.load_settings(Preset(lambda s: make(w, s), a))
                elif op == "dropgen": p.initial_plan_generator = None
                elif op == "setdb": p.target_db = w.dbs[a]
                elif op == "build": require("build() returns the pipeline", p.build() is p)
                elif op == "plan": res = p.query_execution_plan(w.q[a])
                elif op == "hint": res = p.optimize_query(w.q[a])
            except StateError as x: out, err = "state", x
            except UnsupportedSystemError as x: out, err = "system", x
            except UnsupportedQueryError as x: out, err = "query", x
            except Boom as x: out, err = "fail", x
            what = f"{kind}: {op} {a if isinstance(a, str) else ''}"
            expect(f"{what}: outcome", e["out"], out)
            if out == "query": require("the error names query and reason", err.query is w.q[a] and "rejects query" in str(err), str(err))
            if out == "system": require("the error names system and reason", "rejects database" in str(err), str(err))
            runs = [{"st": x[1], "in": x[2]} for x in w.log if x[0] == "run"]
            expect(f"{what}: stages that ran, with the decisions they received", e["r"]["runs"], runs)
            for x in w.log:
                if x[0] == "run": expect("query that reached the stage", a, x[3])
            hints = [x for x in w.log if x[0] == "hint"]
            expect(f"{what}: hints", e["r"]["hints"], [x[2] for x in hints])
            for x in hints: expect("hinted query", a, x[1].q)
            lives(w, a, "d1" if kind in ("incremental", "textbook", "integrated") else w.dbname(p.target_db))
            if op in ("plan", "hint") and out == "ok":
                natives = [x for x in w.log if x[0] == "native"]
                if op == "hint": require("the optimized query is the hinted one", hints and res is hints[-1][1], res)
                else: expect(f"{what}: plan", e["r"]["plan"], w.name(res))
                for x in natives:   # native plans are for the query itself or for the hinted version of it
                    target = [y[1] for y in hints if y[1] is x[2]] or ([x[2]] if x[2] is w.q[a] and not (kind == "multi") else [])
                    require("the native optimizer plans the (hinted) query", bool(target), x[2])
            expect(f"{what}: target database", w.dbname(p.target_database()), w.dbname(getattr(p, "target_db", p.target_database())))
            names = [s["t"] + "/" + s["b"] for s in h["stages"]]
            got = [s.stage().name if hasattr(s, "stage") else s.name for s in p.stages()]
            expect(f"{what}: configured stages", sorted(names) if kind == "textbook" else names, sorted(got) if kind == "textbook" else got)
            if op not in ("plan", "hint"):
                d = json.dumps(p.describe())
                require("the description is complete", all(json.dumps(n) in d for n in names if not n.startswith("dp/")), d)
    return go


def lives(w, q, db):
    for s in {x[1] for x in w.log if x[0] in ("init", "cleanup")} | {x[1] for x in w.log if x[0] == "run" and x[1].split("/")[0] in ("est", "est*")}:
        ev = [x for x in w.log if x[0] in ("init", "cleanup", "run") and x[1] == s]
        kinds = [x[0] for x in ev]
        require(f"{s} is initialized before it is used and released afterwards", [k for k in kinds if k != "run"] == ["init", "cleanup"] and kinds[0] == "init" and kinds[-1] == "cleanup", kinds)
        expect(f"{s} is initialized with", (db, q), ev[0][2:])


ALL = {"ok", "nodb2", "noq2", "failq3", "noq2d2"}
INV = ("Emit", "BuiltImpliesSupported", "OnlySupported", "RunOrder", "Causal")


def sig(c, clause):
    return clause


def run(ck):
    jobs = []
    for kind in ("integrated", "textbook", "multi", "incremental"):
        k = dict(Kind=kind, MaxSteps=3, Loads=True, Vias={"setup", "use"}, Modes={"plan", "hint"})
        for modes, behav, n in (({"hint"}, {"ok", "noq2d2"}, 4), ({"plan"}, {"ok", "noq2d2", "failq3"}, 3)):
            c = dict(k, Vias={"use"} if n == 4 else {"setup"}, Loads=False, Modes=modes, Behav=behav, MaxOps=n if ck.quick else n + 1, Sim=False)
            jobs.append(("C14", dict(label=f"{kind} all {n}", constants=c, invariants=INV, properties=("Rebuild",))))
        for n in range(1 if ck.quick else 6):
            jobs.append(("C14", dict(label=f"{kind} long {n}", constants=dict(k, Behav=ALL, MaxOps=14 if n % 2 == 0 else 30, Sim=True), invariants=INV, sim=300 if ck.quick else 1500, depth=40, seed=ck.seed * 31 + n)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r); ck.replay(r.cases, replay(ck), sig=sig, kind=r.label)
