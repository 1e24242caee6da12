import json, math, os, tempfile, warnings
import pandas as pd
import postbound as pb
from postbound import (IntegratedOptimizationPipeline, TextBookOptimizationPipeline, MultiStageOptimizationPipeline, IncrementalOptimizationPipeline,
                       CompleteOptimizationAlgorithm, JoinOrderOptimization, PhysicalOperatorSelection, ParameterGeneration, CardinalityEstimator, CostModel,
                       PlanEnumerator, IncrementalOptimizationStep, QueryPlan, TableReference, ScanOperator)
from postbound._stages import as_complete_algorithm
from postbound.bench import execute_workload
from postbound.parser import parse_query
from postbound.train import TrainingData, TrainingDataRepository, TrainingSpec
from postbound.workloads import Workload
from vk import tlc
from vk.core import expect, require
from vk.fakes import FakeDatabase

warnings.simplefilter("ignore")
KINDS = ("db", "wl", "sm")


# ------------------------------------------------------------------------------------------------ samples
def cell(row, feat):
    return {"query": parse_query(f"SELECT * FROM t WHERE t.a = {row}"), "cardinality": 10 * row, "runtime_ms": row + .5}[feat]


def dataset(feats, rows, layout):
    """the same content under different column names"""
    if layout == "renamed": names = {f: f"raw_{f}" for f in feats}
    elif layout == "swapped": names = {f: feats[(i + 1) % len(feats)] for i, f in enumerate(feats)}   # columns are named like other features
    else: names = {f: f for f in feats}
    cols = {names[f]: [cell(r, f) for r in rows] for f in feats}
    extra = [f for f in ("query", "cardinality", "runtime_ms") if f not in feats and f not in names.values()]
    if layout in ("swapped", "renamed"):
        for f in extra: cols = {f: ["garbage"] * len(rows), **cols}          # unmapped columns that are no features of the data set
    df = pd.DataFrame(cols)
    if layout == "plain": return TrainingData.from_df(df.assign(query=df["query"].map(str)) if "query" in df else df)
    if layout == "shuffled": df = df[list(reversed(df.columns))].set_axis(range(100, 100 + len(rows)), axis="index")
    return TrainingData(df, feature_map=names)


def content(td, spec=None):
    df = td.as_df(spec)
    return [list(r) for r in df.itertuples(index=False, name=None)] if spec else [[r[f] for f in td.spec.features] for _, r in df.iterrows()]


def same(what, td, feats, rows):
    expect(f"{what}: features", list(feats), list(td.spec.features))
    expect(f"{what}: number of samples", len(rows), len(td))
    want = [[cell(r, f) for f in feats] for r in rows]
    expect(f"{what}: samples", want, content(td))
    expect(f"{what}: samples according to its own features", want, content(td, TrainingSpec(feats)))
    if rows: expect(f"{what}: single sample", want[-1], list(td[len(rows) - 1]))


def algebra(ck):
    def go(c):
        pool, repo = [], TrainingDataRepository()
        for h in c["h"]:
            op, a, f = h["op"], h["args"], h["spec"]
            ck.steps += 1; ck.act(f"data {op} {h['out'] if op not in ('compare',) else ''}")
            spec = TrainingSpec(f) if f else None
            new, out, got = None, "ok", None
            try:
                if op == "create": new = dataset(f, h["pool"][-1]["rows"], h["layout"])
                elif op == "conform": new = pool[a[0] - 1].conform_to(spec if len(f) % 2 else list(f))
                elif op == "frame": got = pool[a[0] - 1].as_df(spec)
                elif op == "merge_with": new = pool[a[0] - 1].merge_with(pool[a[1] - 1])
                elif op == "merge": new = TrainingData.merge([pool[i - 1] for i in a], according_to=spec)
                elif op == "register": require("register returns the repository", repo.register(pool[a[0] - 1]) is repo)
                elif op == "first": got = repo.retrieve_first(spec); got = [] if got is None else [got]
                elif op == "all": got = list(repo.retrieve_all(spec))
                elif op == "merged": got = repo.retrieve_merged(spec); got = [] if got is None else [got]
                elif op == "compare":
                    s, t = TrainingSpec(a[0]), TrainingSpec(*a[1][:1], *a[1][1:])
                    missing = set(a[1]) - set(a[0])
                    v = s.satisfies(t)
                    expect("missing features", missing, set(v.missing_features))
                    expect("satisfied", (not missing, not missing, bool(missing)), (bool(v), s.provides(a[1]), v.contains_violations()))
                    expect("required", not missing, s.requires(a[1]))
                    expect("equal specifications offer the same features", set(a[0]) == set(a[1]), s == t)
                    if s == t: expect("hash", hash(s), hash(t))
                    expect("features keep their order", list(a[1]), list(t))
            except ValueError: out = "error"
            if op != "compare": expect(f"{op}: outcome", h["out"], out)
            if new is not None: pool.append(new)
            if op == "frame" and out == "ok":
                want = h["sets"][0]
                expect("frame columns", list(want["feats"]), list(got.columns))
                expect("frame content", [[cell(r, x) for x in want["feats"]] for r in want["rows"]], [list(r) for r in got.itertuples(index=False, name=None)])
            if op in ("first", "all", "merged"):
                expect(f"retrieve {op}: number of data sets", len(h["sets"]), len(got))
                for w, g in zip(h["sets"], got): same(f"retrieve {op}", g, w["feats"], w["rows"])
            expect(f"{op}: number of data sets", len(h["pool"]), len(pool))
            for i, (w, g) in enumerate(zip(h["pool"], pool)):
                same(f"{op}: {'new' if new is not None and i == len(pool) - 1 else 'existing'} data set", g, w["feats"], w["rows"])
    return go


# ----------------------------------------------------------------------------------------------- pipelines
DATA = {"d1": (["query"], [1, 2], "plain"), "d2": (["query", "cardinality"], [3, 4], "shuffled"), "d3": (["cardinality"], [5], "renamed"),
        "d4": (["runtime_ms", "cardinality", "query"], [6, 7, 8], "swapped")}
A = TableReference("a")


class World:
    def __init__(self):
        self.log, self.executed = [], []
        self.db = DB(self)


class DB(FakeDatabase):
    def __init__(self, w): super().__init__("d"); self.w = w
    def hinting(self): return self
    def optimizer(self): return self
    def supports_hint(self, h): return True
    def query_plan(self, q): return QueryPlan(ScanOperator.SequentialScan, base_table=A)
    def generate_hints(self, query, plan=None, **kw):
        self.w.log.append(("optimize", query))
        if "opt" in str(query): raise RuntimeError("cannot be optimized")
        return parse_query(str(query).replace("t_", "hinted_"))
    def execute_query(self, q, *, cache_enabled=None, raw=False, timeout=None):
        self.w.log.append(("execute", q))
        if "fail" in str(q): raise RuntimeError("cannot be executed")
        res = [(len(self.w.executed), "x")] if len(self.w.executed) % 3 else []
        self.w.executed.append((q, res))
        return res
    def execute_with_timeout(self, q, *, timeout=60.0):
        if "slow" in str(q):
            self.w.log.append(("execute", q)); return None
        return self.execute_query(q)


class Learner:
    """what a stage can observe of its training; a class offers a kind of training by implementing its methods"""
    def __init__(self, w, i, rec):
        super().__init__()
        self.name = f"stage{i}"
        self.w, self.i, self.rec, self.done = w, i, rec, {k: rec[k] if rec["pre"] else 0 for k in KINDS}
    def describe(self): return {"name": self.name}
    def fit(self, kind, *payload):
        self.w.log.append(("fit", kind, self.i, payload)); self.done[kind] += 1
        return {"stage": self.i, "kind": kind}


def methods(rec):
    ns = {}
    if rec["db"]: ns |= {"fit_database": lambda s, db: s.fit("db", db), "database_fit_completed": lambda s: s.done["db"] >= s.rec["db"]}
    if rec["wl"]: ns |= {"fit_workload": lambda s, wl, db: s.fit("wl", wl, db), "workload_fit_completed": lambda s: s.done["wl"] >= s.rec["wl"]}
    if rec["sm"]: ns |= {"fit_samples": lambda s, sm: s.fit("sm", sm), "sample_spec": lambda s: TrainingSpec(s.rec["feats"]), "sample_fit_completed": lambda s: s.done["sm"] >= s.rec["sm"]}
    if rec["on"]: ns |= {"learn_from_feedback": lambda s, q, rs, *, exec_time: (s.w.log.append(("feedback", s.i, q, rs, exec_time)), {"stage": s.i, "kind": "on"})[1]}
    return ns


BASES = {"algo": (CompleteOptimizationAlgorithm, {"optimize_query": lambda s, q: QueryPlan(ScanOperator.SequentialScan, base_table=A)}),
         "join": (JoinOrderOptimization, {"optimize_join_order": lambda s, q: None}),
         "ops": (PhysicalOperatorSelection, {"select_physical_operators": lambda s, q, j: pb.PhysicalOperatorAssignment()}),
         "par": (ParameterGeneration, {"generate_plan_parameters": lambda s, q, j, o: pb.PlanParameterization()}),
         "card": (CardinalityEstimator, {"calculate_estimate": lambda s, q, t: pb.Cardinality(1)}),
         "cost": (CostModel, {"estimate_cost": lambda s, q, p: 1.0}),
         "enum": (PlanEnumerator, {"generate_execution_plan": lambda s, q, *, cost_model, cardinality_estimator: QueryPlan(ScanOperator.SequentialScan, base_table=A)}),
         "step": (IncrementalOptimizationStep, {"optimize_query": lambda s, q, p: p})}


def make(w, slot, i, rec):
    base, ns = BASES[slot.rstrip("*")]
    s = type(f"Stage{i}", (Learner, base), {**ns, **methods(rec)})(w, i, rec)
    return as_complete_algorithm(s, database=w.db) if slot.endswith("*") else s


LAYOUT = {"integrated": [["algo"]], "wrapped": [["join*"], ["ops*"], ["par*"], ["card*"]], "incremental": [["algo"], ["step", "step"], ["join*", "step"], ["card*", "step", "step"], ["step"]],
          "multi": [["join"], ["ops"], ["par"], ["card"], ["join", "ops"], ["join", "par"], ["ops", "card"], ["join", "ops", "par"], ["join", "ops", "card"]],
          "textbook": [["enum", "cost", "card"]]}


def assemble(w, kind, slots, recs):
    none = {"db": 0, "wl": 0, "sm": 0, "on": False, "pre": False, "feats": []}
    s = [make(w, slot, i + 1, r) for i, (slot, r) in enumerate(zip(slots, recs + [none] * len(slots)))]
    cls = {"integrated": IntegratedOptimizationPipeline, "wrapped": IntegratedOptimizationPipeline, "incremental": IncrementalOptimizationPipeline,
           "multi": MultiStageOptimizationPipeline, "textbook": TextBookOptimizationPipeline}[kind]
    p = cls(w.db)
    for x in s: p.use(x)
    return p if kind == "incremental" else p.build()


def source(name):
    td = lambda d: dataset(*DATA[d])
    if name == "none": return None
    if name in DATA: return td(name)
    r = TrainingDataRepository()
    for d in name[4:]: r.register(td("d" + d))
    return r


def pipelines(ck):
    def go(c):
        for v, slots in enumerate(x for x in LAYOUT[c["kind"]] if len(x) >= len(c["stages"])):
            if v and ck.quick and (v + len(c["h"]) + len(json.dumps(c))) % 3: continue          # quick runs look at some of the layouts only
            one(ck, c, slots)
    return go


def one(ck, c, slots):
    w = World()
    p = assemble(w, c["kind"], slots, c["stages"])
    for h in c["h"]:
        op = h["op"]
        ck.steps += 1; ck.act(f"{c['kind']} {op} {h['out']}")
        w.log.clear(); del w.executed[:]
        src, out, ret, err, df = source(h["src"]), "ok", None, None, None
        wl = Workload({i: parse_query(f"SELECT * FROM t_{k}{i}") for i, k in enumerate(h["qs"], 1)}) if h["qs"] else Workload({1: parse_query("SELECT * FROM t_1")})
        what = f"{c['kind']} {op}"
        try:
            if op == "db": ret = p.train_on_database(w.db)
            elif op == "wl": ret = p.train_on_workload(wl, w.db)
            elif op == "sm": ret = p.train_on_samples(src)
            elif op == "feedback":
                q, res = parse_query("SELECT * FROM t_1"), [(1, 2)]
                ret = p.learn_from_feedback(q, res, exec_time=12.5)
                expect(f"{what}: feedback", [(i, id(q), id(res), 12.5) for i in h["online"]], sorted((e[1], id(e[2]), id(e[3]), e[4]) for e in w.log))
                expect(f"{what}: metrics", {i: "on" for i in h["online"]}, {m["stage"]: m["kind"] for m in ret.values()})
            elif op == "bench":
                df = execute_workload(wl, p, training_data=src, timeout=5.0 if "slow" in h["qs"] else None, per_query_repetitions=1 + len(h["qs"]) % 2)
        except ValueError as x: out, err = "missing", x
        expect(f"{what}: outcome", h["out"], out)
        if op in KINDS and out == "ok": expect(f"{what}: metrics", {f["stage"]: op for f in h["fits"][op]}, {m["stage"]: m["kind"] for m in ret.values()})
        fits = [e for e in w.log if e[0] == "fit"]
        for k in KINDS:
            if out == "missing" and k == "sm": continue
            expect(f"{what}: stages trained on {k}", sorted(f["stage"] for f in h["fits"][k]), sorted(e[2] for e in fits if e[1] == k))
        order = [KINDS.index(e[1]) for e in fits]
        require(f"{what}: database, workload and samples in this order", order == sorted(order), order)
        for e in fits:
            if e[1] == "db": require(f"{what}: trained on the target database", e[3] == (w.db,))
            elif e[1] == "wl": require(f"{what}: trained on the workload", e[3][1] is w.db and dict(e[3][0].entries()) == dict(wl.entries()), e[3])
            elif out == "ok":
                f = [f for f in h["fits"]["sm"] if f["stage"] == e[2]][0]
                same(f"{what}: samples", e[3][0], f["feats"], f["rows"])
        if out == "missing":
            require(f"{what}: nothing is optimized or executed without training", not [e for e in w.log if e[0] in ("optimize", "execute")], w.log)
            continue
        kinds = [e[0] for e in w.log]
        if op == "bench":
            if "optimize" in kinds: require(f"{what}: training comes first", "fit" not in kinds[kinds.index("optimize"):], kinds)
            want, k, reps = [], 0, 1 + len(h["qs"]) % 2
            for i, o in enumerate(h["qs"], 1):
                want.append(("optimize", i)); 
                if o != "opt": want += [("execute", i)] * reps
                if i in h["feedback"]: want += [("feedback", i)] * (reps * len(h["online"]))
            num = lambda q: int(str(q).rstrip(";")[-1])
            got = [(e[0], num(e[1] if e[0] != "feedback" else e[2])) for e in w.log if e[0] != "fit"]
            got = [e for i, e in enumerate(got) if i == 0 or e[0] != "optimize" or e != got[i - 1]]        # emulated algorithms hint twice
            expect(f"{what}: optimizations, executions and feedback", want, got)
            for i in h["online"]:
                mine = [e for e in w.log if e[0] == "feedback" and e[1] == i]
                expect(f"{what}: results handed to the online learner", [(id(q), id(r)) for q, r in w.executed], [(id(e[2]), id(e[3])) for e in mine])
                ms = [t * 1000 for t in df[df.status == "ok"].exec_time]
                require(f"{what}: execution times handed to the online learner", len(ms) == len(mine) and all(math.isclose(x, e[4]) for x, e in zip(ms, mine)), (ms, mine))
        s = h["after"]
        expect(f"{what}: training requirements", (s["db"], s["wl"], s["sm"], s["on"]), (p.requires_data_training(), p.requires_workload_training(), p.requires_sample_training(), p.requires_online_training()))
        expect(f"{what}: sample training completed", s["done"], p.sample_fit_completed())


def sig(c, clause): return clause


def run(ck):
    allsrc = {"none", "d1", "d2", "d3", "d4", "repo", "repo1", "repo24", "repo1342"}
    every = {"db", "wl", "sm", "feedback", "bench"}
    INV, jobs = ("Emit", "NeverTooMuch", "RightSamples", "Served"), []
    for kind in ("integrated", "wrapped", "incremental", "multi", "textbook"):
        single = kind in ("integrated", "wrapped")
        base = dict(Kind=kind, Sim=False, NStages=1, Feats={"q"}, Pre={True, False}, Qs={"ofo"} if ck.quick else {"ofo", "osop"})
        jobs.append(("C16", dict(label=f"{kind} one stage", constants=dict(base, Needs={0, 1, 2} if kind != "multi" or not ck.quick else {0, 2}, Ons={True} if ck.quick else {True, False}, Ops={"db", "wl", "sm", "bench"}, Sources={"none", "repo24"}, MaxOps=2), invariants=INV, properties=("Monotone",))))
        if not single:
            jobs.append(("C16", dict(label=f"{kind} two stages", constants=dict(base, NStages=2, Needs={0, 1}, Feats={"q"} if ck.quick else {"q", "cq"}, Ons={False}, Pre={False}, Ops={"sm", "bench"}, Sources={"none", "d1"} if ck.quick else {"none", "d1", "repo1342"}, MaxOps=2), invariants=INV, properties=("Monotone",))))
        for n in range(1 if ck.quick else 6):
            jobs.append(("C16", dict(label=f"{kind} long {n}", constants=dict(Kind=kind, NStages=1 if single else 3, Qs={"oo", "ofo", "f", "osop"}, Needs={0, 1, 2, 4}, Feats={"q", "qc", "cq"}, Ons={True, False}, Pre={True, False}, Ops=every, Sources=allsrc, MaxOps=5, Sim=True),
                        invariants=INV, sim=200 if ck.quick else 800, depth=12, seed=ck.seed * 17 + n)))
    L = {"plain", "renamed", "swapped", "shuffled"}
    DI = ("Emit", "KnownRows", "Exact", "Complete")
    jobs.append(("C16D", dict(label="data sets", constants=dict(Layouts={"swapped", "plain"} if not ck.quick else {"swapped"}, MaxOps=3, Sim=False, Width=1), invariants=DI, properties=("Immutable",))))
    for n in range(1 if ck.quick else 6):
        jobs.append(("C16D", dict(label=f"data sets long {n}", constants=dict(Layouts=L, MaxOps=12, Sim=True, Width=3), invariants=DI, sim=600 if ck.quick else 3000, depth=14, seed=ck.seed * 19 + n)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r); ck.replay(r.cases, algebra(ck) if r.module == "C16D" else pipelines(ck), sig=sig, kind=r.label)
