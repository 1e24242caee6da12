import collections, io, contextlib, json, math, os, tempfile, warnings
import pandas as pd
import postbound as pb
from postbound import MultiStageOptimizationPipeline, JoinOrderOptimization
from postbound.bench import execute_workload, prepare_export, sort_results, QueryPreparation, ExecutionResult
from postbound.parser import parse_query
from postbound.workloads import Workload
from vk import tlc
from vk.core import expect, require
from vk.fakes import FakeDatabase

warnings.simplefilter("ignore")
LABELS = ["2b", "10a", "1c", "x", "3"]
LABELS = ["1c", "2b", "3", "10a", "x"]                     # natural order
RAW = {1: [(7,)], 2: [], 3: [(1, 2), (3, None)], 4: [("text",)], 5: [(1,), (2,)]}
SIMPLE = {0: None, 1: 7, 2: [], 3: [(1, 2), (3, None)], 4: "text", 5: [1, 2]}
STMT = "SET knob TO next"


class Boom(Exception): pass
class Kill(BaseException): pass


class World:
    def __init__(self, h):
        self.cfg, self.h, self.knob = h["cfg"], h, 0
        self.n = h["cfg"]["nq"]
        self.q = {i: parse_query(f"SELECT t{i}.a, t{i}.b FROM t{i} WHERE t{i}.a < 10") for i in range(1, self.n + 1)}
        self.opt, self.exe = collections.defaultdict(collections.deque), collections.defaultdict(collections.deque)
        self.seq = collections.deque(e for e in h["events"] if e["k"] == "exec")
        for e in h["events"]: (self.opt if e["k"] == "opt" else self.exe)[e["i"]].append(e)
        self.seen, self.optimized, self.log = [], {}, []

    def num(self, q):
        return int(next(iter(q.tables())).full_name.removeprefix("hinted").removeprefix("t"))


class DB(FakeDatabase):
    def __init__(self, w): super().__init__("d"); self.w = w
    def hinting(self): return self
    def describe(self): return {"knob": self.w.knob}
    def generate_hints(self, query, plan=None, **kw): return hinted(self.w, query)
    def execute_query(self, q, *, cache_enabled=None, raw=False, timeout=None):
        w = self.w
        if q == STMT:
            w.knob += 1
            if w.seq and w.seq[0]["out"] == "prep":
                w.take(w.seq[0]["i"], None)
                raise Boom("cannot be prepared")
            return []
        require("the cache is not asked and results are not simplified", (cache_enabled, raw) == (False, True), (cache_enabled, raw))
        return self._run(q, None)
    def _run(self, q, timeout):
        w = self.w
        e = w.take(w.num(q), q)
        self.runtime = 100 * e["w"] + 10 * e["i"] + e["r"] + .5
        if e["out"] == "timeout": return None
        if e["out"] == "kill": raise Kill("interrupted")
        if e["out"] == "err": raise Boom(f"cannot be executed {e['i']}")
        return RAW[e["res"]]


def hinted(w, query):
    return w.optimized.setdefault(str(query), parse_query(str(query).replace(" t", " hintedt")))


def take(w, i, q):
    require("an execution that was not asked for", w.exe[i], i)
    e = w.exe[i].popleft()
    if not w.cfg["shuffled"]:
        expect("executed query", (w.seq[0]["w"], w.seq[0]["i"], w.seq[0]["r"]), (e["w"], e["i"], e["r"]))
    w.seq.popleft()
    w.seen.append((e, q, w.knob))
    return e
World.take = take


class TimeoutDB(DB):
    def execute_with_timeout(self, q, *, timeout=60.0):
        expect("timeout handed to the database", 2.5, timeout)
        return self._run(q, timeout)
class Watch:
    def time_query(self, query, *, timeout=None): raise NotImplementedError
    def last_query_runtime(self): return self.runtime
class WatchDB(Watch, DB): pass
class WatchTimeoutDB(Watch, TimeoutDB): pass


class Stage(JoinOrderOptimization):
    def __init__(self, w): super().__init__(); self.w = w
    def describe(self): return {"name": "stage", "tables": ["a", "b"]}
    def optimize_join_order(self, q):
        i = self.w.num(q)
        require("an optimization that was not asked for", self.w.opt[i], i)
        require("the optimized query is the workload's", q is self.w.q[i], q)
        if self.w.opt[i].popleft()["out"] == "fail": raise Boom(f"cannot be optimized {i}")


PREP = {"none": None, "stmt": {"preparatory_statements": [STMT]}, "count": {"projection": "count_star"}, "star": {"projection": "star", "output": "explain"}, "analyze": {"output": "explain_analyze"}}


def run_one(ck, h, n, files, folder):
    cfg, w = h["cfg"], World(h)
    db = {(0, 0): DB, (1, 0): TimeoutDB, (0, 1): WatchDB, (1, 1): WatchTimeoutDB}[cfg["timeout"], cfg["watch"]](w)
    pipe = MultiStageOptimizationPipeline(db).use(Stage(w)).build() if cfg["pipe"] else None
    if cfg["nq"] == 0: workload = Workload({})
    else: workload = Workload({LABELS[i - 1]: q for i, q in w.q.items()}, name="wl")
    labels = {i: LABELS[i - 1] for i in w.q}
    if not cfg["shuffled"] and cfg["nq"] and n % 2 and cfg["out"] != "parquet":
        workload = list(w.q.values()); labels = {i: i for i in w.q}
    prep = PREP[cfg["prep"]]
    if prep is not None and n % 2 == 0: prep = QueryPreparation(**prep)
    out = os.path.join(folder, f"deep{cfg['file']}", f"out.{cfg['out']}") if cfg["out"] != "none" else None
    cbs, reps, status = [], [], []
    log = os.path.join(folder, f"deep{cfg['file']}", "experiment_log.json")
    def cb(x):
        cbs.append(x)
        if out: status.append([e["status"] for e in json.load(open(log))])
    df, err = None, None
    try:
        df = execute_workload(workload, pipe or db, name="exp" if n < 3 else "other", workload_repetitions=cfg["wr"], per_query_repetitions=cfg["qr"], shuffled=cfg["shuffled"], query_preparation=prep,
                              timeout=2.5 if cfg["timeout"] else None, exec_callback=cb, repetition_callback=reps.append, progressive_output=out, error_action=cfg["policy"],
                              logger=w.log.append if n % 3 == 0 else None)
    except (Boom, Kill) as x: err = x
    what = f"{cfg['policy']}{' shuffled' if cfg['shuffled'] else ''}"
    expect(f"{what}: the run ended", h["ended"], "done" if err is None else "killed" if isinstance(err, Kill) else "failed")
    if isinstance(err, Boom):
        last = h["events"][-1]
        want = {"opt": f"cannot be optimized {last['i']}", "exec": "cannot be prepared" if last["out"] == "prep" else f"cannot be executed {last['i']}"}[last["k"]]
        expect(f"{what}: the error that aborted the run", want, str(err))
    require(f"{what}: all executions happened", not any(w.exe.values()) and not any(w.opt.values()), [len(x) for x in w.exe.values()])
    expect(f"{what}: reported repetitions", h["reps"], reps)
    rows = h["rows"]
    if cfg["shuffled"]:            # the order of the queries within a repetition is free, everything else is not
        order, k = [], 0
        for e, q, _ in w.seen:
            if (e["w"], e["i"]) not in order: order.append((e["w"], e["i"]))
        if True:
            got = [] if df is None else list(df[["workload_repetition", "label"]].itertuples(index=False, name=None))
            back = {v: k for k, v in labels.items()}
            order = list(dict.fromkeys((a, back.get(b)) for a, b in got))
        blocks = collections.defaultdict(list)
        for x in rows: blocks[x["w"], x["i"]].append(x)
        expect(f"{what}: each query is recorded once per repetition", sorted(blocks), sorted(order))
        require(f"{what}: repetitions stay together", [a for a, _ in order] == sorted(a for a, _ in order), order)
        rows = [x for b in order for x in blocks[b]]
    execs = {(e["w"], e["i"], e["r"]): (q, knob) for e, q, knob in w.seen}
    runtime = lambda x: 100 * x["w"] + 10 * x["i"] + x["r"] + .5
    def prepared(i):
        q = hinted(w, w.q[i]) if cfg["pipe"] else w.q[i]
        return QueryPreparation(**PREP[cfg["prep"]]).prepare_query(q) if PREP[cfg["prep"]] else q
    for x in rows:
        if x["status"] in ("ok", "timeout"):
            q = execs[x["w"], x["i"], x["r"]][0]
            text = str(q)
            expect(f"{what}: executed query", str(prepared(x["i"])), text)
            require(f"{what}: preparation {cfg['prep']} of the executed query", {"none": not q.is_explain(), "stmt": not q.is_explain(), "count": "COUNT(*)" in text.upper() and not q.is_explain(),
                    "star": q.is_explain() and not q.explain.analyze and "SELECT *" in text, "analyze": q.is_explain() and q.explain.analyze}[cfg["prep"]], text)
            require(f"{what}: the optimized query is executed", ("hintedt" in text) == cfg["pipe"], text)
    ignored = cfg["policy"] == "ignore" and len(rows) < cfg["nq"] * cfg["wr"] * cfg["qr"]
    if err is None:
        frame(what, df, rows, cfg, labels, w, execs, pipe, runtime, ignored)
    # callbacks
    live = [x for x in rows if x["status"] in ("ok", "timeout")]
    expect(f"{what}: number of reported executions", len(live), len(cbs))
    for x, c in zip(live, cbs):
        require(f"{what}: type of the reported execution", isinstance(c, ExecutionResult), c)
        expect(f"{what}: reported execution", (x["status"], SIMPLE[x["res"]]), (c.status, c.query_result))
        require(f"{what}: reported query is the executed one", str(c.query) == str(execs[x["w"], x["i"], x["r"]][0]), str(c.query))
        if x["status"] == "timeout": expect(f"{what}: reported time of a timeout", 2.5, c.execution_time)
        elif cfg["watch"]: expect(f"{what}: reported time", runtime(x), c.execution_time)
        else: require(f"{what}: reported time", 0 <= c.execution_time < 20, c.execution_time)
    # progressive output and experiment log
    if out:
        files.setdefault(out, []).extend(rows_text(rows, labels, w))
        check_file(what, out, files[out], cfg)
        logs = json.load(open(log))
        files.setdefault("runs", {})[n] = (cfg["file"], {"done": "completed", "failed": "failed", "killed": "interrupted"}[h["ended"]])
        want = [("exp" if r < 3 else "other", s) for r, (f, s) in files["runs"].items() if f == cfg["file"]]
        got = [(e["experiment"], e["status"]) for e in logs]         # nobody writes the log after the process was killed
        expect(f"{what}: experiments in the log", want, [(a, "interrupted" if w == "interrupted" and b in ("running", "failed") else b) for (a, b), (_, w) in zip(got, want)] + got[len(want):])
        e = logs[-1]
        expect(f"{what}: settings in the log", (cfg["wr"], cfg["qr"], cfg["shuffled"], 2.5 if cfg["timeout"] else None), (e["workload_repetitions"], e["per_query_repetitions"], e["shuffled"], e["query_timeout"]))
        expect(f"{what}: workload in the log", {str(labels[i]): str(q) for i, q in w.q.items()}, {k: v["query"] for k, v in e["workload"]["queries"].items()})
        if h["ended"] != "killed": require(f"{what}: the experiment ended after it started", e["end_time"] and e["start_time"] <= e["end_time"], e)
        if h["ended"] == "failed": expect(f"{what}: error in the log", {"type": "Boom", "message": str(err)}, e["error"])
        for s in status: expect(f"{what}: status while running", "running", s[-1])
    if df is not None and len(df): derived(what, df, labels)


def rows_text(rows, labels, w):
    """what identifies a row in the progressive output"""
    return [(str(labels[x["i"]]), x["w"], x["r"] if w.cfg["policy"] != "ignore" else None, x["status"], str(w.q[x["i"]]), x["res"]) for x in rows]


def readable(v):
    v = SIMPLE[v]
    return {"", "null", "None", "nan"} if v is None else {str(v), json.dumps(v)}


def check_file(what, out, want, cfg):
    if not want:
        require(f"{what}: nothing is written without records", not os.path.exists(out)); return
    require(f"{what}: progressive output exists", os.path.exists(out))
    kind = cfg["out"]
    df = pd.read_csv(out, dtype=str, keep_default_na=False) if kind == "csv" else pd.read_json(out, dtype=False) if kind == "json" else pd.read_parquet(out)
    got = [(str(a), int(b), int(c), d, e) for a, b, c, d, e in df[["label", "workload_repetition", "query_repetition", "status", "query"]].itertuples(index=False, name=None)]
    got = [x[:2] + (x[2] if y[2] else None, x[3], x[4].strip('"')) for x, y in zip(got, want)] + got[len(want):]        # queries are exported as JSON strings
    if kind == "csv": expect(f"{what}: progressive output", [x[:5] for x in want], got)
    else: expect(f"{what}: progressive output", [x[:4] for x in want], [x[:4] for x in got])
    if kind == "csv":
        for x, res in zip(want, df["query_result"]): require(f"{what}: result in the progressive output", res in readable(x[5]) or res.replace(" ", "") in {y.replace(" ", "") for y in readable(x[5])}, (x, res))


def frame(what, df, rows, cfg, labels, w, execs, pipe, runtime, ignored):
    expect(f"{what}: number of rows", len(rows), len(df))
    require(f"{what}: columns", set(df.columns) >= {"exec_index", "label", "timestamp", "workload_repetition", "query_repetition", "query", "status", "query_result", "exec_time", "failure_reason", "db_config", "query_preparation", "optimization_time", "optimization_pipeline", "optimized_query"}, list(df.columns))
    idx = list(df.exec_index)
    if ignored: require(f"{what}: execution numbers increase", all(a < b for a, b in zip(idx, idx[1:])), idx)
    else: expect(f"{what}: execution numbers", list(range(1, len(rows) + 1)), idx)
    expect(f"{what}: frame index", list(range(len(rows))), list(df.index))
    for x, (_, g) in zip(rows, df.iterrows()):
        st = x["status"]
        if cfg["policy"] == "ignore":      # skipped repetitions leave no trace in the numbering of the repetitions that are recorded
            expect(f"{what}: record", (labels[x["i"]], x["w"], st), (g.label, g.workload_repetition, g.status))
        else: expect(f"{what}: record", (labels[x["i"]], x["w"], x["r"], st), (g.label, g.workload_repetition, g.query_repetition, g.status))
        require(f"{what}: query of the record", g["query"] is w.q[x["i"]], g["query"])
        res = g.query_result
        if st == "ok": expect(f"{what}: result of the record", SIMPLE[x["res"]], res)
        else: require(f"{what}: no result for {st}", res is None or (isinstance(res, float) and math.isnan(res)), res)
        t = g.exec_time
        if st == "timeout": expect(f"{what}: time of a timeout", 2.5, t)
        elif st != "ok": require(f"{what}: no time for {st}", math.isnan(t), t)
        elif cfg["watch"]: expect(f"{what}: time measured by the database", runtime(x), t)
        else: require(f"{what}: execution time", 0 <= t < 20, t)
        if st in ("ok", "timeout"): require(f"{what}: no failure reason for {st}", g.failure_reason in ("", None), g.failure_reason)
        elif st == "optimization-error": expect(f"{what}: reason of {st}", f"cannot be optimized {x['i']}", g.failure_reason)
        else: require(f"{what}: reason of {st}", g.failure_reason in (f"cannot be executed {x['i']}", "cannot be prepared"), g.failure_reason)
        if st in ("ok", "timeout"): expect(f"{what}: database configuration at execution", {"knob": execs[x["w"], x["i"], x["r"]][1]}, g.db_config)
        if st != "optimization-error": require(f"{what}: timestamp", not pd.isna(g.timestamp))
        require(f"{what}: pipeline", g.optimization_pipeline is pipe or (pipe is None and pd.isna(g.optimization_pipeline)), g.optimization_pipeline)
        if pipe is not None and st != "optimization-error":
            require(f"{what}: optimized query", str(g.optimized_query) == str(hinted(w, w.q[x["i"]])), g.optimized_query)
            require(f"{what}: optimization time", 0 <= g.optimization_time < 20, g.optimization_time)
        else:
            require(f"{what}: nothing was optimized", g.optimized_query is None or pd.isna(g.optimized_query), g.optimized_query)
            require(f"{what}: no optimization time", math.isnan(g.optimization_time), g.optimization_time)
        require(f"{what}: preparation", (PREP[cfg["prep"]] is None) == (g.query_preparation is None), g.query_preparation)
    times = [t for t in df.timestamp if not pd.isna(t)]
    require(f"{what}: timestamps follow the execution", times == sorted(times), times)


def derived(what, df, labels):
    before = df.copy()
    exp = prepare_export(df)
    require(f"{what}: the export has the same rows", len(exp) == len(df) and list(exp.label) == list(df.label))
    for a, b in zip(df.query_result, exp.query_result):
        if isinstance(a, (list, tuple)): require(f"{what}: exported result", isinstance(b, str) and json.loads(b) == json.loads(json.dumps(a)), (a, b))
    for a, b in zip(df.optimization_pipeline, exp.optimization_pipeline):
        if a is not None and not (isinstance(a, float)): require(f"{what}: exported pipeline", json.loads(b) == json.loads(pb.util.to_json(a.describe())), b)
    require(f"{what}: exporting keeps the frame", before.equals(df) or list(before.label) == list(df.label))
    exp.to_csv(io.StringIO())
    s = sort_results(df)
    pos = {str(l): i for i, l in enumerate(labels.values())}
    require(f"{what}: sorted results", [pos[str(l)] for l in s.label] == sorted(pos[str(l)] for l in df.label), list(s.label))
    for l in set(df.label):
        require(f"{what}: sorting keeps the rows of a query in order of execution", list(s[s.label == l].exec_index) == sorted(df[df.label == l].exec_index), list(s.exec_index))


def replay(ck):
    def go(c):
        with tempfile.TemporaryDirectory(prefix="vk-c19-") as folder:
            files = {}
            for n, h in enumerate(c["h"], 1):
                for e in h["events"]: ck.steps += 1; ck.act(f"{e['k']} {e['out']} {h['cfg']['policy']}")
                run_one(ck, h, n + sum(h["cfg"][k] for k in ("nq", "qr")) * 0, files, folder)
    return go


def sig(c, clause): return clause


def run(ck):
    INV, B, jobs = ("Emit", "NoDuplicates", "InOrder", "AllRecorded", "RepsReported", "FileMatches", "Callbacks", "LogsEnd"), {True, False}, []
    F, P = {False}, {"log", "ignore", "raise"}
    k = dict(Policies=P, Shuffles=F, Watches={True}, Results={1}, MaxRuns=1, Kills=False, Sim=False)
    jobs.append(("C19", dict(label="one run, 2 queries x 2 repetitions", constants=dict(k, NQ={0, 2}, WR={1}, QR={2}, Outs={"csv"}, Preps={"stmt"} if not ck.quick else {"none"}, Timeouts={True} if not ck.quick else {True}, Pipes={True}), invariants=INV, properties=("OnlyGrow",))))
    jobs.append(("C19", dict(label="one run, 2 workload repetitions", constants=dict(k, NQ={2}, WR={2}, QR={1}, Outs={"none", "json"} if not ck.quick else {"none"}, Preps={"none", "stmt"} if not ck.quick else {"stmt"}, Timeouts=F, Pipes=B), invariants=INV, properties=("OnlyGrow",))))
    jobs.append(("C19", dict(label="two runs", constants=dict(k, NQ={1}, WR={1}, QR={1, 2}, Outs={"csv", "json"}, Preps={"none"}, Timeouts=F, Pipes=B if not ck.quick else F, MaxRuns=2, Kills=True), invariants=INV, properties=("OnlyGrow",))))
    for n in range(3 if ck.quick else 8):
        outs, res = ({"none", "csv", "json"}, {1, 2, 3, 4, 5}) if n % 2 == 0 else ({"parquet", "csv", "none"}, {1})
        jobs.append(("C19", dict(label=f"long runs {n}", constants=dict(k, NQ={0, 1, 2, 3, 5}, WR={1, 2, 3}, QR={1, 2, 3}, Outs=outs, Preps={"none", "stmt", "count", "star", "analyze"}, Timeouts=B, Pipes=B, Shuffles=B, Watches=B, Results=res, MaxRuns=3, Kills=n % 4 > 1, Sim=True),
                                 invariants=INV, sim=150 if ck.quick else 600, depth=250, seed=ck.seed * 23 + n)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r); ck.replay(r.cases, replay(ck), sig=sig, kind=r.label)
