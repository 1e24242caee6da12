import csv, math, os, tempfile, warnings
from postbound import Cardinality, JoinTree, TableReference, util
from postbound.opt import CardinalityDistortion, PreciseCardinalities, PreComputedCardinalities
from postbound.duckdb import DuckDBInterface
from postbound.parser import parse_query
from postbound.workloads import Workload
from vk.core import expect, require

warnings.simplefilter("ignore")
TABS = ["r", "s", "t", "u"]

SECOND = ["x", "z", "y", "v"]        # the second query uses aliases, so the queries never share a fragment


class Live:
    """The database as the fallback sees it: its optimizer's estimates are told apart from true cardinalities"""
    def __init__(self, db): self.db = db
    def execute_query(self, q, **kw): return self.db.execute_query(q, **kw)
    def optimizer(self): return self
    def cardinality_estimate(self, q):
        from postbound import transform
        return Cardinality(1000 + self.db.execute_query(transform.as_count_star_query(q)))


class World:
    def __init__(self, case, folder):
        self.cfg, start = case["cfg"], case["start"]
        self.n = len(start["data"])
        self.k = len(str(case["h"]))
        self.db = DuckDBInterface(":memory:", cache_enabled=False)
        cur = self.db.cursor()
        for t, rows in zip(TABS, start["data"]):
            cur.execute(f"CREATE TABLE {t} (a INTEGER, b INTEGER)")
            for r in rows: self.insert(t, r)
        # samples are told apart by the label of the query, cached results are not
        self.aliased = False
        self.labeled = [parse_query(self.text(k, q), bind_columns=False) for k, q in enumerate(case["qs"], 1)]
        self.aliased = True
        self.queries = [parse_query(self.text(k, q), bind_columns=False) for k, q in enumerate(case["qs"], 1)]
        self.aliased = False
        self.workload = Workload({"q" + "1" * k: q for k, q in enumerate(self.labeled, 1)}, "w")
        self.file = os.path.join(folder, "cards.csv")
        self.names = dict(label_col="label", tables_col="tables", cardinality_col="cardinality") if self.k % 2 else dict(label_col="name", tables_col="intermediate", cardinality_col="rows")
        extra = ["query", "query_fragment"] if self.k % 3 == 0 else []
        with open(self.file, "w", newline="") as f:
            out = csv.writer(f)
            out.writerow(list(self.names.values()) + extra)
            for s in start["samples"]:
                tabs = [self.table(s["q"], t) for t in s["s"]]
                out.writerow(["q" + "1" * s["q"], util.to_json(tabs[::-1] if self.k % 5 else tabs), s["n"]] + ["-"] * len(extra))
        cross = self.cfg["cross"]
        self.precise = PreciseCardinalities(self.db, allow_cross_products=cross) if self.k % 2 else PreciseCardinalities(self.db, enable_cache=False, allow_cross_products=cross)
        self.cached = PreciseCardinalities(self.db, enable_cache=True, allow_cross_products=cross)
        self.reload()

    def reload(self):
        c, kw = self.cfg, {}
        if c["def"] != -3: kw["default_cardinality"] = Cardinality(c["def"]) if c["def"] >= 0 else Cardinality.unknown()
        if c["live"] != "none":
            kw |= dict(live_fallback=True, live_db=Live(self.db))
            if c["live"] == "actual" or self.k % 3: kw["live_fallback_style"] = c["live"]
        if not c["save"] or self.k % 3: kw["save_live_fallback_results"] = c["save"]
        if not c["err"] or self.k % 3: kw["error_on_missing_card"] = c["err"]
        names = self.names if self.k % 2 == 0 or self.k % 3 else {}
        self.lookup = PreComputedCardinalities(self.workload, self.file, include_cross_products=c["cross"], **names, **kw)
        style = dict(distortion_strategy="random") if c["random"] else dict(distortion_strategy="fixed") if self.k % 2 else {}
        self.distorted = CardinalityDistortion(self.cached, c["num"] / 2, **style)
        self.distorted_lookup = CardinalityDistortion(self.lookup, c["num"] / 2, **style)

    def insert(self, t, row): self.db.cursor().execute(f"INSERT INTO {t} VALUES (?, ?)", row)
    def table(self, q, t): return TableReference(TABS[t - 1], SECOND[t - 1] if q == 2 and self.aliased else "")
    def text(self, k, q):
        ref = lambda t, c: f"{self.table(k, t).identifier()}.{'ab'[c - 1]}"
        conds = [f"{ref(j['t'], j['c'])} = {ref(j['u'], j['d'])}" for j in q["joins"]] + [f"{ref(f['t'], f['c'])} = {f['v']}" for f in q["filters"]]
        tabs = [f"{TABS[t - 1]} AS {self.table(k, t).alias}" if k == 2 and self.aliased else TABS[t - 1] for t in range(1, self.n + 1)]
        return f"SELECT COUNT(*) FROM {', '.join(tabs)} WHERE {' AND '.join(conds)}"


def compare(what, a, got):
    require(f"{what}: a cardinality", isinstance(got, Cardinality), got)
    if a["lo"] == -1: return require(f"{what}: unknown", math.isnan(got.get()), got)
    require(what, a["lo"] <= got.get() <= a["hi"], (a, got))


def replay(ck):
    def go(case):
        with tempfile.TemporaryDirectory(prefix="vk-c26-") as d, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = World(case, d)
            try:
                for n, s in enumerate(case["h"]):
                    ck.steps += 1; ck.act(f"{s['op']} {s['est']}".strip())
                    step(w, s, n)
            finally: w.db.close()
    return go


def step(w, s, n):
    if s["op"] == "insert": return w.insert(TABS[s["q"] - 1], s["tabs"])
    if s["op"] == "reset": return w.cached.reset_cache()
    if s["op"] == "reload": return w.reload()
    est = getattr(w, s["est"].replace(" ", "_"))
    w.aliased = "lookup" not in s["est"]
    q = (w.queries if w.aliased else w.labeled)[s["q"] - 1]
    what = f"{s['op']} {s['est']}"
    fails = any(x["a"]["lo"] == -2 for x in s["list"])
    try:
        if s["op"] == "estimate":
            tabs = [w.table(s["q"], t) for t in s["tabs"]]
            got = {frozenset(tabs): est.calculate_estimate(q, tabs[0] if len(tabs) == 1 and n % 2 else frozenset(tabs) if n % 3 else tabs)}
        elif s["op"] == "all": got = est.estimate_cardinalities(q) if n % 2 else est.generate_plan_parameters(q, None, None)
        else:
            tree = JoinTree.scan(w.table(s["q"], s["tabs"][0]))
            for t in s["tabs"][1:]: tree = JoinTree.join(tree, JoinTree.scan(w.table(s["q"], t)))
            got = est.generate_plan_parameters(q, tree, None)
    except ValueError as e:
        require(f"{what}: no error, because there is an answer", fails, e); return
    require(f"{what}: missing cardinalities are an error", not fails, got)
    want = {frozenset(w.table(s["q"], t) for t in x["s"]): x["a"] for x in s["list"]}
    if s["op"] != "estimate":
        got = dict(got.cardinalities)
        require(f"{what}: exactly the intermediates with an estimate", {k for k, a in want.items() if a["lo"] != -1} == set(got), (want, got))
    for tabs, card in got.items(): compare(what, want[tabs], card)


def sig(case, clause): return clause


def run(ck):
    from vk.tlc import run_many
    inv = ["Distinct", "Fresh", "Bounds", "Emit"]
    jobs = [("C26", dict(label="all short histories", constants=dict(N=2, MaxLen=2, Sim=False), invariants=inv, properties=["Stays"])),
            ("C26", dict(label="random histories", constants=dict(N=3, MaxLen=10, Sim=True), invariants=inv, sim=250 if ck.quick else 5000, depth=12, seed=ck.seed)),
            ("C26", dict(label="random histories, four tables", constants=dict(N=4, MaxLen=8, Sim=True), invariants=inv, sim=150 if ck.quick else 3000, depth=10, seed=ck.seed)),
            ("C26", dict(label="random histories, two tables", constants=dict(N=2, MaxLen=14, Sim=True), invariants=inv, sim=200 if ck.quick else 5000, depth=16, seed=ck.seed + 1))]
    cases = []
    for r in run_many(jobs, 4):
        found = ck.add_run(r)
        step = 1 if r.label.startswith("random") else 40 if ck.quick else 4
        cases += found[ck.seed % step::step]
    ck.replay(cases, replay(ck), sig=sig)
