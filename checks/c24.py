import contextlib, json, math, tempfile, warnings
from unittest import mock
import postbound as pb
from postbound import TableReference, Cardinality, QueryPlan
from postbound.postgres import PostgresExplainPlan, PostgresOptimizer
from postbound.duckdb import DuckDBOptimizer, parse_duckdb_plan
from postbound.parser import parse_query
from vk import tlc, fakepg
from vk.core import expect, require, Mismatch

FORMS = ("dict", "list", "tuple", "raw")


def describe_pg(d):
    """The JSON object with which Postgres reports the node"""
    o = {"Node Type": d["ty"]}
    if d["rel"]: o["Parent Relationship"] = d["rel"]
    if d["nm"]: o["Subplan Name"] = d["nm"]
    if d["tab"]: o |= {"Relation Name": d["tab"], "Alias": d["al"]}
    if d["ix"]: o["Index Name"] = d["ix"]
    if d["cost"] >= 0: o |= {"Startup Cost": 0.0, "Total Cost": d["cost"] + 0.25}
    if d["est"] >= 0: o |= {"Plan Rows": d["est"], "Plan Width": 8}
    if d["ms"] >= 0: o |= {"Actual Startup Time": 0.0, "Actual Total Time": d["ms"] + 0.5}
    if d["q"] >= 0: o |= {"Actual Rows": d["q"] // 4 if d["q"] % 4 == 0 else d["q"] / 4, "Actual Loops": d["loops"]}
    if d["p"] >= 0: o["Workers Planned"] = d["p"]
    if d["l"] >= 0: o["Workers Launched"] = d["l"]
    if d["hits"] >= 0: o["Shared Hit Blocks"] = d["hits"]
    if d["misses"] >= 0: o["Shared Read Blocks"] = d["misses"]
    if d["kids"]: o["Plans"] = [describe_pg(k) for k in d["kids"]]
    return o


def describe_duck(d, profile):
    name, info = d["ty"], {}
    if d["tab"]:
        info |= {"Table": d["tab"], "Type": "Sequential Scan" if name == "Sequential Scan" else "Index Scan"}
        name = "SEQ_SCAN "
    if d["est"] >= 0: info["Estimated Cardinality"] = str(d["est"])
    o = {"operator_name" if profile else "name": name, "extra_info": info, "children": [describe_duck(k, profile) for k in d["kids"]]}
    if d["q"] >= 0: o["operator_cardinality"] = d["q"] // 4
    if d["ms"] >= 0: o["operator_timing"] = d["ms"] / 1000
    return o


def num(x):
    if x is None: return -1
    v = x.get() if isinstance(x, Cardinality) else x
    return -1 if math.isnan(v) else v


def cmp(where, w, p, sys, bound):
    at = f"{where}/{w['ty']}"
    expect(f"{at}: operator", w["op"] or None, p.operator.name if p.operator else None)
    if sys == "pg" or not w["op"]: expect(f"{at}: node type", w["ty"], p.node_type)
    tab = TableReference(w["tab"], "" if w["al"] == w["tab"] else w["al"]) if w["tab"] and bound else None
    expect(f"{at}: table", tab, p.base_table)
    expect(f"{at}: scan or join", (bool(w["op"]) and w["op"].endswith("Scan"), bool(w["op"]) and w["op"].endswith("Join")), (p.is_scan(), p.is_join()))
    expect(f"{at}: estimated cardinality", w["est"], num(p.estimated_cardinality))
    expect(f"{at}: actual cardinality", w["act"], num(p.actual_cardinality))
    require(f"{at}: cardinality types", isinstance(p.estimated_cardinality, Cardinality) and isinstance(p.actual_cardinality, Cardinality))
    expect(f"{at}: cost", w["cost"] + 0.25 if w["cost"] >= 0 else -1, num(p.estimated_cost))
    ms = w["ms"] + (0.5 if sys == "pg" else 0)
    require(f"{at}: execution time", math.isclose(num(p.execution_time), ms / 1000, abs_tol=1e-9) if w["ms"] >= 0 else math.isnan(p.execution_time), (w["ms"], p.execution_time))
    expect(f"{at}: cache hits", w["hits"], num(p.measures.cache_hits))
    expect(f"{at}: cache misses", w["misses"], num(p.measures.cache_misses))
    expect(f"{at}: workers", w["w"], p.params.parallel_workers)
    expect(f"{at}: index", w["ix"], p.params.index)
    expect(f"{at}: number of inputs", len(w["kids"]), len(p.children))
    for i, (a, b) in enumerate(zip(w["kids"], p.children)): cmp(f"{at}[{i}]", a, b, sys, bound)
    if len(w["kids"]) == 2: require(f"{at}: outer and inner", p.outer_child is p.children[0] and p.inner_child is p.children[1])
    if not w["subs"]:
        require(f"{at}: no subplan", p.subplan is None, p.subplan)
    else:
        require(f"{at}: subplan", p.subplan is not None)
        errors = []
        for sub in w["subs"]:
            try: cmp(f"{at}(sub)", sub, p.subplan.root, sys, bound); break
            except Mismatch as e: errors.append(e)
        else: raise errors[0]


SERVER = []


def connect(answer):
    """A Postgres connection whose EXPLAIN answer is fixed"""
    if not SERVER:
        server = fakepg.Server(answer=lambda sql, params, cnx: [(server.plan,)] if "EXPLAIN" in sql.upper() else [])
        SERVER.extend([server, fakepg.interface(server)])
    SERVER[0].plan = answer
    SERVER[0].log.clear()
    return SERVER[1].optimizer()


class Duck:
    def __init__(self, answer): self.answer = answer
    def hinting(self): return self
    def format_query(self, q): return q
    def cursor(self): return self
    def execute(self, q): return self
    def fetchone(self): return ("physical_plan", json.dumps([self.answer]))
    def execute_query(self, q, **kw): return [self.fetchone()]


def size(p):
    if isinstance(p, dict): return 1 + sum(map(size, p["kids"])) + sum(map(size, p["subs"]))
    return 1 + sum(map(size, p.children)) + (size(p.subplan.root) if p.subplan else 0)


def pg(case):
    d, w = case["plan"], case["want"]
    raw = {"Plan": describe_pg(d), "Planning Time": 12.5, "Execution Time": 250}
    before = json.dumps(raw)
    opt = connect([raw])
    first = PostgresExplainPlan(raw)
    plans = {"explain plan": first.as_qep(), "node": first.root.as_qep(), "dict": opt.parse_plan(raw), "list": opt.parse_plan([raw]), "raw": opt.parse_plan([([raw],)])}
    q = parse_query("SELECT * FROM r")
    plans["query_plan"], plans["analyze_plan"] = opt.query_plan(q), opt.analyze_plan(q)
    plans["query_plan of text"] = opt.query_plan("SELECT * FROM r")
    for how, plan in plans.items(): cmp(how, w, plan, "pg", True)
    if w["est"] >= 0: expect("cardinality estimate", w["est"], num(opt.cardinality_estimate(q)))
    if w["cost"] >= 0: expect("cost estimate", w["cost"] + 0.25, opt.cost_estimate(q))
    expect("planning time", 0.0125, first.planning_time)
    expect("execution time", 0.25, first.execution_time)
    expect("is analyze", w["ms"] >= 0, first.is_analyze())
    expect("the description is not modified", before, json.dumps(raw))
    expect("the description is kept", raw, first.__json__())
    expect("all subqueries of a node are imported", size(w), size(first.as_qep()))
    statements = [str(t).upper() for t, _ in SERVER[0].log if "EXPLAIN" in str(t).upper()]
    require("the database is asked for the plan", len(statements) >= 3 and all("JSON" in t for t in statements), statements)
    require("only analyze_plan runs the query", ["ANALYZE" in t for t in statements] == [i == 1 for i in range(len(statements))], statements)


def tables(d):
    return ([TableReference(d["tab"], "" if d["al"] == d["tab"] else d["al"])] if d["tab"] else []) + [t for k in d["kids"] for t in tables(k)]


def duck(case):
    d, w = case["plan"], case["want"]
    tabs = tables(d)
    q = parse_query("SELECT * FROM " + ", ".join(str(t) for t in tabs)) if tabs else None
    flat, prof = describe_duck(d, False), describe_duck(d, True)
    wrapped = {"children": [{"operator_name": "EXPLAIN_ANALYZE", "extra_info": {}, "children": [prof]}], "latency": 1.0}
    before = json.dumps(wrapped)
    opt = DuckDBOptimizer(Duck(flat))
    plans = {"dict": parse_duckdb_plan(flat, query=q), "text": parse_duckdb_plan(json.dumps(flat), query=q), "profile": parse_duckdb_plan(wrapped, query=q),
             "parse_plan list": opt.parse_plan([flat], query=q), "parse_plan raw": opt.parse_plan([("analyzed_plan", json.dumps(wrapped))], query=q),
             "query_plan": opt.query_plan(q), "analyze_plan": DuckDBOptimizer(Duck(wrapped)).analyze_plan(q)}
    for how, plan in plans.items(): cmp(how, w, plan, "duck", True)
    cmp("without query", w, parse_duckdb_plan(flat), "duck", False)
    expect("the description is not modified", before, json.dumps(wrapped))


TEMPLATES = ["SELECT {cols} FROM {tabs}{where}", "SELECT count(*) FROM {tabs}{where}", "SELECT {cols} FROM {tabs}{where} ORDER BY 1 LIMIT 3",
             "SELECT {first}, count(*) FROM {tabs}{where} GROUP BY {first}", "SELECT {cols} FROM {tabs}{where} AND {one}.b > 1",
             "SELECT DISTINCT {first} FROM {tabs}{where} ORDER BY 1 DESC"]


def real_queries():
    for tabs in (["r"], ["s"], ["r", "s"], ["s", "r AS x"], ["r", "s", "t"], ["t", "s AS y", "r"], ["r AS a", "s AS b", "t AS c"]):
        names = [t.split()[-1] for t in tabs]
        for where in ({"a"}, {"a", "b"}):
            conds = [f"{m}.a {'=' if 'b' not in where else '<='} {k}.a" for m, k in zip(names, names[1:])] or [f"{names[0]}.a < 4"]
            for t in TEMPLATES:
                yield t.format(cols=", ".join(f"{m}.b" for m in names), first=f"{names[0]}.b", one=names[-1], tabs=", ".join(tabs), where=" WHERE " + " AND ".join(conds))


def described(raw, analyzed, names):
    """The specification's view of what DuckDB reported"""
    info = raw["extra_info"]
    tab = info.get("Table", "") if raw["ty"].startswith("SEQ_SCAN") else ""
    tab = tab.split(".")[-1]
    return dict(ty={"Sequential Scan": "Sequential Scan", "Index Scan": "Index Scan (duck)"}[info["Type"]] if tab else raw["ty"], rel="", tab=tab, al=names.get(tab, tab),
                ix="", nm="", p=-1, l=-1, est=int(info.get("Estimated Cardinality", -1)), cost=-1, q=4 * raw["operator_cardinality"] if analyzed else -1, loops=-1,
                ms=round(raw["operator_timing"] * 1e9) if analyzed else -1, hits=-1, misses=-1, kids=[described(k, analyzed, names) for k in raw["children"]])


def recorded(p):
    """The specification's view of an imported plan"""
    op = p.operator.name if p.operator else ""
    tab = p.base_table
    return dict(ty={"SequentialScan": "Sequential Scan", "IndexScan": "Index Scan (duck)", "HashJoin": "HASH_JOIN"}.get(op, p.node_type), op=op,
                tab=tab.full_name if tab else "", al=tab.identifier() if tab else "", ix=p.params.index, est=num(p.estimated_cardinality), act=num(p.actual_cardinality),
                cost=num(p.estimated_cost), ms=-1 if math.isnan(p.execution_time) else round(p.execution_time * 1e9), hits=num(p.measures.cache_hits), misses=num(p.measures.cache_misses),
                w=p.params.parallel_workers, kids=[recorded(k) for k in p.children], subs=[recorded(p.subplan.root)] if p.subplan else [])


def typed(raw):
    return dict(raw, ty=raw.get("name") or raw.get("operator_name"), children=[typed(k) for k in raw["children"]])


def core(p):
    while not isinstance(p, dict) or not (p.get("name") or p.get("operator_name")) or "EXPLAIN" in (p.get("name") or p.get("operator_name")):
        p = p[0] if isinstance(p, list) else p["children"][0]
    return typed(p)


def real(ck):
    """Lets a real DuckDB plan and run queries, and has the specification judge what the system makes of its reports."""
    import quacklab
    from postbound.duckdb import DuckDBInterface
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cn = quacklab.connect(f"{d}/x.db")
        cn.execute("CREATE TABLE r (a INT PRIMARY KEY, b INT); CREATE TABLE s (a INT, b INT); CREATE TABLE t (a INT, b INT);"
                   "INSERT INTO r SELECT i, i % 3 FROM range(10) x(i); INSERT INTO s SELECT i % 4, i FROM range(30) x(i); INSERT INTO t SELECT i, NULL FROM range(5) x(i)")
        cn.close()
        db = DuckDBInterface(f"{d}/x.db")
        seen = []
        traces, texts = [], []
        for sql in real_queries():
            q = parse_query(sql)
            names = {t.full_name: t.identifier() for t in q.tables()}
            # what the system imports is compared with the very report it was given
            with spy(seen):
                for how, fn in (("query_plan", lambda: db.optimizer().query_plan(q)), ("analyze_plan", lambda: db.optimizer().analyze_plan(q)),
                                ("analyze_plan with timeout", lambda: db.optimizer().analyze_plan(q, timeout=30.0))):
                    seen.clear()
                    try: plan = fn()
                    except Exception as e:
                        if seen and seen[0] == {"result": "error"}: continue    # DuckDB could not report the plan
                        ck.fail(f"real DuckDB: {how} fails", f"{sql}: {e!r}", dict(sql=sql, how=how)); continue
                    if not seen: raise tlc.MachineryError(f"no report of DuckDB was seen for {sql}")
                    traces.append(dict(plan=described(core(seen[0]), how != "query_plan", names), got=recorded(plan)))
                    texts.append((how, sql))
        db.close()
    r = tlc.run("C24T", label="recorded DuckDB imports", spec="SpecT", constants=dict(Sys="duck", MaxOps=0, MaxStack=0, Variants={"explain"}, Sim=False, Rich=False),
                invariants=["Verdict"], files={"traces.json": json.dumps(traces)})
    verdicts = ck.add_run(r)
    if len(verdicts) != len(traces): raise tlc.MachineryError("not every recorded import was judged")
    for v in verdicts:
        ck.traces += 1
        ck.steps += 1
        how, sql = texts[v["i"] - 1]
        ck.act(f"real DuckDB {how}")
        if not v["ok"]: ck.fail(f"real DuckDB {how}", f"{sql}: specification says {v['want']}, recorded {traces[v['i'] - 1]['got']}", dict(sql=sql, how=how, **traces[v["i"] - 1]))


@contextlib.contextmanager
def spy(seen):
    """Notes the JSON texts that are decoded while a plan is imported: what DuckDB reported"""
    original = json.loads

    def loads(s, *a, **kw):
        v = original(s, *a, **kw)
        seen.append(v)
        return v
    with mock.patch("json.loads", loads): yield


def one(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (pg if case["sys"] == "pg" else duck)(case)


def sig(case, clause):
    return f"{case['sys']} {clause}"


def run(ck):
    from vk.tlc import run_many
    allv = {"explain", "analyze", "loops", "never", "timing off", "costs off"}
    inv = ["NothingLost", "Emit"]
    few = dict(MaxStack=2, Rich=False, Sim=False)
    jobs = [("C24", dict(label="postgres: shapes", constants=dict(Sys="pg", MaxOps=4 if ck.quick else 5, Variants={"loops"}, **few), invariants=inv)),
            ("C24", dict(label="postgres: all node types", constants=dict(Sys="pg", MaxOps=2, MaxStack=2, Rich=True, Sim=False, Variants=allv), invariants=inv)),
            ("C24", dict(label="duckdb: shapes", constants=dict(Sys="duck", MaxOps=5 if ck.quick else 6, Variants={"analyze"}, **few), invariants=inv)),
            ("C24", dict(label="duckdb: all node types", constants=dict(Sys="duck", MaxOps=3, MaxStack=2, Rich=True, Sim=False, Variants={"explain", "analyze", "never", "timing off"}), invariants=inv)),
            ("C24", dict(label="postgres: random", constants=dict(Sys="pg", MaxOps=12, MaxStack=4, Rich=True, Sim=True, Variants=allv), invariants=inv, sim=400 if ck.quick else 6000, depth=13, seed=ck.seed)),
            ("C24", dict(label="duckdb: random", constants=dict(Sys="duck", MaxOps=12, MaxStack=4, Rich=True, Sim=True, Variants={"explain", "analyze", "never", "timing off", "costs off"}), invariants=inv, sim=300 if ck.quick else 4000, depth=13, seed=ck.seed))]
    cases = []
    for r in run_many(jobs, 4): cases += ck.add_run(r)
    for c in cases:
        ck.act(f"{c['sys']}/{c['plan']['ty']}")
        ck.steps += 1
    ck.replay(cases, one, sig=sig)
    real(ck)
