"""Hint generation: the hint blocks of the three back ends are read back and compared with the decisions."""
import math, os, re, tempfile, warnings
import pglast, quacklab
import postbound as pb
from postbound import (IntermediateOperator, JoinOperator, JoinTree, PhysicalOperatorAssignment, PlanParameterization, QueryPlan, ScanOperator, TableReference, qal)
from postbound._hints import DirectionalJoinOperatorAssignment, JoinOperatorAssignment, ScanOperatorAssignment
from postbound.db import UnsupportedDatabaseFeatureError
from postbound.duckdb import DuckDBInterface
from postbound.opt._helpers import to_query_plan
from postbound.parser import parse_query
from vk import fakepg, tlc
from vk.core import Mismatch, expect, require

OPS = {o.name: o for e in (ScanOperator, JoinOperator, IntermediateOperator) for o in e}
GEQO = 4
NAMES = {1: ("t1", "a1"), 2: ("t2", ""), 3: ("t3", "c"), 4: ("long_name_4", "")}
T = lambda i: TableReference(*NAMES[i])
IDENT = {(a or n): i for i, (n, a) in NAMES.items()}
PG_SETTINGS = {"s1": ("join_collapse_limit", 1), "s2": ("constraint_exclusion", "on"), "s3": ("jit", False)}
DUCK_SETTINGS = {"s1": ("threads", 3, 3), "s2": ("default_order", "DESC", "DESC"), "s3": ("preserve_insertion_order", False, False)}
NAME = {"SeqScan": "SequentialScan", "IdxScan": "Index", "IndexScan": "Index", "IndexOnlyScan": "Index", "BitmapScan": "BitmapScan", "NestLoop": "NestedLoopJoin", "HashJoin": "HashJoin",
        "MergeJoin": "SortMergeJoin", "Memoize": "Memoize", "Memo": "Memoize", "Material": "Materialize", "Materialize": "Materialize"}
SETTING = {"enable_nestloop": "NestedLoopJoin", "enable_hashjoin": "HashJoin", "enable_mergejoin": "SortMergeJoin", "enable_seqscan": "SequentialScan", "enable_indexscan": "IndexScan",
           "enable_indexonlyscan": "IndexOnlyScan", "enable_bitmapscan": "BitmapScan", "enable_memoize": "Memoize", "enable_material": "Materialize", "enable_sort": "Sort"}
BOOL = {"on": 1, "true": 1, "off": 0, "false": 0}


def opname(o): return "Index" if o in ("IndexScan", "IndexOnlyScan") else o


def spec_tree(t):
    return t["t"] if t["k"] == "scan" else (spec_tree(t["ch"][0]), spec_tree(t["ch"][1]))


def spec_hint(h):
    k = h["h"]
    if k == "leading": return ("leading", spec_tree(h["tree"]))
    if k == "op": return ("op", opname(h["op"]), frozenset(h["s"]))
    if k == "card": return ("card", frozenset(h["s"]), h["v"])
    if k == "glob": return ("glob", h["op"], h["v"])
    if k == "par": return ("par", frozenset(h["s"]), h["v"])
    return (k, h["name"])


# ------------------------------------------------------------------ reading a hint block back
def tables(text):
    words = text.split()
    for w in words: require("hints name the tables of the query", w in IDENT, w)
    r = frozenset(IDENT[w] for w in words)
    expect("no table is named twice", len(r), len(words))
    return r


def read_tree(text):
    toks = re.findall(r"[()]|[^\s()]+", text)
    def one():
        t = toks.pop(0)
        if t != "(":
            require("join orders name the tables of the query", t in IDENT, t)
            return IDENT[t]
        o, i = one(), one()
        expect("bracketed pair in a join order", ")", toks.pop(0))
        return (o, i)
    r = one()
    require("one join order per hint", not toks, text)
    return r


def unquote(v): return v[1:-1] if len(v) > 1 and v[0] == v[-1] == "'" else v


def setting(name, value, known):
    if name in SETTING: return ("glob", SETTING[name], BOOL[str(value).lower()])
    for s, (n, v, *_) in known.items():
        if n == name: return ("setting", s) if str(v).lower() == str(value).lower() else ("setting", s, value)
    return ("setting", name, value)


HEAD = {"pg_hint_plan": "/*+", "pg_lab": "/*=pg_lab=", "duck": "/*=quack_lab="}


def read(block, be, known):
    """-> list of hints (with the parallel hints separately)"""
    text = block.strip()
    require("comment syntax of the back end", text.startswith(HEAD[be]) and text.endswith("*/") and text.count("*/") == 1, block)
    body = text[len(HEAD[be]):-2]
    hints, par, pos = [], [], 0
    for m in re.finditer(r"\s*([A-Za-z_]+)\(((?:[^()]|\((?:[^()]|\([^()]*(?:\([^()]*\)[^()]*)*\))*\))*)\)", body):
        require("hints follow each other", m.start() == pos, body[pos:m.end()])
        pos = m.end()
        name, arg = m.group(1), m.group(2).strip()
        if name in ("Leading", "JoinOrder"):
            expect("name of the join order hint", "Leading" if be == "pg_hint_plan" else "JoinOrder", name)
            if name == "Leading": require("outer brackets of a Leading hint", arg.startswith("(("[0]), arg)
            hints.append(("leading", read_tree(arg)))
        elif name in ("Rows", "Card"):
            expect("name of the cardinality hint", "Rows" if be == "pg_hint_plan" else "Card", name)
            mm = re.fullmatch(r"([^#]*)#([0-9.e+]+)", arg)
            require("cardinality hint", mm, arg)
            hints.append(("card", tables(mm.group(1)), float(mm.group(2))))
        elif name == "Parallel":
            mm = re.fullmatch(r"(\S+) (\d+) hard", arg)
            require("parallel hint for a single table", mm and be == "pg_hint_plan", arg)
            par.append(("par", tables(mm.group(1)), int(mm.group(2))))
        elif name == "Set":
            mm = re.fullmatch(r"(\w+)\s*=\s*(.*)" if be != "pg_hint_plan" else r"(\w+)\s+(.*)", arg)
            require("setting hint", mm, arg)
            n, v = mm.group(1), unquote(mm.group(2))
            hints.append(("geqo", "") if (n, v) == ("geqo", "off") else setting(n, v, known))
        elif name == "Config":
            n, v = arg.split("=")
            hints.append(({"plan_mode": "mode", "exec_mode": "exec"}[n.strip()], v.strip()))
        elif name == "Result":
            mm = re.fullmatch(r"workers\s*=\s*(\d+)", arg)
            require("result hint", mm, arg)
            par.append(("par", frozenset([0]), int(mm.group(1))))
        else:
            require("known hint", name in NAME, name)
            mm = re.fullmatch(r"([^()]*)(?:\(workers\s*=\s*(\d+)\))?", arg)
            require("operator hint", mm, arg)
            s = tables(mm.group(1))
            hints.append(("op", opname(NAME[name]), s))
            if mm.group(2): par.append(("par", s, int(mm.group(2))))
    require("nothing but hints", not body[pos:].strip(), body[pos:])
    return hints, par


def read_prep(text, be, known):
    r = []
    for line in filter(None, (x.strip() for x in (text or "").split(";"))):
        m = re.fullmatch(r"SET LOCAL (\w+) TO '(.*)'" if be != "duck" else r"SET (?:SESSION |LOCAL |GLOBAL )?(\w+)\s*(?:=|TO)\s*(.*)", line)
        require("statement that changes a setting", m, line)
        r.append(setting(m.group(1), unquote(m.group(2)), known)[1:])
    return sorted(r)


# ------------------------------------------------------------------ building the decisions
def query(case):
    n, q = case["n"], case["qry"]
    tabs = [T(i) for i in range(1, n + 1)]
    sql = "SELECT COUNT(*) AS k FROM " + ", ".join(f"{t.full_name} AS {t.alias}" if t.alias else t.full_name for t in tabs)
    conds = [f"{a.identifier()}.x = {b.identifier()}.x" for a, b in zip(tabs, tabs[1:])] + [f"{tabs[0].identifier()}.y < 5"]
    sql += " WHERE " + " AND ".join(conds) + " ORDER BY k"
    if q["limit"] >= 0: sql += f" LIMIT {q['limit']}"
    if q["offset"] >= 0: sql += f" OFFSET {q['offset']}"
    r = parse_query(sql)
    if q["explain"] != "none":
        r = pb.transform.as_explain_analyze(r) if q["explain"] == "analyze" else pb.transform.as_explain(r)
    return r


def tree(t):
    if t["k"] == "scan": return JoinTree.scan(T(t["t"]))
    return JoinTree.join(tree(t["ch"][0]), tree(t["ch"][1]))


def parts(b, known, k):
    jt = None if b["tree"]["k"] == "none" else tree(b["tree"])
    if jt is None and k % 5 == 0: jt = JoinTree.empty()
    ops = par = None
    W = lambda w: w if w else math.nan
    if b["hasops"]:
        ops = PhysicalOperatorAssignment()
        entries = sorted(b["ops"], key=lambda e: (e["s"], e["op"]))
        for e in entries[::-1] if k % 2 else entries:
            s, op = [T(i) for i in e["s"]], OPS[e["op"]]
            if e["k"] == "scan": ops.add(ScanOperatorAssignment(op, s[0], W(e["w"])))
            elif e["k"] == "aux": ops.add(op, s)
            elif k % 3: ops.add(JoinOperatorAssignment(op, frozenset(s), parallel_workers=W(e["w"])))
            else: ops.add(DirectionalJoinOperatorAssignment(op, s[:1], s[1:], parallel_workers=W(e["w"])))
        for g in b["glob"]: ops.set_operator_enabled_globally(OPS[g["op"]], g["on"])
    if b["haspar"]:
        par = PlanParameterization()
        for c in b["cards"]:
            par.add_cardinality([T(i) for i in c["s"]], pb.Cardinality.unknown() if c["v"] == -1 else pb.Cardinality.infinite() if c["v"] == -2 else pb.Cardinality(c["v"]))
        for w in b["works"]: par.set_workers([T(i) for i in w["s"]], w["v"])
        for s in b["sets"]: par.set_system_settings(known[s][0], known[s][1])
        if b["exec"]: par.execution_mode = b["exec"]
    return jt, ops, par


def build(n):
    c = lambda x: pb.Cardinality.unknown() if x == -1 else pb.Cardinality(x)
    return QueryPlan(OPS[n["op"]] if n["op"] else n["name"], children=[build(x) for x in n["ch"]], base_table=T(n["t"]) if n["t"] else None, parallel_workers=n["w"],
                     estimated_cardinality=c(n["est"]), actual_cardinality=c(n["act"]))


DB = {}


def database(be):
    if (os.getpid(), be) not in DB:
        if be == "duck":
            db = DuckDBInterface(":memory:")
            for n, _ in NAMES.values(): db.cursor().execute(f"CREATE TABLE {n} (x INTEGER, y INTEGER); INSERT INTO {n} VALUES (1, 1), (2, 2), (2, 7)")
        else:
            def answer(sql, params, _):
                if "geqo_threshold" in sql: return [(str(GEQO),)]
                return [(0,)]
            db = fakepg.interface(fakepg.Server(backend=be, answer=answer), f"pg {be}", cache_enabled=False)
            expect("back end of the server", be, db.hinting().backend)
        DB[os.getpid(), be] = db
    return DB[os.getpid(), be]


class stderr:
    """what native code writes to the error stream"""
    def __enter__(self):
        self.old, self.f = os.dup(2), tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 2)
        return self
    def __exit__(self, *a):
        os.dup2(self.old, 2); os.close(self.old)
        self.f.seek(0); self.text = self.f.read().decode(); self.f.close()


def const(node):
    if node is None: return -1
    return node.val.ival if node.val else None


def check_text(case, q, db, be):
    """the query that is sent to the server still asks for the same thing"""
    text = db.hinting().format_query(q)
    plain = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    prep = (q.hints.preparatory_statements if q.hints else "") or ""
    require("preparatory statements come first", plain.strip().startswith(prep.strip()), plain)
    plain = plain.strip()[len(prep.strip()):]
    e = re.match(r"\s*EXPLAIN\s*(\([^)]*\)|ANALYZE)?", plain)
    want = case["qry"]
    expect("EXPLAIN", want["explain"] != "none", bool(e))
    if e:
        expect("EXPLAIN ANALYZE", want["explain"] == "analyze", "ANALYZE" in (e.group(1) or ""))
        plain = plain[e.end():].strip()
        if be == "duck": plain = re.sub(r"^\(FORMAT [A-Z]+\)", "", plain)
    stmt = pglast.parse_sql(plain)[0].stmt
    expect("LIMIT", want["limit"], const(stmt.limitCount)); expect("OFFSET", max(want["offset"], 0), max(0, const(stmt.limitOffset)))


def same_query(q, g):
    for name in ("select_clause", "from_clause", "where_clause", "groupby_clause", "having_clause", "orderby_clause", "cte_clause"):
        expect(f"{name} of the hinted query", str(getattr(q, name)), str(getattr(g, name)))
        expect(f"{name} of the hinted query", getattr(q, name), getattr(g, name))


def compare(want, hints, par, prep):
    must, may = {spec_hint(h) for h in want["must"]}, {spec_hint(h) for h in want["may"]}
    hs = set(hints)
    expect("hints are not repeated", len(hs), len(hints))
    missing, extra = must - hs, hs - must - may
    require("every decision is encoded", not missing, (sorted(map(str, missing)), sorted(map(str, hs))))
    require("only decisions are encoded", not extra, (sorted(map(str, extra)), sorted(map(str, must))))
    groups = [frozenset(spec_hint(h) for h in g) for g in want["par"]]
    if groups: require("one parallel part is encoded", frozenset(par) in groups and len(par) == len(set(par)), (list(map(sorted, map(str, groups))), par))
    else: expect("no parallel part is encoded", [], par)
    expect("settings of the session", sorted((s,) for s in want["prep"]), prep)


def replay(ck, be):
    known = DUCK_SETTINGS if be == "duck" else PG_SETTINGS
    def go(case):
        db, want = database(be), case["want"][be]
        k = case["n"] + len(str(case["b"])) + len(str(case["plan"]))
        q = query(case)
        before = str(q)
        if case["mode"] == "plan": kw = dict(plan=build(case["plan"][0]))
        else: kw = dict(zip(("join_order", "physical_operators", "plan_parameters"), parts(case["b"], known, k)))
        dumps = {n: str(v) for n, v in kw.items()}
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try: g = db.hinting().generate_hints(q, **kw)
            except UnsupportedDatabaseFeatureError as e: g = e
        ck.steps += 1; ck.act(be)
        expect("refused", want["reject"], isinstance(g, Exception))
        expect("the query is not modified", before, str(q))
        expect("the decisions are not modified", dumps, {n: str(v) for n, v in kw.items()})
        if want["reject"]: return
        if want["warn"]: require("what is not encoded is reported", any("Hint" in w.category.__name__ for w in log), [str(w.message) for w in log])
        if g.hints is None: hints, par, prep = [], [], []
        else:
            hints, par = read(g.hints.query_hints, be, known) if g.hints.query_hints.strip() else ([], [])
            prep = read_prep(g.hints.preparatory_statements, be, known)
        compare(want, hints, par, prep)
        same_query(q, g)
        check_text(case, g, db, be)
        if be != "pg_hint_plan": syntax(g, db, be, case, k)
        if case["mode"] == "plan" and k % 4 == 0:
            try: db.hinting().generate_hints(q, kw["plan"], plan_parameters=PlanParameterization())
            except ValueError: pass
            else: raise Mismatch("a plan and separate parts are refused", "ValueError", "accepted")
    return go


def syntax(g, db, be, case, k):
    """quack_lab (whose grammar pg_lab shares) has to understand the block"""
    if be == "pg_lab":
        cur, text = database("duck").cursor(), str(g.hints.query_hints).replace("pg_lab", "quack_lab") + " SELECT 1"
    else:
        cur = db.cursor()
        if not g.hints: return
        text = str(g.hints.query_hints) + " SELECT 1"
    with stderr() as err:
        try: cur.execute(text)
        except quacklab.Error: pass
    complaints = [l for l in err.text.split("\n") if re.match(r"line \d+:\d+ ", l)]
    require("the hint parser accepts the block", not complaints, (complaints[:2], text))
    if be == "duck" and case["want"][be]["prep"] and case["qry"]["explain"] == "none":
        cur.execute("RESET threads; RESET default_order; RESET preserve_insertion_order")
        plain = pb.transform.add_clause(g, qal.Hint(g.hints.preparatory_statements, ""))
        before = [cur.execute(f"SELECT current_setting('{n}')").fetchone()[0] for n, _, v in DUCK_SETTINGS.values()]
        db.execute_query(plain)
        for (s, (n, _, v)), b in zip(DUCK_SETTINGS.items(), before):
            got = cur.execute(f"SELECT current_setting('{n}')").fetchone()[0]
            expect("setting while the query runs", str(v if s in case["want"][be]["prep"] else b), str(got))


INV = ["OneHintPerOperator", "OneCardPerIntermediate", "OnlyOwnTables", "NothingLostSilently", "PlanMatchesParts", "Emitted"]


def run(ck):
    q = ck.quick
    base = dict(Geqo=GEQO, Sim=False)
    runs = tlc.run_many([
        ("C11", dict(label="up to two decisions on three tables", constants={**base, "N": 3, "MaxSteps": 1 if q else 2, "Mode": "parts"}, invariants=INV)),
        ("C11", dict(label="two decisions on two tables", constants={**base, "N": 2, "MaxSteps": 2, "Mode": "parts"}, invariants=INV[:-1] if q else INV)),
        ("C11", dict(label="random decisions", constants={**base, "N": 4, "MaxSteps": 12, "Mode": "parts", "Sim": True}, invariants=INV, sim=800 if q else 20000, depth=15, seed=ck.seed)),
        ("C11", dict(label="random decisions, few tables", constants={**base, "N": 2, "MaxSteps": 7, "Mode": "parts", "Sim": True}, invariants=INV, sim=600 if q else 10000, depth=10, seed=ck.seed + 1)),
        ("C11", dict(label="all plans over one table", constants={**base, "N": 1, "MaxSteps": 2, "Mode": "plan"}, invariants=INV)),
        ("C11", dict(label="random plans", constants={**base, "N": 4, "MaxSteps": 14, "Mode": "plan", "Sim": True}, invariants=INV, sim=1500 if q else 30000, depth=17, seed=ck.seed + 2)),
        ("C11", dict(label="random plans, few tables", constants={**base, "N": 2, "MaxSteps": 8, "Mode": "plan", "Sim": True}, invariants=INV, sim=800 if q else 15000, depth=11, seed=ck.seed + 3)),
    ], parallel=6)
    cases = []
    for r in runs: cases += ck.add_run(r)
    if not cases: raise tlc.MachineryError("no cases")
    sig = lambda be: lambda case, clause: f"{be}/{case['mode']}: {clause}"
    for be in HEAD:
        ck.replay(cases, replay(ck, be), sig=sig(be), kind=be, limit=6)
