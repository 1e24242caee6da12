"""Parsing and rendering: what the renderers print is executed in the embedded database and has to mean what the specification says."""
import os, re, warnings
import quacklab
from postbound import qal
from postbound.parser import ParserError, parse_query
from vk import tlc
from vk.core import Mismatch, expect, require

warnings.simplefilter("ignore")
NULL = -99
STR = ["", "a", "ab", "B", "a%", "b"]
INF = {"add": "+", "sub": "-", "mul": "*", "mod": "%", "eq": "=", "ne": "<>", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "seq": "=", "beq": "=", "and": "AND", "or": "OR", "and3": "AND", "or3": "OR",
       "distinct": "IS DISTINCT FROM", "ndistinct": "IS NOT DISTINCT FROM", "like": "LIKE", "nlike": "NOT LIKE", "ilike": "ILIKE", "nilike": "NOT ILIKE"}
LEAF = {"null": "NULL", "bnull": "NULL", **{k: f"t.{k}" for k in "abps"}}


def sql(x):
    k, v = x["k"], x["v"]
    c = [f"({sql(y)})" if y["ch"] else sql(y) for y in x["ch"]]
    if k in LEAF: return LEAF[k]
    if k == "lit": return str(v)
    if k == "blit": return ["FALSE", "TRUE"][v]
    if k == "slit": return f"'{STR[v]}'"
    if k in INF: return f" {INF[k]} ".join(c)
    if k == "neg": return f"- {c[0]}"
    if k == "not": return f"NOT {c[0]}"
    if k in ("abs", "lower"): return f"{k}({c[0]})"
    if k in ("coalesce", "scoalesce"): return f"COALESCE({c[0]}, {c[1]})"
    if k in ("case", "scasewhen"): return f"CASE WHEN {c[0]} THEN {c[1]} ELSE {c[2]} END"
    if k == "case1": return f"CASE WHEN {c[0]} THEN {c[1]} END"
    if k == "case2": return f"CASE WHEN {c[0]} THEN {c[1]} WHEN {c[2]} THEN {c[3]} ELSE {c[4]} END"
    if k == "scase": return f"CASE {c[0]} WHEN {c[1]} THEN {c[2]} ELSE {c[3]} END"
    if k == "clen": return f"LENGTH(CAST({c[0]} AS VARCHAR))"
    if k == "cast": return f"CAST({c[0]} AS INTEGER)"
    if k == "subq": return f"(SELECT {c[0]} + one.o FROM one)"
    if k in ("between", "nbetween"): return f"{c[0]} {'NOT ' if k[0] == 'n' else ''}BETWEEN {c[1]} AND {c[2]}"
    if k in ("in", "nin"): return f"{c[0]} {'NOT ' if k[0] == 'n' else ''}IN ({c[1]}, {c[2]})"
    if k == "in1": return f"{c[0]} IN ({c[1]})"
    if k in ("isnull", "bisnull"): return f"{c[0]} IS NULL"
    if k == "notnull": return f"{c[0]} IS NOT NULL"
    if k in ("exists", "nexists"): return f"{'NOT ' if k[0] == 'n' else ''}EXISTS (SELECT 1 FROM one WHERE {c[0]})"
    if k in ("insub", "ninsub"): return f"{c[0]} {'NOT ' if k[0] == 'n' else ''}IN (SELECT {c[1]} + z.v FROM z)"
    if k == "eqany": return f"{c[0]} = ANY (SELECT {c[1]} + z.v FROM z)"
    if k == "ltall": return f"{c[0]} < ALL (SELECT {c[1]} + z.v FROM z)"
    raise KeyError(k)


class Unsupported(Exception):
    """the database at hand cannot execute the query"""


DB = {}
def row(i):
    vals = [None, 0, 1, 2]
    return (i + 1, vals[i % 4], vals[i // 4 % 4], [None, True, False][(i + i // 4) % 3], [STR[1], None, STR[2], STR[3], STR[4]][(i + i // 3) % 5])


def cursor():
    if os.getpid() not in DB:
        cur = DB[os.getpid()] = quacklab.connect(":memory:", config={"threads": 1})
        cur.execute("CREATE TABLE t (id INTEGER, a INTEGER, b INTEGER, p BOOLEAN, s VARCHAR); CREATE TABLE z (v INTEGER); INSERT INTO z VALUES (0), (2); CREATE TABLE one (o INTEGER); INSERT INTO one VALUES (0)")
        cur.executemany("INSERT INTO t VALUES (?, ?, ?, ?, ?)", [row(i) for i in range(16)])
        for name, rows in TABLES.items():
            cur.execute(f"CREATE TABLE {name} (x INTEGER, y INTEGER)")
            if rows: cur.executemany(f"INSERT INTO {name} VALUES (?, ?)", rows)
    return DB[os.getpid()]


TABLES = {}
DEBUG = bool(os.environ.get("C03_DEBUG"))


def execute(text):
    try: return cursor().execute(dialect(text)).fetchall()
    except (quacklab.InternalException, quacklab.FatalException):
        DB.pop(os.getpid())  # such a connection cannot be used any more
        raise


def dialect(text):
    """the standard's FETCH clause in the syntax of the database at hand"""
    text = re.sub(r"OFFSET (\d+) ROWS\s+FETCH FIRST (\d+) ROWS ONLY", r"LIMIT \2 OFFSET \1", text)
    text = re.sub(r"FETCH (?:FIRST|NEXT) (\d+) ROWS ONLY\s+OFFSET (\d+) ROWS", r"LIMIT \1 OFFSET \2", text)
    text = re.sub(r"FETCH (?:FIRST|NEXT) (\d+) ROWS ONLY", r"LIMIT \1", text)
    return re.sub(r"OFFSET (\d+) ROWS", r"OFFSET \1", text)


def conv(t, v):
    if v == NULL: return None
    return bool(v) if t == "b" else STR[v] if t == "s" else v


RENDER = {"str": str, "vanilla": lambda q: qal.format_quick(q), "postgres": lambda q: qal.format_quick(q, flavor="postgres")}


def through(text, want, order=False):
    """text -> parser -> renderers -> database, compared with the wanted rows"""
    key = (lambda rows: rows) if order else (lambda rows: sorted(rows, key=repr))
    want = key(want)
    try: direct = key(execute(text))
    except quacklab.Error as e: raise Unsupported(f"{e}: {text}")
    # the embedded database has defects of its own (NOT BETWEEN with a NULL bound, for example); run() limits how many cases may be lost to them
    if direct != want: raise Unsupported(f"the database and the specification disagree: {want} {direct} {text}")
    q = parse_query(text)
    seen = {}
    for name, f in RENDER.items():
        out = f(q)
        if out in seen: continue
        seen[out] = name
        try: got = key(execute(out))
        except (quacklab.InternalException, quacklab.FatalException) as e: raise Unsupported(f"{e}: {out}")
        except quacklab.Error as e: raise Mismatch(f"rendering can be executed ({name})", text, f"{out}: {e}")
        if got != want: raise Mismatch(f"meaning of the rendering ({name})", f"{text} -> {want}", f"{out} -> {got}")
    # the pretty printers may drop brackets of nested conjunctions, so only the plain rendering has to be parsed back to the very same query
    again = parse_query(str(q))
    expect("parsing the rendering gives the same query", str(q), str(again))
    require("queries that read the same are equal", q == again and again == q, str(q))
    expect("hash of equal queries", hash(q), hash(again))
    return q


def query(q):
    """the query in fully bracketed SQL"""
    ctes = ", ".join(f"{c['name']}{' (y, x)' if 'cols' in c else ''} AS {c['m'] + ' ' if c['m'] else ''}({query(c['q'])})" for c in q["ctes"])
    head = f"WITH {ctes} " if ctes else ""
    if q["k"] == "set": body = f"({query(q['l'])}) {q['op']} ({query(q['r'])})"
    else:
        cols = f"{expr(q['x'])} AS x" + ("" if q["single"] else f", {expr(q['y'])} AS y")
        body = f"SELECT {f"DISTINCT ON ({expr(q['x'])}) " if q['on'] else 'DISTINCT ' if q['distinct'] else ''}{cols} FROM {', '.join(map(source, q['from']))}"
        if q["where"]: body += f" WHERE {cond(q['where'])}"
        if q["grp"]: body += f" GROUP BY {', '.join(map(expr, q['grp']))}"
        if q["having"]: body += f" HAVING {expr(q['having']['a'])} {q['having']['op']} {q['having']['n']}"
    if q["order"]: body += " ORDER BY " + ", ".join({"expr": lambda o: expr(q["hid" if o["c"] == "h" else o["c"]]), "name": lambda o: o["c"], "pos": lambda o: str("xy".index(o["c"]) + 1)}[o["f"]](o) + direction(o) for o in q["order"])
    if q["limit"] >= 0: body += f" LIMIT {q['limit']}"
    if q["offset"] >= 0: body += f" OFFSET {q['offset']}"
    return head + body


def direction(o): return (f" {o['d']}" if o["d"] else "") + (f" NULLS {o['n']}" if o["n"] else "")


def source(s):
    cols = " (y, x)" if "cols" in s else ""
    if s["k"] in "tc": return f"{s['name']} AS {s['id']}{cols}"
    if s["k"] == "v": return "(VALUES " + ", ".join(f"({r['x']}, {r['y']})" for r in s["rows"]) + f") AS {s['id']} (x, y)"
    if s["k"] == "d": return f"{'LATERAL ' if s['lat'] else ''}({query(s['q'])}) AS {s['id']}{cols}"
    l, r = (f"({source(c)})" if c["k"] == "j" else source(c) for c in (s["l"], s["r"]))
    if "USING" in s["kind"]: return f"{l} {s['kind'].replace('USING', 'JOIN')} {r} USING (x)"
    return f"{l} {s['kind']} {r}" + (f" ON {cond(s['on'])}" if s["on"] else "")


def expr(x):
    k = x["k"]
    if k == "col": return f"{x['t']}.{x['c']}"
    if k == "add": return f"({expr(x['a'])} + {expr(x['b'])})"
    if k == "case": return f"CASE WHEN {cond(x['l'])} THEN {expr(x['a'])} ELSE {expr(x['b'])} END"
    if k == "scv": return f"({query(x['q'])})"
    if k == "lit": return str(x["n"])
    if k in ("agg", "win"): call = ("COUNT(*)" if x["f"] == "count*" else "RANK()" if x["f"] == "rank" else f"{x['f']}({'DISTINCT ' if x['dist'] else ''}{expr(x['a'])})") + (f" FILTER (WHERE {cond(x['filt'])})" if x["filt"] else "")
    if k == "agg": return call
    if k == "win":
        over = " ".join(([f"PARTITION BY {expr(x['part'])}"] if x["part"] else []) + ([f"ORDER BY {expr(x['a'])}{direction(x['ord'])}"] if x["ord"] else []))
        return f"{call} OVER ({over}{' ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING' if x['frame'] else ''})"
    raise KeyError(k)


def cond(c):
    k = c["k"]
    if k == "cc": return f"{expr(c['a'])} {c['op']} {expr(c['b'])}"
    if k == "cl": return f"{expr(c['a'])} {c['op']} {c['n']}"
    if k in ("nul", "nnul"): return f"{expr(c['a'])} IS {'NOT ' if k == 'nnul' else ''}NULL"
    if k in ("and", "or"): return f"({cond(c['l'])}) {k.upper()} ({cond(c['r'])})"
    if k == "not": return f"NOT ({cond(c['l'])})"
    if k == "btw": return f"{expr(c['a'])} BETWEEN {expr(c['l'])} AND {expr(c['r'])}"
    if k == "inl": return f"{expr(c['a'])} IN ({', '.join(map(str, c['l']))})"
    sub = f"({query(c['q'])})"
    if k in ("in", "nin"): return f"{expr(c['a'])} {'NOT ' if k == 'nin' else ''}IN {sub}"
    if k in ("ex", "nex"): return f"{'NOT ' if k == 'nex' else ''}EXISTS {sub}"
    return f"{expr(c['a'])} {c['op']} {'' if k == 'sc' else k.upper() + ' '}{sub}"


TABLES.update(r=[(1, 0), (2, None), (2, 1)], s=[(2, 1), (None, 1), (0, 2)], u=[(1, 1), (2, 2)], e=[])


# the parser may refuse these, but must not misread them
REFUSABLE = {"INTERSECT ALL", "EXCEPT ALL", "USING", "LEFT USING", "columns", "frame"}


def kinds(q):
    """the constructs a query uses (for the coverage report and for telling failures apart)"""
    out = set()
    def go(v):
        if isinstance(v, dict):
            if v.get("k") == "set": out.add(v["op"])
            elif v.get("k") == "j": out.add(v["kind"])
            elif "k" in v and v["k"] not in ("col", "cl", "cc", "t", "q"): out.add(v["k"])
            if "cols" in v: out.add("columns")
            for k, x in v.items():
                if k in ("frame", "on", "distinct", "lat", "agg", "dist") and x is True: out.add(k)
                elif k in ("limit", "offset") and isinstance(x, int) and x >= 0: out.add(k)
                elif k in ("ctes", "grp", "having", "order", "filt") and x: out.add(k)
                go(x)
        elif isinstance(v, list):
            for x in v: go(x)
    go(q)
    return out


def replay_query(ck):
    def go(case):
        q = case["q"]
        want = [tuple(None if r[c] == NULL else r[c] for c in ("x", "y") if c in r) for r in case["rows"]]
        ck.steps += 1
        for k in kinds(q): ck.act(k)
        try: through(query(q), want, order=bool(q["order"]))
        except ParserError:
            if not kinds(q) & REFUSABLE: raise
        except Unsupported as e:
            ck.skipped += 1
            if DEBUG: print("DBG", str(e)[:100].replace("\n", " ") + " :: " + str(e)[-900:].replace("\n", " "))
    return go


def replay(ck):
    def go(case):
        try: one(case)
        except Unsupported as e:
            ck.skipped += 1
            if DEBUG: print("DBG", str(e)[:100].replace("\n", " ") + " :: " + str(e)[-900:].replace("\n", " "))

    def one(case):
        t, x = case["type"], case["e"]
        want = [(i + 1, conv(t, v)) for i, v in enumerate(case["val"])]
        s = sql(x)
        ck.steps += 1; ck.act(x["k"])
        through(f"SELECT t.id, ({s}) AS v FROM t", want)
        k = len(s) + sum(map(ord, s))
        if t == "b":
            ids = [(i,) for i, v in want if v]
            if k % 4 == 1: through(f"SELECT t.id FROM t GROUP BY t.id, t.a, t.b, t.p, t.s HAVING {s}", ids)
            elif k % 4 == 2: through(f"SELECT t.id FROM t JOIN one ON {s}", ids)
            elif k % 4 == 3: through(f"SELECT t.id FROM t, one WHERE one.o = 0 AND ({s})", ids)
            else: through(f"SELECT t.id FROM t WHERE {s}", ids)
        elif t == "i" and "t." in s:
            first = k % 2 == 0
            ids = sorted(want, key=lambda w: ((w[1] is None) != first, w[1] or 0, w[0]))
            through(f"SELECT t.id FROM t ORDER BY {s} NULLS {'FIRST' if first else 'LAST'}, t.id", [(i,) for i, _ in ids], order=True)
        elif t == "s" and "t." in s:
            through(f"SELECT COUNT(*) AS n FROM t GROUP BY {s}", [(c,) for c in [[v for _, v in want].count(v) for v in {v for _, v in want}]])
    return go


def run(ck):
    q = ck.quick
    INV = ["DeMorgan", "Domain", "Negation", "Emitted"]
    runs = tlc.run_many([
        ("C03", dict(label="nested pairs of predicates", constants=dict(Depth=2, Types={"b"}, Sim=False), invariants=INV)),
        ("C03", dict(label="nested pairs of arithmetic operators", constants=dict(Depth=2, Types={"i"}, Sim=False), invariants=INV)),
        ("C03", dict(label="nested pairs of string operators", constants=dict(Depth=2, Types={"s"}, Sim=False), invariants=INV)),
        ("C03", dict(label="random expressions", constants=dict(Depth=4, Types={"b", "i", "s"}, Sim=True), invariants=INV, sim=1500 if q else 40000, depth=3, seed=ck.seed)),
    ], parallel=6)
    Q = ["SizeLaws", "LimitLaw", "Emitted"]
    queries = tlc.run_many([("C03Q", dict(label=f"queries: {s}", constants=dict(Shape=s, Depth=2), invariants=Q)) for s in ("joins", "clauses", "sets", "extras")] + [
        ("C03Q", dict(label="random queries", constants=dict(Shape="random", Depth=2), invariants=Q, sim=1500 if q else 30000, depth=3, seed=ck.seed, jvm=["-Xss512m"])),
        ("C03Q", dict(label="random deep queries", constants=dict(Shape="random", Depth=3), invariants=Q, sim=500 if q else 8000, depth=3, seed=ck.seed + 1, jvm=["-Xss512m"], timeout=800))], parallel=6)
    cases = []
    for r in queries: cases += ck.add_run(r)
    ck.replay(cases, replay_query(ck), sig=lambda case, clause: f"{'/'.join(sorted(kinds(case['q'])))}: {clause}", kind="query", limit=40)
    if ck.skipped > len(cases) // 50: raise tlc.MachineryError(f"{ck.skipped} of {len(cases)} queries could not be executed")
    lost = ck.skipped
    cases = []
    for r in runs: cases += ck.add_run(r)
    ck.replay(cases, replay(ck), sig=lambda case, clause: f"{case['e']['k']}: {clause}", kind="expression", limit=40)
    if ck.skipped - lost > len(cases) // 200: raise tlc.MachineryError(f"{ck.skipped - lost} of {len(cases)} expressions could not be evaluated")
