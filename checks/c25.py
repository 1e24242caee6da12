import os, tempfile, warnings
from postbound import ColumnReference, TableReference
from postbound.duckdb import DuckDBInterface
from postbound import UnboundColumnError, VirtualTableError
from vk.core import expect, require

warnings.simplefilter("ignore")
# how the names of the specification are written in the database
NAMES = [dict(), dict(), dict(a="some col", b="group", r="order", o="other s"), dict(a="b", b="a", rs="s r"), dict(a="aa", b="a", c="aaa", r="aa", s="a")]
q = lambda s: '"' + s + '"'


class World:
    def __init__(self, case):
        tabs, self.exp = case["ddl"], case["exp"]
        self.k = sum(len(t["cols"]) + len(t["pk"]) + 2 * len(t["uniq"]) + len(t["name"]) for t in tabs) + 3 * len(case["idx"])
        self.map = NAMES[self.k % len(NAMES)]
        self.db = DuckDBInterface(":memory:")
        self.db.cursor().execute("SET threads = 1")
        cur = self.db.cursor()
        n, full = self.n, lambda sp, t: (q(self.n(sp)) + "." if sp else "") + q(self.n(t))
        for sp in {t["sp"] for t in tabs + self.exp["views"]} - {""}: cur.execute(f"CREATE SCHEMA {q(n(sp))}")
        for t in tabs:
            parts = []
            for i, c in enumerate(t["cols"]):
                inline = [f" NOT NULL"] if c["nn"] else []
                if t["pk"] == [c["c"]] and self.k % 2: inline.append(" PRIMARY KEY")
                parts.append(f"{q(n(c['c']))} {c['ty']}{''.join(inline)}")
            if t["pk"] and not (len(t["pk"]) == 1 and self.k % 2): parts.append(f"PRIMARY KEY ({', '.join(q(n(c)) for c in t['pk'])})")
            parts += [f"UNIQUE ({q(n(c))})" for c in t["uniq"]]
            for c in ("a", "b"):
                parts += [f"FOREIGN KEY ({q(n(c))}) REFERENCES {full(t['sp'], x['name'])} ({q(n(x['c']))})" for x in t["fk"][c]]
            cur.execute(f"CREATE TABLE {full(t['sp'], t['name'])} ({', '.join(parts)})")
        for i in case["idx"]: cur.execute(f"CREATE {'UNIQUE ' if i['unique'] else ''}INDEX {q(i['name'])} ON {full(i['sp'], i['t'])} ({', '.join(q(n(c)) for c in i['cols'])})")
        for v in self.exp["views"]: cur.execute(f"CREATE VIEW {full(v['sp'], v['name'])} AS SELECT * FROM {full(v['bsp'] or 'main', v['base'])}")

    def n(self, s): return self.map.get(s, s)
    def table(self, sp, name, alias=""): return TableReference(self.n(name), alias, schema=self.n(sp))
    def column(self, sp, name, c, alias=""): return ColumnReference(self.n(c), self.table(sp, name, alias))
    def key(self, x): return self.column("", x["name"], x["c"])
    def index(self, t, c, name):
        kind = next((s for s in ("_pkey", "_key") if name.endswith(s)), None)
        return f"{self.n(t)}_{self.n(c)}{kind}" if kind else name


def raises(what, error, fn):
    try: got = fn()
    except error: return
    except Exception as e: return expect(what, error.__name__, f"{type(e).__name__}: {e}")
    expect(what, error.__name__, got)


def replay(ck):
    def go(case):
        here = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="vk-c25-") as d, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            os.chdir(d)
            try:
                w = World(case)
                try: ask(ck, w)
                finally: w.db.close()
            finally: os.chdir(here)
    return go


def ask(ck, w):
    s, exp = w.db.schema(), w.exp
    mine = {w.table("", t["name"]) for t in exp["tabs"] if t["sp"] == ""}
    expect("tables", mine, set(s.tables()))
    expect("iteration", mine, set(iter(s)))
    expect("number of tables", len(mine), len(s))
    for t in exp["tabs"]:
        ck.act("table" + (" of another schema" if t["sp"] else "")); ck.steps += 1
        one_table(ck, w, s, t, w.table(t["sp"], t["name"]))
    for v in exp["views"]:
        ck.act("view"); ck.steps += 1
        ref = w.table(v["sp"], v["name"])
        expect("columns of a view", [(w.n(c["c"]), ref) for c in v["cols"]], [(c.name, c.table) for c in s.columns(ref)])
        require("a view is a view", s.is_view(ref) is True and (v["sp"] or s.is_view(w.n(v["name"])) is True))
        expect("types of a view", [c["ty"] for c in v["cols"]], [s.datatype(c) for c in s.columns(ref)])
        expect("a view has no keys", (None, False), (s.primary_key_column(ref), any(s.is_primary_key(c) or s.has_index(c) or s.foreign_keys_on(c) for c in s.columns(ref))))
    joins(w, s)
    lookups(w, s, mine)
    graph(w, s, mine)
    access(w, s, mine)
    description(w, mine)


def one_table(ck, w, s, t, ref):
    for at, r in (("", ref), (", aliased", w.table(t["sp"], t["name"], "x"))):
        expect("columns" + at, [(w.n(c["c"]), r) for c in t["cols"]], [(c.name, c.table) for c in s.columns(r)])
        expect("primary key column" + at, ColumnReference(w.n(t["key"]), r) if t["key"] else None, s.primary_key_column(r))
        expect("is a view" + at, False, s.is_view(r))
        for n, c in enumerate(t["cols"]):
            ck.steps += 1
            if at and n != w.k % len(t["cols"]): continue
            col = ColumnReference(w.n(c["c"]), r)
            expect("data type" + at, c["ty"], s.datatype(col))
            expect("nullable" + at, c["nullable"], s.is_nullable(col))
            expect("primary key" + at, c["pk"], s.is_primary_key(col))
            expect("secondary index" + at, c["secondary"], s.has_secondary_index(col))
            expect("any index" + at, c["any"], s.has_index(col))
            own, found = {w.index(t["name"], c["c"], i) for i in c["names"]}, s.indexes_on(col)
            require("indexes" + at, own <= found and all(i.endswith("_pkey") and w.n(c["c"]) in i for i in found - own), (own, found))
            expect("foreign keys" + at, {w.column(t["sp"], x["name"], x["c"]) for x in c["fks"]}, set(s.foreign_keys_on(col)))
    if t["sp"] == "":
        text = w.n(t["name"])
        expect("columns of a name", [(w.n(c["c"]), ref) for c in t["cols"]], [(c.name, c.table) for c in s.columns(text)])
        expect("primary key column of a name", w.column("", t["name"], t["key"]) if t["key"] else None, s.primary_key_column(text))
        expect("is a view, of a name", False, s.is_view(text))


def joins(w, s):
    classes = {frozenset(w.key(x) for x in k) for k in w.exp["classes"]}
    got = [frozenset(k) for k in s.join_equivalence_classes()]
    expect("join equivalence classes", sorted(map(sorted, (map(str, k) for k in classes))), sorted(map(sorted, (map(str, k) for k in got))))
    require("join equivalence classes", set(got) == classes, got)
    expect("join equivalence keys", {c: k for k in classes for c in k}, {c: frozenset(k) for c, k in s.join_equivalence_keys().items()})


def lookups(w, s, mine):
    order = [w.table("", n) for n in w.exp["candidates"]]
    for c in ("a", "b", "c", "d"):
        owner = w.exp["owners"][c]
        want = w.table("", owner) if owner else None
        for how in (w.n(c), ColumnReference(w.n(c))):
            expect("owner of a column", want, s.lookup_column(how, order))
            if want: expect("owner of a column", want, s.lookup_column(how, iter(order), expect_match=True))
            else: raises("owner of no column", ValueError, lambda: s.lookup_column(how, order, expect_match=True))
    expect("owner among no tables", None, s.lookup_column(w.n("a"), []))


def links(w): return [(w.key(x), w.key(y)) for x, y in w.exp["links"]]


def graph(w, s, mine):
    g = s.as_graph()
    expect("tables of the graph", mine, set(g.nodes))
    for t in w.exp["tabs"]:
        if t["sp"]: continue
        node = g.nodes[w.table("", t["name"])]
        cols = [w.column("", t["name"], c["c"]) for c in t["cols"]]
        expect("columns in the graph", cols, list(node["columns"]))
        expect("types in the graph", {c: x["ty"] for c, x in zip(cols, t["cols"])}, dict(node["data_type"]))
        expect("primary key in the graph", w.column("", t["name"], t["key"]) if t["key"] else None, node["primary_key"])
    want = {}
    for x, y in links(w): want.setdefault((x.table, y.table), set()).add((x, y))
    expect("edges", want, {(a, b): {tuple(f) for f in fks} for a, b, fks in g.edges(data="foreign_keys")})
    expect("number of foreign keys", len(links(w)), sum(len(fks) for _, _, fks in g.edges(data="foreign_keys")))


def access(w, s, mine):
    turn, member = w.k % 2, False
    for t in w.exp["tabs"]:
        ref = w.table(t["sp"], t["name"])
        for c in t["cols"]:
            col = ColumnReference(w.n(c["c"]), ref)
            keys = [col] + ([f"{w.n(t['name'])}.{w.n(c['c'])}"] if not t["sp"] else [])
            turn += 1
            for key in (keys[turn % len(keys)],):
                i = s[key]
                expect("column information", (col, ref, c["ty"], c["nullable"], c["pk"], c["any"]), (i.column, i.table, i.datatype, i.nullable, i.primary_key, i.indexed))
        raises("unknown column", KeyError, lambda: s[ColumnReference("nope", ref)])
        if t["sp"]: continue
        turn += 1
        for key in ((ref, w.n(t["name"]))[turn % 2],):
            i = s[key]
            cols = [w.column("", t["name"], c["c"]) for c in t["cols"]]
            expect("table information", (ref, cols, cols, len(cols)), (i.table, [c.column for c in i.columns], list(i), len(i)))
            expect("key in the table information", w.column("", t["name"], t["key"]) if t["key"] else None, i.primary_key)
            expect("outgoing foreign keys", {l for l in links(w) if l[0].table == ref}, {tuple(f) for f in i.outgoing_foreign_keys})
            expect("incoming foreign keys", {l for l in links(w) if l[1].table == ref}, {tuple(f) for f in i.incoming_foreign_keys})
            for c, col in zip(t["cols"], cols): expect("column of the table information", (col, c["ty"], c["any"]), (i[col].column, i[col.name].datatype, i[col].indexed))
            raises("unknown column of the table information", KeyError, lambda: i["nope"])
        if not member: require("known table", (ref, w.n(t["name"]))[(turn + w.k) % 2] in s)
        member = True
        raises("unknown column of a name", KeyError, lambda: s[w.n(t["name"]) + ".nope"])
    for key in ("nope", "nope.a", TableReference("nope"), 42):
        raises("unknown key", KeyError, lambda: s[key])
        require("unknown key", key not in s)
    for fn in (s.is_primary_key, s.has_secondary_index, s.has_index, s.indexes_on, s.foreign_keys_on, s.datatype, s.is_nullable):
        raises(f"unbound column, {fn.__name__}", UnboundColumnError, lambda: fn(ColumnReference("a")))
    raises("virtual table", VirtualTableError, lambda: s.columns(TableReference.create_virtual("x")))
    raises("virtual table", VirtualTableError, lambda: s.is_view(TableReference.create_virtual("x")))
    raises("unknown table", ValueError, lambda: s.is_view("nope"))
    expect("columns of an unknown table", [], list(s.columns("nope")))


def description(w, mine):
    info = {t["table"]: t for t in w.db.describe()["schema_info"]}
    expect("described tables", {str(t) for t in mine}, set(info))
    for t in w.exp["tabs"]:
        if t["sp"]: continue
        i = info[str(w.table("", t["name"]))]
        expect("described columns", [(str(w.column("", t["name"], c["c"])), c["any"], {w.key(x) for x in c["fks"]}) for c in t["cols"]], [(c["column"], c["indexed"], set(c["foreign_keys"])) for c in i["columns"]])
        expect("described key", w.column("", t["name"], t["key"]) if t["key"] else None, i["primary_key"])
        expect("described rows", 0, i["n_rows"])


def sig(case, clause): return clause


def run(ck):
    from vk.tlc import run_many
    inv = ["TypeOK", "Partition", "Emit"]
    jobs = [("C25", dict(label="two tables", constants=dict(MaxTables=2, MaxExtras=0, Rich=False, Sim=False), invariants=inv)),
            ("C25", dict(label="a table with an index or view", constants=dict(MaxTables=1, MaxExtras=1 if ck.quick else 2, Rich=True, Sim=False), invariants=inv))]
    jobs += [("C25", dict(label="random schemas", constants=dict(MaxTables=5, MaxExtras=3, Rich=True, Sim=True), invariants=inv, sim=170 if ck.quick else 6000, depth=10, seed=ck.seed))]
    if not ck.quick: jobs.append(("C25", dict(label="two tables with an index or view", constants=dict(MaxTables=2, MaxExtras=1, Rich=False, Sim=False), invariants=inv)))
    cases = []
    for r in run_many(jobs, 4):
        found = ck.add_run(r)
        cases += found[ck.seed % 5::5] if ck.quick and not r.label.startswith("random") else found
    ck.replay(cases, replay(ck), sig=sig)
