import atexit, contextlib, collections, datetime as dt, decimal, glob, os, tempfile, uuid, warnings
from unittest import mock
import quacklab
from postbound import qal, transform
from postbound.db import DatabasePool, current_database
from postbound.duckdb import DuckDBInterface
from postbound.parser import parse_query
from vk import fakepg, tlc
from vk.core import expect, require

warnings.simplefilter("ignore")
import postbound.duckdb, postbound.postgres, postbound.mysql

D, T, TD = dt.date, dt.datetime, dt.timedelta
SHAPES = [lambda v: [], lambda v: [(v,)], lambda v: [(v, "x")], lambda v: [(v,), (v + 1,), (v,)], lambda v: [(v, None, "ü'"), (None, 1.5, '"q"')], lambda v: [(None,)],
          lambda v: [(D(2020, 1, v),)], lambda v: [(T(2020, 1, v, 3, 4, 5, 678), 1)], lambda v: [(decimal.Decimal("1.50") + v,)], lambda v: [(TD(days=v, microseconds=7),), (TD(0),)],
          lambda v: [(True, v), (False, v)], lambda v: [([v, None, 2],)], lambda v: [(bytes([v, 0, 255]),)], lambda v: [(uuid.UUID(int=v),)], lambda v: [(dt.time(1, 2, v),)],
          lambda v: [({"a": v, "b": [v]}, "s")], lambda v: [(2 ** 70 + v, -v)], lambda v: [("",), (str(v),)], lambda v: [(0,)], lambda v: [(float(v) / 3, float("inf"))]]
NOT_STORED = [lambda v: [(complex(1, v),)]]          # has no representation in the file


def rows(d, q, v): return SHAPES[(7 * q + 5 * v + d) % len(SHAPES)](v)
def shape(d, q, v): return (7 * q + 5 * v + d) % len(SHAPES)


def simplified(r):
    if not r: return []
    if len(r[0]) == 1: r = [x[0] for x in r]
    return r[0] if len(r) == 1 else r


class Fake:
    """a database behind a stand-in connection"""
    def __init__(self, d, variant): self.d, self.variant, self.ver, self.prep = d, variant, 1, 0

    def answer(self, sql, params=None, cnx=None):
        if sql.upper().startswith("SET "): self.prep += 1; return None
        q = int(sql.split("FROM q")[1].split(".")[0].rstrip("; \n").split()[0])
        return self.result(q, self.ver)

    def result(self, q, v): return None if self.none(q, v) else rows(self.d, q, v)
    def none(self, q, v): return False
    def change(self): self.ver += 1
    def drop(self, db): pass


class PG(Fake):
    def none(self, q, v): return shape(self.d, q, v) == 18         # the database sends no result set
    def open(self, on):
        d, x = self.d, self.variant
        server = fakepg.Server(name="alpha" if x == 0 or d == 1 else "beta", version="16.1" if x == 1 and d == 2 else "17.2", answer=self.answer)
        return fakepg.interface(server, "sysB" if x == 0 and d == 2 else "sysA", cache_enabled=on)
    unit = qal.Hint("SET work_mem = 1;", "")


class MyCursor:
    def __init__(self, w): self.w, self.rows = w, []
    def execute(self, sql):
        u = sql.upper()
        self.rows = [("alpha" if self.w.variant == 0 or self.w.d == 1 else "beta",)] if u.startswith("SELECT DATABASE") else [("8.1" if self.w.variant == 1 and self.w.d == 2 else "8.0",)] if u.startswith("SELECT VERSION") else self.w.answer(sql)
    def fetchall(self): return list(self.rows)
    def fetchone(self): return self.rows[0]
    def close(self): pass
class MyConnection:
    def __init__(self, w): self.w = w
    def cursor(self, **kw): return MyCursor(self.w)
    def close(self): pass


class MySQL(Fake):
    unit = qal.Hint("SET work_mem = 1;", "")
    def open(self, on):
        from postbound.mysql import MysqlConnectionArguments, MysqlInterface
        with mock.patch("mysql.connector.connect", lambda **kw: MyConnection(self)):
            return MysqlInterface(MysqlConnectionArguments("u", "db"), "sysB" if self.variant == 0 and self.d == 2 else "sysA", cache_enabled=on)


SQL = {0: "SELECT 1 AS a WHERE false", 1: "SELECT {v}", 2: "SELECT {v}, 'x'", 3: "VALUES ({v}), ({v}+1), ({v})", 4: "VALUES ({v}, NULL, 'ü'''), (NULL, 1.5::DOUBLE, '\"q\"')", 5: "SELECT NULL", 6: "SELECT DATE '2020-01-0{v}'",
       7: "SELECT TIMESTAMP '2020-01-0{v} 03:04:05.000678', 1", 8: "SELECT 1.50::DECIMAL(6,2) + {v}", 9: "SELECT INTERVAL '{v} days' + INTERVAL '7 microseconds'", 10: "VALUES (true, {v}), (false, {v})", 11: "SELECT [{v}, NULL, 2]",
       12: "SELECT '\\x0{v}\\x00\\xFF'::BLOB", 13: "SELECT '0000000{v}-0000-0000-0000-000000000001'::UUID", 14: "SELECT TIME '01:02:0{v}'", 15: "SELECT {{'a': {v}, 'b': [{v}]}}, 's'", 16: "SELECT 1180591620717411303424::HUGEINT + {v}, -{v}",
       17: "VALUES (''), ('{v}')", 18: "SELECT 0", 19: "SELECT {v}/3.0::DOUBLE, 'inf'::DOUBLE"}


class Duck(Fake):
    unit = qal.Hint("SET preserve_insertion_order = true;", "")
    def __init__(self, d, variant):
        super().__init__(d, variant)
        self.path, self.truth, self.nq, self.db = f"db{d}.duckdb", {}, 3, None
    def fill(self, cur):
        for q in range(1, self.nq + 1):
            if (q, self.ver) in self.truth: continue
            cur.execute(f"CREATE OR REPLACE TABLE q{q} AS " + SQL[shape(self.d, q, self.ver)].format(v=self.ver))
            cur.execute(f"SELECT * FROM q{q}")
            self.truth[q, self.ver] = cur.fetchall()
    def result(self, q, v): return self.truth[q, v]
    def change(self): self.ver += 1; self.fill(self.cur)
    def open(self, on):
        self.db = DuckDBInterface(self.path, cache_enabled=on)
        self.cur = self.db.cursor()
        self.fill(self.cur)
        return self.db
    def drop(self, db):
        with contextlib.suppress(Exception): self.cur.close()
        with contextlib.suppress(Exception): db.close()


def replay(ck, backend):
    def go(h):
        here = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="vk-c17-") as folder:
            os.chdir(folder)
            atexit._clear()
            dbs = {}
            try: session(ck, backend, h, dbs)
            finally:
                atexit._clear()
                os.chdir(here)
    return go


def session(ck, backend, h, dbs):
    k = sum(s["q"] * 3 + s["d"] + len(s["op"]) + len(s["mode"]) for s in h) % 24
    worlds = {d: backend(d, k % 3) for d in (1, 2)}
    name = backend.__name__
    forms = {q: (k + q) % 3 for q in range(1, 6)}
    asked = collections.Counter()
    for n, s in enumerate(h):
        op, d, q = s["op"], s["d"], s["q"]
        if op == "end": break
        ck.steps += 1; ck.act(f"{name} {op} {s['mode']}")
        w = worlds.get(d)
        if op == "open": dbs[d] = w.open(s["mode"] == "on")
        elif op == "toggle": dbs[d].cache_enabled = s["mode"] == "on"
        elif op == "reset": dbs[d].reset_cache()
        elif op == "change": w.change()
        elif op in ("exit", "kill", "torn"):
            before = {f: open(f, "rb").read() for f in glob.glob(".*") + glob.glob("*") if os.path.isfile(f) and "cache" in f}
            if op != "kill":
                victim = getattr(dbs[d], "_query_cache_name")() if op == "torn" else None
                atexit._run_exitfuncs()
                if op == "torn":
                    for f in [f for f in glob.glob(".*") + glob.glob("*") if os.path.isfile(f) and "cache" in f]:
                        if f == victim:
                            data = open(f, "rb").read()
                            open(f, "wb").write(data[:(k * 7919) % max(1, len(data))])
                        elif f in before: open(f, "wb").write(before[f])
                        else: os.remove(f)
            atexit._clear()
            for x, db in dbs.items(): worlds[x].drop(db)
            dbs.clear()
        elif op == "execute":
            text = f"SELECT * FROM q{q}"
            form = forms[q]
            query = text if form == 0 else parse_query(text, bind_columns=False)
            prep = form == 2
            if prep: query = transform.add_clause(query, w.unit)
            if form == 1 and name != "MySQL" and k % 2: query = collections.UserString(text)
            kw = {} if s["mode"] == "default" and k % 2 else {"cache_enabled": {"default": None, "on": True, "off": False}[s["mode"]]}
            if name == "Duck" and k % 5 == 0: kw["timeout"] = 20.0
            p = w.prep
            got = dbs[d].execute_query(query, raw=s["form"] == "raw", **kw)
            if prep and name != "Duck": expect(f"{name}: preparatory statements are executed every time", p + 1, w.prep)
            want = w.result(q, s["res"])
            if s["form"] != "raw": want = simplified(want)
            where = "after a restart" if any(x["op"] in ("exit", "kill", "torn") for x in h[:n]) else "in the same session"
            if repr(want) != repr(got):
                old = [v for v in range(1, w.ver + 1) if repr(got) == repr(w.result(q, v) if s["form"] == "raw" else simplified(w.result(q, v)))]
                expect(f"{name}: result with cache {s['mode']} ({s['form']}) {where}{': result of another time' if old else ''}", want, got)
            if isinstance(got, list) and (s["form"] == "raw" or len(w.result(q, s["res"]) or []) > 1): got.clear()          # what was handed out belongs to the caller
    ck.act(f"{name} sessions")


class PoolWorld:
    def __init__(self, kind): self.kind, self.dbs = kind, []
    def new(self):
        if self.kind == "duck": return DuckDBInterface(":memory:")
        return fakepg.interface(fakepg.Server(answer=lambda *a: [(1,)]), "x")
    def connect(self, k, flag):
        kw = {f: True for f in flag.split()}
        if self.kind == "duck": return postbound.duckdb.connect(":memory:", name=k, **kw)
        server = fakepg.Server(answer=lambda *a: [(1,)])
        with mock.patch("psycopg.connect", lambda cs="", **k: server.connect(cs, **k)):
            return postbound.postgres.connect(name=k, connect_string="x", **kw)


def replay_pool(ck):
    def go(h):
        pool = DatabasePool.get_instance()
        pool.clear()
        w = PoolWorld(("duck", "pg")[sum(len(s["op"]) + s["no"] for s in h) % 2])
        key = lambda k, n: k if n == 1 else f"{k} - {n}"
        for s in h:
            op = s["op"]
            if op == "end": break
            ck.steps += 1; ck.act(f"pool {op}")
            require("there is one pool", DatabasePool.get_instance() is pool)
            if op == "connect":
                db = w.connect(s["key"], s["flag"])
                if s["res"] > len(w.dbs):
                    require("a new connection is established", all(db is not x for x in w.dbs), s["flag"]); w.dbs.append(db)
                else: require("the pooled connection is used", db is w.dbs[s["res"] - 1], s["flag"])
                expect("the connection works", 1, db.execute_query("SELECT 1"))
            elif op == "register":
                db = w.new(); w.dbs.append(db); pool.register_database(key(s["key"], s["no"]), db)
            elif op == "retrieve":
                try: db = pool.retrieve_database(key(s["key"], s["no"]))
                except KeyError: db = None
                require("retrieved connection", db is (w.dbs[s["res"] - 1] if s["res"] else None), db)
            elif op == "close": w.dbs[s["res"] - 1].close()
            elif op == "clear": pool.clear()
            want = {key(e["key"], e["no"]): w.dbs[e["db"] - 1] for e in s["obs"]["pool"]}
            expect("number of connections", len(want), pool.n_databases())
            expect("empty pool", not want, pool.empty())
            for k in [key(a, b) for a in ("a", "b", "other") for b in (1, 2, 3)]: expect("registered keys", k in want, k in pool)
            for k, db in want.items(): require(f"connection of a key after {op}", pool.retrieve_database(k) is db, k)
            for f in (pool.current_database, current_database):
                try: cur = f()
                except ValueError: cur = None
                require("current connection", cur is (w.dbs[s["obs"]["current"] - 1] if s["obs"]["current"] else None), cur)
            try: cur = pool.any_database()
            except ValueError: cur = None
            require("any connection", any(cur is x for x in want.values()) if want else cur is None, cur)
        pool.clear()
        for db in w.dbs:
            with contextlib.suppress(Exception): db.close()
    return go


def run(ck):
    INV, PR, jobs = ("Sound", "Transparent"), ("Direct", "Isolated"), []
    k = dict(NDB=1, NQ=1, MaxVer=2, Crashes=True, Sim=False)
    jobs.append(("C17", dict(label="one database, one query", constants=dict(k, MaxOps=6 if ck.quick else 7), invariants=INV, properties=PR)))
    jobs.append(("C17", dict(label="two databases", constants=dict(k, NDB=2, MaxOps=4 if ck.quick else 6, Crashes=False), invariants=INV, properties=PR)))
    for n in range(2 if ck.quick else 6):
        jobs.append(("C17", dict(label=f"long histories {n}", constants=dict(k, NDB=1 + n % 2, NQ=3, MaxVer=4, MaxOps=25, Sim=True), invariants=INV, sim=700 if ck.quick else 4000, depth=40, seed=ck.seed * 37 + n)))
    for n in range(1 if ck.quick else 3):
        jobs.append(("C17", dict(label=f"DuckDB {n}", constants=dict(k, NDB=2, NQ=3, MaxVer=4, MaxOps=20, Sim=True), invariants=INV, sim=200 if ck.quick else 1000, depth=40, seed=ck.seed * 41 + n)))
    jobs.append(("C17P", dict(label="pool", constants=dict(Keys={"a"}, MaxOps=3 if ck.quick else 4, Sim=False), invariants=("OneEach", "Known"), properties=("Stays",))))
    jobs.append(("C17P", dict(label="pool, long", constants=dict(Keys={"a", "b"}, MaxOps=12, Sim=True), invariants=("OneEach", "Known"), sim=100 if ck.quick else 600, depth=30, seed=ck.seed * 43)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r)
        s = lambda c, clause: clause
        if r.module == "C17P": ck.replay(r.cases, replay_pool(ck), sig=s, kind=r.label); continue
        if r.label.startswith("DuckDB"): ck.replay(r.cases, replay(ck, Duck), sig=s, kind=r.label); continue
        for b in (PG, MySQL): ck.replay(r.cases, replay(ck, b), sig=s, kind=f"{r.label} {b.__name__}")
