import collections, contextlib, json, multiprocessing as mp, os, tempfile, threading, time, warnings, atexit
from unittest import mock
import psycopg
from postbound import qal, transform
from postbound.duckdb import DuckDBInterface
from postbound.parser import parse_query
from postbound.postgres import ParallelQueryExecutor, PostgresInterface, TimeoutQueryExecutor
from vk import fakepg, tlc
from vk.core import Hang, expect, require

warnings.simplefilter("ignore")
LONG, SHORT, TIGHT, SLOW = 20.0, 0.08, 1.5, 1.9


class Unhandy(psycopg.errors.DataError):
    """cannot be handed over to another process"""
    def __reduce__(self): raise TypeError("cannot be handed over")


class Server(fakepg.Server):
    """connections of the process that created the server are the user's, all others are those of workers"""

    def __init__(self, log):
        super().__init__(answer=self.run)
        self.main, self.log_file, self.script, self.n = os.getpid(), log, None, 0

    def note(self, **kw):
        with open(self.log_file, "a") as f: f.write(json.dumps(kw) + "\n")

    def notes(self):
        with contextlib.suppress(FileNotFoundError):
            with open(self.log_file) as f: return [json.loads(x) for x in f]
        return []

    @property
    def worker(self): return os.getpid() != self.main

    def fault(self, stage):
        s = self.script
        if not self.worker or s is None or s["stage"] != stage: return
        k = s["kind"]
        if k == "error": raise (psycopg.OperationalError if stage in ("connect", "fetch") or self.n % 2 else psycopg.errors.SyntaxError)(f"fault {self.n} at {stage}")
        if k == "crash": os._exit(3)
        if k == "strange":
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            self.note(ev="end", pid=self.pid()); raise Unhandy(f"fault {self.n}")
        if k == "slow": time.sleep(SLOW)
        if k == "hang": time.sleep(45)
        if k == "race": time.sleep(SHORT * s["fraction"])

    def pid(self): return os.getpid()

    def connect(self, connect_string="", **kw):
        if self.worker: self.fault("connect"); self.note(ev="connect", pid=self.pid())
        cnx = Connection(self, connect_string)
        cnx.info.backend_pid = self.pid()
        return cnx

    def run(self, sql, params, cnx):
        if "pg_cancel_backend" in sql:
            if cnx.lost: cnx.closed = True; raise psycopg.OperationalError("server closed the connection unexpectedly")
            self.note(ev="cancel", pid=int("".join(c for c in sql.split("pg_cancel_backend")[1].split(")")[0] if c.isdigit()) or (params or [0])[0])); return [(True,)]
        if "pg_settings" in sql: return [("geqo", "on"), ("work_mem", "4096")]
        if "prep_marker" in sql: self.fault("prep"); return None
        if sql.strip().upper().startswith("SET"): self.fault("config"); return None
        if "FROM q" in sql.replace("\n", " "):
            k = self.script["kind"] if self.script else ""
            if self.worker: self.note(ev="begin", pid=self.pid(), text=sql)
            try: self.fault("exec")
            except psycopg.Error: self.note(ev="end", pid=self.pid()); raise
            if self.worker: self.note(ev="end", pid=self.pid())
            return None if k == "mute" else [(lambda: 1,)] if k == "error" and self.script["stage"] == "result" and self.worker else answer(self.n)
        return [(1,)]


class Connection(fakepg.Connection):
    lost = False
    def cursor(self, *a, **kw): return Cursor(self)


class Cursor(fakepg.Cursor):
    def execute(self, sql, params=None, **kw):
        super().execute(sql, params, **kw)
        self.query = "FROM q" in str(sql)
        return self
    def fetchall(self):
        if getattr(self, "query", False):
            self.cnx.server.fault("fetch")
            if self.rowcount < 0: raise psycopg.ProgrammingError("the last operation didn't produce a result")
        return super().fetchall()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def answer(n): return [[(n,)], [(n, "a"), (-n, None)], [], [(n, n)]][n % 4]
def simplified(r):
    if not r: return []
    if len(r[0]) == 1: r = [x[0] for x in r]
    return r[0] if len(r) == 1 else r


def runtime(db, outcome, start, timeout=0.0, least=0.0):
    """What the database says about the time of the query that just ended"""
    waited, t = time.perf_counter() - start, db.last_query_runtime()
    if outcome == "result": require("the runtime of the query is within the time that it took", 0 <= t and least * 0.95 <= t <= waited, (least, t, waited))
    if outcome == "timeout": require("no runtime below the limit is reported for a timeout", not t < timeout * 0.9, (timeout, t))


def children_allowed(): mp.current_process()._config["daemon"] = False


class Postgres:
    def __init__(self, folder, k):
        children_allowed()
        self.server = Server(os.path.join(folder, "log"))
        self.patch = mock.patch("psycopg.connect", lambda cs="", **kw: self.server.connect(cs, **kw))
        self.patch.start()
        self.db = PostgresInterface("", "pg", cache_enabled=k % 3 == 0)
        self.k, self.executor = k, TimeoutQueryExecutor(self.db)

    def close(self):
        self.patch.stop()
        for p in mp.active_children():
            p.kill(); p.join()

    def extra(self, op):
        if op == "reset": self.db.reset_connection()
        elif op == "untimed":
            self.server.script, self.server.n = None, self.server.n + 1
            start = time.perf_counter()
            expect("result of an untimed query in between", answer(self.server.n), self.db.execute_query(f"SELECT * FROM q{self.server.n}", raw=True, cache_enabled=False))
            runtime(self.db, "result", start)
        else:
            for c in self.server.connections:
                if c is self.db.connection(): continue
                c.lost = True                                   # the server is gone, which is noticed now or when it is used again
                if op == "drop": c.closed = True

    def query(self, s, i):
        sv = self.server
        sv.n += 1
        n, kind = sv.n, s["kind"]
        sv.script = dict(s, fraction=(0.3, 0.7, 0.95, 1.0, 1.05, 1.3)[(self.k + i) % 6])
        before = len(sv.notes())
        text = f"SELECT * FROM q{n}"
        form = (self.k + i) % 4
        q = text if form == 0 else collections.UserString(text) if form == 1 else parse_query(text, bind_columns=False)
        if s["stage"] == "prep" or form == 3:
            q = transform.add_clause(parse_query(text, bind_columns=False), qal.Hint("SET prep_marker = 1;", ""))
        want = None if kind == "mute" else answer(n)
        timeout = SHORT if kind in ("hang", "race") else TIGHT if kind == "slow" else LONG
        if kind == "cached":
            sv.script = None
            self.db.execute_query(q, cache_enabled=True)
            sv.script = dict(s, stage="exec", kind="hang", fraction=1)
        entry = (self.k // 2 + i) % 5
        raw = (self.k + i) % 2 == 0
        kw = {"raw": True} if raw else {} if i % 3 else {"raw": False}
        if kind == "cached":
            if entry == 3: entry = 0
            kw["cache_enabled"] = True
        elif i % 4 == 0: kw["cache_enabled"] = False
        if entry == 4 and (kind in ("cached", "mute") or form == 1): entry = 1
        start = time.perf_counter()
        try:
            if entry == 0: got = self.db.execute_query(q, timeout=timeout, **kw)
            elif entry == 1: got = self.executor.execute_query(q, timeout, **kw)
            elif entry == 2: got = self.executor(q, timeout, **kw)
            elif entry == 3:
                got = self.db.execute_with_timeout(q, timeout); raw = True
                if got is None and (want is not None or "timeout" in s["allowed"]): raise TimeoutError(q)
            else:
                t = self.db.time_query(q, timeout=timeout)
                require("measured time", 0 <= t <= timeout + 5, t)
                got = want if raw else simplified(want)
            outcome = "result"
        except TimeoutError: outcome, got = "timeout", None
        except Hang: raise
        except Exception as e: outcome, got = "failure", e
        where = f"{kind} at {s['stage']}"
        if kind != "cached": runtime(self.db, outcome, start, timeout, SHORT * sv.script["fraction"] if kind == "race" and s["stage"] == "exec" else 0)
        require(f"outcome ({where}): {outcome}", outcome in s["allowed"], got)
        if outcome == "result":
            expect(f"result of the query ({where})", repr(want if raw else simplified(want)), repr(got))
        if outcome == "failure" and kind == "error" and s["stage"] != "result": require(f"error of the query ({where})", f"fault {n} at" in str(got), str(got))
        log = sv.notes()[before:]
        own = {x["pid"] for x in log if x["ev"] == "connect"}
        running = {x["pid"] for x in log if x["ev"] == "begin"} - {x["pid"] for x in log if x["ev"] in ("end", "cancel")}
        if kind == "cached": return expect("cached results need no execution", [], log)
        require(f"nothing keeps running on the server ({where}, {outcome})", not running, log)
        require("only the own backend is cancelled", {x["pid"] for x in log if x["ev"] == "cancel"} <= own, log)
        if outcome == "result": require("successful queries are not cancelled", not any(x["ev"] == "cancel" for x in log), log)
        if outcome != "failure": expect("executed exactly once", 1, sum(x["ev"] == "begin" for x in log))
        deadline = time.time() + 10
        while mp.active_children() and time.time() < deadline: time.sleep(0.01)
        require(f"no worker is left ({where}, {outcome})", not mp.active_children())


class Duck:
    HANG = "SELECT count(*) AS q{n} FROM range(10000000) a, range(10000000) b WHERE a.range + b.range = {n}"

    def __init__(self, folder, k):
        self.db, self.k, self.n = DuckDBInterface(":memory:", cache_enabled=k % 3 == 0), k, 0

    def close(self): self.db.close()
    def extra(self, op):
        self.n += 1
        if op == "reset": self.db.reset_connection()
        else:
            start = time.perf_counter()
            expect("result of an untimed query in between", [(self.n,)], self.db.execute_query(f"SELECT {self.n}", raw=True, cache_enabled=False))
            runtime(self.db, "result", start)

    def query(self, s, i):
        self.n += 1
        n, kind = self.n, s["kind"]
        want = [[(n,)], [(n, "a"), (-n, None)], [], [(n, n)]][n % 4]
        text = ["SELECT {n}", "SELECT x, y FROM (VALUES ({n}, 'a'), (-{n}, NULL)) AS t(x, y)", "SELECT {n} AS x WHERE 1 = 2", "SELECT {n}, {n}"][n % 4].format(n=n)
        if kind == "error": text = f"SELECT fault_{n} FROM (VALUES (1)) AS t(x)"
        if kind == "hang": text = self.HANG.format(n=n)
        if kind == "race": text, want = f"SELECT count(*) + {n} - {n} FROM range({(3, 10, 30, 60)[(self.k + i) % 4]}000000) t(x) WHERE x % 7 = 3 OR x % 7 != 3", [((3, 10, 30, 60)[(self.k + i) % 4] * 1000000,)]
        timeout = SHORT if kind in ("hang", "race") else LONG
        q = parse_query(text, bind_columns=False) if (self.k + i) % 3 == 1 and kind in ("none", "error") and n % 4 in (0, 3) else text
        kw = {}
        if kind == "cached":
            self.db.execute_query(q, cache_enabled=True); kw["cache_enabled"] = True; timeout = 1e-9
        elif i % 2: kw["cache_enabled"] = False
        raw, entry = (self.k + i) % 2 == 0, (self.k // 2 + i) % 3
        if kind == "cached": entry = 0
        start = time.perf_counter()
        try:
            if entry == 0: got = self.db.execute_query(q, timeout=timeout, raw=raw, **kw)
            elif entry == 1:
                got = self.db.execute_with_timeout(q, timeout=timeout); raw = True
                if got is None: raise TimeoutError(q)
            else:
                t = self.db.time_query(q, timeout=timeout); require("measured time", 0 <= t <= timeout + 5, t)
                got = want if raw else simplified(want)
            outcome = "result"
        except TimeoutError: outcome, got = "timeout", None
        except Hang: raise
        except Exception as e: outcome, got = "failure", e
        if kind != "cached": runtime(self.db, outcome, start, timeout)
        require(f"DuckDB outcome ({kind}): {outcome}", outcome in s["allowed"], got)
        if outcome == "result": expect(f"DuckDB result ({kind})", repr(want if raw else simplified(want)), repr(got))
        if outcome == "failure": require("DuckDB error of the query", f"fault_{n}" in str(got), str(got))


def replay(ck, backend):
    def go(h):
        here = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="vk-c21-") as folder:
            os.chdir(folder); atexit._clear()
            k = sum(len(s["stage"]) * 3 + len(s["kind"]) + len(s["op"]) for s in h) % 60
            w = backend(folder, k)
            try:
                for i, s in enumerate(h):
                    ck.steps += 1; ck.act(f"{backend.__name__} {s['op']} {s['stage']} {s['kind']}")
                    if s["op"] == "query": w.query(s, i)
                    else: w.extra(s["op"])
            finally:
                w.close(); atexit._clear(); os.chdir(here)
    return go


# ---------------------------------------------------------------------------------- parallel
class Pool(fakepg.Server):
    def __init__(self): super().__init__(answer=self.run); self.kinds, self.gates, self.started, self.limit = {}, {}, {}, None
    def run(self, sql, params, cnx):
        if "statement_timeout" in sql:
            if not (cnx.autocommit and "LOCAL" in sql.upper().split()): cnx.session["timeout"] = sql      # local settings end with the transaction
            return None
        if "FROM q" not in sql.replace("\n", " "): return [(1,)]
        i = int(sql.replace("\n", " ").split("FROM q")[1].split(";")[0].split()[0])
        self.started[i].set()
        if not self.gates[i].wait(30): raise RuntimeError("not released")
        k = self.kinds[i]
        if k == "error": raise psycopg.errors.DivisionByZero(f"fault {i}")
        if k == "cancelled": raise psycopg.errors.QueryCanceled(f"canceling statement due to user request ({i})")
        if k == "timeout":
            if "timeout" not in cnx.session: return [(i, "no time limit")]
            if self.limit not in cnx.session["timeout"]: return [(i, "wrong time limit")]
            raise psycopg.errors.QueryCanceled("canceling statement due to statement timeout" + ("\nCONTEXT:  parallel worker" if i % 2 else ""))
        return [] if k == "empty" else rows_of(i)


def rows_of(i): return [[(i,)], [(i, None), (i, "x")], [(0, i)]][i % 3]


def replay_parallel(ck, threads):
    def go(h):
        pool = Pool()
        pool.limit = "7"
        with mock.patch("psycopg.connect", lambda cs="", **kw: PoolConnection(pool, cs)):
            ex = ParallelQueryExecutor("host=x", threads, timeout=7)
            texts = {}
            try:
                for n, s in enumerate(h):
                    ck.steps += 1; ck.act(f"parallel {s['op']}")
                    if s["op"] == "queue":
                        i = s["id"]
                        pool.kinds[i], pool.gates[i], pool.started[i] = s["kind"], threading.Event(), threading.Event()
                        t = f"SELECT * FROM q{i}"
                        texts[i] = parse_query(t, bind_columns=False) if i % 2 else t
                        ex.queue_query(texts[i])
                    elif s["op"] == "finish": finish(pool, s["id"])
                    else: drain(pool, ex, s, texts)
            finally:
                for g in pool.gates.values(): g.set()
                ex.close()
    return go


class PoolConnection(fakepg.Connection):
    autocommit = False
    def cursor(self, *a, **kw): return PoolCursor(self)
class PoolCursor(fakepg.Cursor):
    def execute(self, sql, params=None, **kw):
        i = str(sql).replace("\n", " ").split("FROM q")[1].split(";")[0].split()[0] if "FROM q" in str(sql).replace("\n", " ") else None
        try: return super().execute(sql, params, **kw)
        finally:
            if i: self.id = int(i)


def finish(pool, i):
    require("queued queries run as soon as a worker is available", pool.started[i].wait(10))
    pool.gates[i].set()
    time.sleep(0.004)


def settle(ex, n):
    """the queries whose gates are open end on their own"""
    deadline = time.time() + 10
    while time.time() < deadline and f"fin={n}" not in str(ex): time.sleep(0.002)


def drain(pool, ex, s, texts):
    released = [i for i, g in pool.gates.items() if g.is_set()]
    settle(ex, len(released))
    calls, errors, waited = [], [], False
    cb = (lambda q, r: calls.append((q, r))) if s["callback"] else None
    helper = threading.Thread(target=lambda: [finish(pool, i) for i in s["order"]]); helper.start()
    for _ in range(len(texts) + 2):
        try:
            ex.drain_queue(callback=cb, timeout=0.05 if s["waits"] else None)
            break
        except (TimeoutError, psycopg.Error) as e:
            if isinstance(e, TimeoutError): waited = True; break
            errors.append(str(e))
    helper.join()
    require("draining comes to an end", len(errors) <= len(s["bad"]), errors)
    expect("time limit of the queue", s["waits"], waited)
    expect("errors are raised", sorted(f"fault {i}" if pool.kinds[i] == "error" else f"canceling statement due to user request ({i})" for i in s["bad"]), sorted(errors))
    want = lambda i: None if pool.kinds[i] == "timeout" else [] if pool.kinds[i] == "empty" else rows_of(i)
    if s["callback"]: same(texts, s["good"], want, calls)
    got = ex.result_set()
    expect("result set", {str(texts[i]): want(i) for i in s["total"]}, {str(q): r for q, r in got.items()})
    require("result set is about the queries themselves", all(any(q is t for t in texts.values()) for q in got))


def same(texts, ids, want, calls):
    key = lambda x: x[0]
    expect("results passed to the callback", sorted([(str(texts[i]), want(i)) for i in ids], key=key), sorted([(str(q), r) for q, r in calls], key=key))
    require("the callback gets the queries themselves", all(any(q is t for t in texts.values()) for q, _ in calls))


def run(ck):
    INV, jobs = ("Right", "NoOrphan", "Cancelled", "OnlyRunning"), []
    FAST, ALL = {"none", "error", "crash", "hang", "race", "mute", "cached", "strange"}, {"none", "error", "crash", "slow", "hang", "race", "mute", "cached", "strange"}
    EX, DK = {"reset", "untimed", "lose", "drop"}, {"none", "error", "hang", "race", "cached"}
    jobs.append(("C21", dict(label="Postgres, single queries", constants=dict(MaxQ=1, Faults=ALL, Extras=EX, Sim=False), invariants=INV, properties=("Ends",))))
    jobs.append(("C21", dict(label="Postgres, two queries", constants=dict(MaxQ=2, Faults=FAST, Extras={"lose"} if ck.quick else EX, Sim=False), invariants=INV, properties=("Ends",))))
    jobs.append(("C21", dict(label="Postgres, long", constants=dict(MaxQ=6, Faults=FAST, Extras=EX, Sim=True), invariants=INV, sim=60 if ck.quick else 500, depth=150, seed=ck.seed * 59)))
    jobs.append(("C21", dict(label="DuckDB", constants=dict(MaxQ=2 if ck.quick else 3, Faults=DK, Extras={"reset", "untimed"}, Sim=False), invariants=INV, properties=("Ends",))))
    for k in (1, 2, 3):
        jobs.append(("C21P", dict(label=f"parallel {k}", constants=dict(K=k, NQ=2 if ck.quick else 3, MaxOps=(4 if k == 2 else 3) + (not ck.quick), Sim=False), invariants=("Once", "Known", "Bounded"))))
        jobs.append(("C21P", dict(label=f"parallel long {k}", constants=dict(K=k, NQ=6, MaxOps=16, Sim=True), invariants=("Once", "Known", "Bounded"), sim=60 if ck.quick else 400, depth=30, seed=ck.seed * 61 + k)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r)
        s = lambda c, clause: clause
        if r.module == "C21P":
            k = int(r.label.split()[-1])
            ck.replay(r.cases, replay_parallel(ck, k), sig=s, kind=r.label, limit=60)
        else:
            cases = [json.loads(x) for x in sorted({json.dumps(c) for c in r.cases})]
            ck.replay(cases, replay(ck, Duck if r.label.startswith("DuckDB") else Postgres), sig=s, kind=r.label, limit=40)
