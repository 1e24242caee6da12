"""A stand-in for psycopg: connections answer statements through a callback of the check (no server involved)."""
import psycopg, types


class Cursor:
    def __init__(self, cnx): self.cnx, self.rows, self.rowcount, self.closed = cnx, [], -1, False

    def execute(self, sql, params=None, **kw):
        if self.closed or self.cnx.closed: raise psycopg.OperationalError("the connection is closed")
        text = str(sql)
        rows = self.cnx.server.statement(text, params, self.cnx)
        self.rows, self.rowcount = (list(rows), len(rows)) if rows is not None else ([], -1)
        return self

    def fetchone(self): return self.rows.pop(0) if self.rows else None
    def fetchall(self):
        r, self.rows = self.rows, []
        return r
    def close(self): self.closed = True


class Adapters:
    def register_dumper(self, *a): pass
    def register_loader(self, *a): pass


class Connection:
    pids = 1000

    def __init__(self, server, connect_string):
        Connection.pids += 1
        self.server, self.connect_string, self.closed, self.adapters = server, connect_string, False, Adapters()
        self.info = Info(self, Connection.pids)
        self.session = {}
        server.connections.append(self)

    def cursor(self, *a, **kw): return Cursor(self)
    def close(self): self.closed = True
    def cancel(self): self.server.cancelled(self)
    def cancel_safe(self, *a, **kw): self.server.cancelled(self)
    def rollback(self): pass
    def commit(self): pass


class Info:
    def __init__(self, cnx, pid): self.cnx, self.backend_pid = cnx, pid
    @property
    def status(self): return psycopg.pq.ConnStatus.BAD if self.cnx.closed else psycopg.pq.ConnStatus.OK


class Server:
    """answer(sql, params, connection) gives the rows of a statement, None if it has no result"""

    def __init__(self, name="db", version="17.2", backend="pg_hint_plan", answer=None):
        self.name, self.version, self.backend, self.answer = name, version, backend, answer
        self.connections, self.log = [], []

    def connect(self, connect_string="", **kw): return Connection(self, connect_string)
    def cancelled(self, cnx): pass

    def statement(self, sql, params, cnx):
        s = sql.strip().rstrip(";").upper()
        if s == "SELECT CURRENT_DATABASE()": return [(self.name,)]
        if s == "SELECT VERSION()": return [(f"PostgreSQL {self.version} on x86_64",)]
        if s.startswith("SHOW PG_HINT_PLAN.ENABLE_HINT"):
            if self.backend != "pg_hint_plan": raise psycopg.errors.UndefinedObject("unrecognized configuration parameter")
            return [("on",)]
        if s.startswith("SHOW ENABLE_PGLAB"):
            if self.backend != "pg_lab": raise psycopg.errors.UndefinedObject("unrecognized configuration parameter")
            return [("on",)]
        self.log.append((sql, params))
        return self.answer(sql, params, cnx)


def interface(server, name="Postgres", **kw):
    """A PostgresInterface connected to the stand-in."""
    from unittest import mock
    from postbound.postgres import PostgresInterface
    with mock.patch("psycopg.connect", lambda cs="", **k: server.connect(cs, **k)):
        return PostgresInterface("", name, **kw)
