"""In-memory stand-ins for the parts of the outside world (a database schema, ...)."""
import postbound as pb
from postbound.db import Database, DatabaseSchema


class FakeSchema(DatabaseSchema):
    """tables: {table: {column: kind}} with kind in primary/secondary/none; fks: {(table, col): (table, col)}"""

    def __init__(self, tables, fks=None):
        self._t = tables
        self._fks = fks or {}

    def tables(self, *, include_system_tables=False, schema="public"):
        return {pb.TableReference(t) for t in self._t}

    def _name(self, table):
        return table.full_name if isinstance(table, pb.TableReference) else table

    def columns(self, table):
        tab = pb.TableReference(table) if isinstance(table, str) else table
        return [pb.ColumnReference(c, tab) for c in self._t[self._name(table)]]

    def _kind(self, column):
        if not column.is_bound():
            raise pb.UnboundColumnError(column)
        return self._t[column.table.full_name].get(column.name, "none")

    def is_view(self, table):
        return False

    def is_primary_key(self, column):
        return self._kind(column) == "primary"

    def has_secondary_index(self, column):
        return self._kind(column) == "secondary"

    def has_index(self, column):
        return self._kind(column) != "none"

    def indexes_on(self, column):
        return [] if self._kind(column) == "none" else [f"{column.table.full_name}_{column.name}_idx"]

    def foreign_keys_on(self, column):
        t = self._fks.get((column.table.full_name, column.name))
        return {pb.ColumnReference(t[1], pb.TableReference(t[0]))} if t else set()

    def datatype(self, column):
        return "int"

    def is_nullable(self, column):
        return False

    def lookup_column(self, column, candidate_tables, *, expect_match=False):
        name = column if isinstance(column, str) else column.name
        for t in sorted(candidate_tables, key=str):
            if name in self._t.get(t.full_name, ()):
                return t
        if expect_match:
            raise ValueError(name)
        return None


class FakeDatabase(Database):
    """A database without a server; checks override what they need."""

    def __init__(self, name="fake", cache_enabled=False):
        self.system_name, self._cache_enabled, self._query_cache = name, cache_enabled, {}

    def schema(self): raise NotImplementedError
    def statistics(self): raise NotImplementedError
    def hinting(self): raise NotImplementedError
    def optimizer(self): raise NotImplementedError
    def execute_query(self, query, *, cache_enabled=None, raw=False, timeout=None): raise NotImplementedError
    def database_name(self): return "fake"
    def database_system_version(self):
        from postbound.util import Version
        return Version("1.0")
    def describe(self): return {"name": self.system_name}
    def reset_connection(self): pass
    def cursor(self): raise NotImplementedError
    def close(self): pass
    def __repr__(self): return f"FakeDatabase({self.system_name})"
