import copy, pickle, re
import pglast
import pglast.keywords as kw
import postbound as pb
from postbound import TableReference, ColumnReference
from vk import tlc
from vk.core import expect, require

A = ["", "a", "A", "b", "select", "my tab", "x-1", "_z$9", 'we"ird', "1st", "B"]


def fields(x):
    if isinstance(x, TableReference):
        return {"k": "tab", "schema": A.index(x.schema), "name": A.index(x.full_name), "alias": A.index(x.alias), "virtual": x.virtual}
    if isinstance(x, ColumnReference):
        return {"k": "col", "name": A.index(x.name), "tab": {"k": "none"} if x.table is None else fields(x.table)}
    return {"k": type(x).__name__}


def q(s):
    return '"%s"' % s.replace('"', '""')


def text(toks):
    return "".join(t["text"] if "text" in t else (q(A[t["id"]]) if t["q"] else A[t["id"]]) for t in toks)


OPS = {
    "table": lambda o, P, a: TableReference(A[a[1]], A[a[2]], schema=A[a[0]], virtual=a[3]),
    "create_virtual": lambda o, P, a: TableReference.create_virtual(A[a[0]], full_name=A[a[1]]),
    "drop_alias": lambda o, P, a: o.drop_alias(),
    "with_alias": lambda o, P, a: o.with_alias(A[a[0]]),
    "make_virtual": lambda o, P, a: o.make_virtual(),
    "update_name": lambda o, P, a: o.update(full_name=A[a[0]]),
    "update_alias": lambda o, P, a: o.update(alias=A[a[0]]),
    "update_schema": lambda o, P, a: o.update(schema=A[a[0]]),
    "update_virtual": lambda o, P, a: o.update(virtual=a[0]),
    "column": lambda o, P, a: ColumnReference(A[a[0]]),
    "bound_column": lambda o, P, a: ColumnReference(A[a[0]], o),
    "bind_to": lambda o, P, a: o.bind_to(P[a[0] - 1]),
    "as_unbound": lambda o, P, a: o.as_unbound(),
    "drop_table_alias": lambda o, P, a: o.drop_table_alias(),
    "copy": lambda o, P, a: copy.copy(o),
    "deepcopy": lambda o, P, a: copy.deepcopy(o),
    "pickle": lambda o, P, a: pickle.loads(pickle.dumps(o)),
}


def idents(node):
    """(schema, name, alias) of the only FROM item / path of the only column"""
    stmt = pglast.parse_sql(node)[0].stmt
    return stmt


def read_table(sql):
    rv = pglast.parse_sql("SELECT 1 FROM " + sql)[0].stmt.fromClause
    require("table renders as one FROM item", len(rv) == 1, sql)
    rv = rv[0]
    return rv.schemaname or "", rv.relname, rv.alias.aliasname if rv.alias else ""


def read_column(sql):
    t = pglast.parse_sql("SELECT " + sql)[0].stmt.targetList[0]
    require("column renders as plain reference", t.name is None, sql)
    return [f.sval for f in t.val.fields]


def replay(ck):
    def go(c):
        pool, snap = [], []
        for s in c["h"]:
            ck.act(s["op"]); ck.steps += 1
            on = pool[s["on"] - 1] if s["on"] else None
            try:
                r = OPS[s["op"]](on, pool, s["args"])
            except (ValueError, pb.util.StateError) as e:
                expect(s["op"] + " outcome", s["res"], {"k": "err"})
                continue
            expect(s["op"] + " result", s["res"], fields(r))
            expect("rendered form", text(s["txt"]), str(r))
            if isinstance(r, TableReference):
                expect("identifier()", r.alias or r.full_name, r.identifier())
                want = (r.schema, r.full_name, r.alias) if r.full_name else ("", r.alias, "")
                expect("table survives parsing", want, read_table(str(r)))
                if not r.virtual and r.full_name:
                    expect("qualified name survives parsing", (r.schema, r.full_name, ""), read_table(r.qualified_name()))
                match r:
                    case TableReference(n, a, v, sc):
                        expect("match pattern", (r.full_name, r.alias, r.virtual, r.schema), (n, a, v, sc))
            else:
                expect("is_bound", r.table is not None, r.is_bound())
                want = [r.name] if r.table is None else [r.table.identifier(), r.name]
                expect("column survives parsing", want, read_column(str(r)))
                for t in pool:
                    if isinstance(t, TableReference):
                        expect("belongs_to", r.table == t, r.belongs_to(t))
            pool.append(r); snap.append(s["res"])
            for p, f in zip(pool, snap):
                expect("references are immutable", f, fields(p))
        eq = {tuple(p) for p in c["obs"]["eq"]}
        lt = {tuple(p) for p in c["obs"]["lt"]}
        n = len(pool)
        for i in range(n):
            for j in range(n):
                x, y = pool[i], pool[j]
                if type(x) is TableReference and isinstance(y, ColumnReference) or type(y) is TableReference and isinstance(x, ColumnReference):
                    require("tables never equal columns", not (x == y))
                    continue
                e = (i + 1, j + 1) in eq
                expect("equality", e, x == y)
                expect("inequality", not e, x != y)
                if e:
                    expect("equal references have equal hashes", hash(x), hash(y))
                expect("set membership", e, y in {x})
                expect("dict lookup", e, {x: 1}.get(y) == 1)
                expect("ordering", (i + 1, j + 1) in lt, x < y)
        tabs = [p for p in pool if isinstance(p, TableReference)]
        expect("sorting follows the identifiers", sorted(t.identifier().lower() for t in tabs), [t.identifier().lower() for t in sorted(tabs)])
    return go


RESERVED = sorted(set(kw.RESERVED_KEYWORDS) | set(kw.TYPE_FUNC_NAME_KEYWORDS))
PLAIN = ["title", "movie_id", "t1", "_x", "a$b", "x9", "name", "value", "year", "id", "type", "kind", "data", "info"]
UGLY = ["Title", "movie id", "movie-id", "1t", "tITLE", "a.b", "a;b", "ä", "a\"b", '"', "$a", "a'b", "select ", " x", "a\nb", "a\n", "a--b", "a/*b"]


def rendering(ck):
    """identifier classes of the specification's alphabet, every member of each class"""
    def go(c):
        name, need = c
        ck.act("quote"); ck.steps += 1
        s = pb.quote(name) if hasattr(pb, "quote") else __import__("postbound._core", fromlist=["quote"]).quote(name)
        expect("quoted exactly when necessary", q(name) if need else name, s)
        for t in (TableReference(name), TableReference("tbl", name), TableReference(name, name), TableReference("tbl", schema=name), TableReference(name, "x", schema=name)):
            expect("table survives parsing", (t.schema, t.full_name, t.alias), read_table(str(t)))
        expect("column survives parsing", [name], read_column(str(ColumnReference(name))))
        expect("column survives parsing", [name, name], read_column(str(ColumnReference(name, TableReference("tbl", name)))))
    ck.replay([[n, True] for n in RESERVED + UGLY] + [[n, False] for n in PLAIN], go, kind="identifier rendering")


def run(ck):
    laws = ["EqEquivalence", "LtStrict", "WellFormed", "Emit"]
    q = ck.quick
    jobs = [
        ("C02", dict(label="all pairs of derivations", constants=dict(Names={1, 2, 5}, MaxLen=2, Sim=False), invariants=laws, properties=["Immutable"])),
        ("C02", dict(label="random derivation sequences", constants=dict(Names=set(range(1, 11)), MaxLen=9, Sim=True), sim=1200 if q else 30000, depth=11, seed=ck.seed)),
        ("C02", dict(label="random derivation sequences, few names", constants=dict(Names={1, 2, 3, 10}, MaxLen=8, Sim=True), sim=1200 if q else 30000, depth=11, seed=ck.seed + 1)),
    ]
    if not q:
        jobs.append(("C02", dict(label="all triples of derivations", constants=dict(Names={1, 2}, MaxLen=3, Sim=False), invariants=laws)))
    for r in tlc.run_many(jobs, 4):
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: cl + " | " + "; ".join(s["op"] + str(s["args"]) for s in c["h"]), kind=r.label)
    rendering(ck)
