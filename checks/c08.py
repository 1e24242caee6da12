import copy
import postbound as pb
from postbound import TableReference, Cardinality, JoinTree, LogicalJoinTree
from postbound.opt._helpers import parse_nested_table_sequence
from postbound.util import StateError
from vk import tlc
from vk.core import expect, require


def T(i):
    return TableReference(f"t{i}", f"a{i}" if i % 2 else "")


def no(t):
    return int(t.full_name[1:])


class Variant:
    def __init__(self, cls, ann):
        self.cls, self.ann = cls, ann

    def un(self, a):
        return 0 if a is None else (a.value if isinstance(a, Cardinality) else a)

    def tree(self, x):
        """projection of an implementation tree onto the specification's trees"""
        require("operations keep the kind of tree", type(x) is self.cls, type(x).__name__)
        if x.is_empty():
            return {"k": "empty"}
        if x.is_scan():
            require("a scan is no join", not x.is_join())
            return {"k": "scan", "t": no(x.base_table), "ann": self.un(x.annotation)}
        return {"k": "join", "o": self.tree(x.outer_child), "i": self.tree(x.inner_child), "ann": self.un(x.annotation)}

    def mark(self, x):
        return {"tabs": sorted(no(t) for t in x.tables()), "ann": self.un(x.annotation), "k": "scan" if x.is_scan() else "join"}


VARIANTS = [Variant(JoinTree, lambda a: None if a == 0 else a), Variant(LogicalJoinTree, lambda a: None if a == 0 else Cardinality(a))]


def srt(m):
    return {**m, **{k: sorted(m[k]) for k in ("tabs", "outer", "inner") if k in m}}


def observe(v, x, o, n):
    expect("tree", o["tree"], v.tree(x))
    tabs = sorted(o["tabs"])
    empty = o["tree"]["k"] == "empty"
    expect("tables", tabs, sorted(no(t) for t in x.tables()))
    expect("length", len(tabs), len(x))
    expect("truth value", not empty, bool(x))
    expect("depth", o["depth"], x.plan_depth())
    expect("leaves", o["leaves"], [no(t) for t in x.itertables()])
    expect("nodes, outer first", [srt(m) for m in o["nodes"]], [v.mark(y) for y in x.iternodes()])
    expect("joins, bottom-up", [srt(m) for m in o["joins"]],
           [{"tabs": sorted(no(t) for t in j.tables()), "outer": sorted(no(t) for t in j.outer_child.tables()),
             "inner": sorted(no(t) for t in j.inner_child.tables()), "ann": v.un(j.annotation)} for j in x.iterjoins()])
    if not empty:
        expect("is_linear", o["linear"], x.is_linear())
        expect("is_bushy", not o["linear"], x.is_bushy())
        expect("is_base_join", o["base"], x.is_base_join())
        expect("is_join", o["tree"]["k"] == "join", x.is_join())
        expect("children", 2 if x.is_join() else 0, len(x.children))
        if x.is_join():
            expect("children order", [v.tree(x.outer_child), v.tree(x.inner_child)], [v.tree(c) for c in x.children])
            fails(lambda: x.base_table, "a join has no base table")
        else:
            fails(lambda: x.outer_child, "a scan has no outer child")
            fails(lambda: x.inner_child, "a scan has no inner child")
        if v.cls is LogicalJoinTree:
            expect("cardinality", o["tree"]["ann"], v.un(x.cardinality))
    else:
        fails(lambda: x.annotation, "an empty tree has no annotation")
        fails(lambda: x.is_linear(), "an empty tree has no shape")
    for l in o["lookup"]:
        for needle in ([T(i) for i in l["s"]], {T(i) for i in l["s"]}, *([T(l["s"][0])] if len(l["s"]) == 1 else [])):
            r = x.lookup(needle)
            expect("lookup", None if l["r"]["k"] == "none" else srt(l["r"]), None if r is None else v.mark(r))
            expect("containment", l["r"]["k"] != "none", needle in x)


def fails(f, what):
    try:
        f()
    except StateError:
        return
    require(what, False)


def replay(ck):
    def go(c):
        n = ck.n
        for v in VARIANTS:
            A = v.ann
            pool, snap = [], []
            for s in c["h"]:
                ck.steps += 1; ck.act(s["op"])
                op, a = s["op"], s["args"]
                on = pool[s["on"] - 1] if s["on"] else None
                if op == "empty": r = v.cls.empty()
                elif op == "scan": r = v.cls.scan(T(a[0]), annotation=A(a[1]))
                elif op == "join": r = v.cls.join(on, pool[a[0] - 1], annotation=A(a[1]))
                elif op == "join_tree": r = on.join_with(pool[a[0] - 1], annotation=A(a[1]), partner_direction=a[2])
                elif op == "join_table": r = on.join_with(T(a[0]), annotation=A(a[1]), partner_annotation=A(a[2]), partner_direction=a[3])
                elif op == "annotate": r = on.update_annotation(A(a[0]))
                expect(op + " result", s["res"], v.tree(r))
                pool.append(r); snap.append(s["res"])
            for p, f in zip(pool, snap):
                expect("trees are immutable", f, v.tree(p))
            obs = c["obs"]
            for p, o in zip(pool[len(pool) - len(obs):], obs):
                observe(v, p, o, n)
            eq = {tuple(p) for p in c["eq"]}
            for i, x in enumerate(pool):
                for j, y in enumerate(pool):
                    e = (i + 1, j + 1) in eq
                    expect("equality", e, x == y)
                    if e:
                        expect("equal trees have equal hashes", hash(x), hash(y))
                    expect("set membership", e, y in {x})
            if v.cls is LogicalJoinTree:
                generic = [to_generic(x) for x in pool]
                for i, x in enumerate(pool):
                    for j, y in enumerate(generic):
                        expect("equality across the two kinds of tree is symmetric", (x == y), (y == x))
    return go


def to_generic(x):
    if x.is_empty(): return JoinTree.empty()
    if x.is_scan(): return JoinTree.scan(x.base_table)
    return JoinTree.join(to_generic(x.outer_child), to_generic(x.inner_child))


def run(ck):
    q = ck.quick
    inv = ["WellFormed", "Emit"]
    jobs = [
        (2, dict(label="all construction sequences", constants=dict(N=2, Anns={7}, MaxLen=3, Sim=False), invariants=inv, properties=["Persistent"])),
        (5, dict(label="random construction sequences, 5 tables", constants=dict(N=5, Anns={3, 5, 10}, MaxLen=9, Sim=True), invariants=inv, sim=700 if q else 10000, depth=12, seed=ck.seed)),
        (4, dict(label="random construction sequences, 4 tables", constants=dict(N=4, Anns={3}, MaxLen=12, Sim=True), invariants=inv, sim=400 if q else 8000, depth=15, seed=ck.seed + 1)),
    ]
    jobs += [
        (4, dict(label="all trees of 4 tables", spec="SpecF", constants=dict(N=4, Anns=set(), MaxLen=7, Sim=False), invariants=inv)),
        (6, dict(label="random trees of 6 tables", spec="SpecF", constants=dict(N=6, Anns={3, 5}, MaxLen=11, Sim=True), invariants=inv, sim=200 if q else 3000, depth=7, seed=ck.seed)),
    ]
    if not q:
        jobs.append((3, dict(label="all construction sequences of length 4", constants=dict(N=2, Anns=set(), MaxLen=4, Sim=False), invariants=inv)))
    rs = tlc.run_many([("C08", k) for _, k in jobs], 4)
    for (n, _), r in zip(jobs, rs):
        ck.n = n
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: cl + " | " + "; ".join(f"{s['op']}{s['on']},{s['args']}" for s in c["h"]), kind=r.label)

    def nested(c):
        exp = lambda x: [exp(y) for y in x] if isinstance(x, list) else T(x)
        js = lambda x: [js(y) for y in x] if isinstance(x, list) else ({"full_name": T(x).full_name, "alias": T(x).alias} if T(x).alias else {"full_name": T(x).full_name})
        ck.steps += 1
        expect("nested table sequence", exp(c), parse_nested_table_sequence(js(c)))
    trees = {str(s["res"]): s["res"] for r in rs for c in r.cases[:3000] for s in c["h"] if s["res"]["k"] == "join"}
    seq = lambda x: x["t"] if x["k"] == "scan" else [seq(x["o"]), seq(x["i"])]
    ck.replay([seq(t) for t in list(trees.values())[:500]], nested, kind="nested sequence")
