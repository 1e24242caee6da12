import functools
import postbound as pb
from postbound import TableReference
from postbound.opt import JoinGraph
from vk import tlc
from vk.core import expect, require
from vk.fakes import FakeSchema

KIND = {"id": "primary", "pk": "primary", "f": "secondary", "g": "secondary", "n": "none"}
SCHEMA = FakeSchema({f"t{i}": dict(KIND) for i in range(1, 8)})


def T(i):
    return TableReference(f"t{i}")


def no(t):
    return int(t.full_name[1:])


@functools.lru_cache(None)
def query(n, preds):
    where = " AND ".join(f"t{a}.{x} = t{b}.{y}" if (a + b) % 2 else f"t{b}.{y} = t{a}.{x}" for a, b, x, y in preds)
    q = f"SELECT count(*) FROM {', '.join(f't{i}' for i in range(1, n + 1))}" + (f" WHERE {where}" if where else "")
    return pb.parse_query(q, bind_columns=False)


def und(s):
    return {frozenset(p) for p in s}


def tup(s):
    return {tuple(p) for p in s}


def observe(g, o, n, edges, comps):
    ts = range(1, n + 1)
    joined = set(o["joined"])
    expect("joined tables", joined, {no(t) for t in g.joined_tables()})
    expect("free tables", set(ts) - joined, {no(t) for t in g.free_tables()})
    expect("is_free_table", {t: t not in joined for t in ts}, {t: g.is_free_table(T(t)) for t in ts})
    expect("table info", {t: t not in joined for t in ts}, {no(t): g[t].free for t in g})
    expect("initial", o["initial"], g.initial())
    expect("number of consumed tables", len(joined), g.count_consumed_tables())
    expect("contains free tables", len(joined) < n, g.contains_free_tables())
    expect("number of tables", n, len(g))
    expect("all joins", edges, und([(no(a), no(b)) for a, b in g.all_joins()]))
    expect("number of joins", len(edges), len(list(g.all_joins())))
    expect("cross products", len(comps) > 1, g.contains_cross_products())

    def paths(ps):
        ps = list(ps)
        for p in ps:
            got = {frozenset((no(a.table), no(b.table))) for a, b in p.join_condition.join_partners()}
            expect("join condition belongs to the path", {frozenset((no(p.start_table), no(p.target_table)))}, got)
        return [(no(p.start_table), no(p.target_table)) for p in ps]

    conv = und if o["initial"] else set
    for clause, want, got in (("available join paths", o["paths"], paths(g.available_join_paths())),
                              ("available n:m join paths", o["nm"], paths(g.available_n_m_join_paths()))):
        want = tup(want)
        expect(clause, conv(want), conv(got))
        expect(clause + " (no duplicates)", len(want), len(got))
    both = paths(g.available_join_paths(both_directions_on_initial=True))
    bothnm = paths(g.available_n_m_join_paths(both_directions_on_initial=True))
    sym = lambda s: {(a, b) for a, b in tup(s)} | ({(b, a) for a, b in tup(s)} if o["initial"] else set())
    expect("join paths in both directions", sorted(sym(o["paths"])), sorted(both))
    expect("n:m join paths in both directions", sorted(sym(o["nm"])), sorted(bothnm))
    pkfk = tup(o["pkfk"])
    for a in ts:
        avail = {(b) for x, b in sym(o["paths"]) if x == a} | {x for x, b in tup(o["paths"]) if b == a}
        expect("available join paths for a table", sorted((a, b) for b in avail), sorted(paths(g.available_join_paths_for(T(a)))))
        expect("pk/fk joins of a table", sorted((a, b) for b in ts if (a, b) in pkfk and not {a, b} <= joined),
               sorted(paths(g.available_pk_fk_joins_for(T(a)))))
        expect("join partners", {b for b in ts if frozenset((a, b)) in edges}, {no(t) for t in g.join_partners_from(T(a), [T(x) for x in ts])})
        for b in ts:
            if a == b: continue
            e = frozenset((a, b)) in edges
            expect("joins_tables", e, g.joins_tables(T(a), T(b)))
            expect("is_pk_fk_join", (a, b) in pkfk, g.is_pk_fk_join(T(a), T(b)))
            expect("is_n_m_join", e and (a, b) not in pkfk and (b, a) not in pkfk, g.is_n_m_join(T(a), T(b)))
            expect("is_available_join", e and (o["initial"] or ((a in joined) != (b in joined))), g.is_available_join(T(a), T(b)))
            preds = g.join_predicates_between(T(a), [T(b)])
            expect("join predicates between two tables", {frozenset((a, b))} if e else set(),
                   {frozenset(no(t) for t in p.tables()) for p in preds})
        deep = [no(p.target_table) for p in g.available_deep_pk_join_paths_for(T(a))]
        want = set(o["deep"][a - 1])
        if not want & joined:
            expect("deep pk/fk joins reach", sorted(want), sorted(deep))
            seen = {a}
            for p in g.available_deep_pk_join_paths_for(T(a)):
                s, t = no(p.start_table), no(p.target_table)
                require("deep join paths are pk/fk joins", (s, t) in pkfk, (s, t))
                require("deep join paths start at a reached table", s in seen, (s, t))
                seen.add(t)
            lvl1 = [b for b in ts if (a, b) in pkfk]
            # an ordering decides among the joins of one level: the direct pk partners come first, sorted
            ordered = [no(p.target_table) for p in g.available_deep_pk_join_paths_for(T(a), ordering=lambda t, e: -no(t))]
            expect("ordering of deep join paths", sorted(lvl1, reverse=True), ordered[:len(lvl1)])
    expect("contains free n:m joins", o["freenm"], g.contains_free_n_m_joins())
    idx = {(no(i.column.table), i.column.name): (i.index_type, i.is_indexed(), i.is_primary(), i.is_secondary()) for t in g for i in g[t].index_info}
    want = {(i["t"], i["c"]): (i["kind"], i["ok"], i["ok"] and i["kind"] == "primary", i["ok"] and i["kind"] == "secondary") for i in o["idx"]}
    expect("index information", want, idx)
    for t in ts:
        expect("index information of a table", {c for (x, c) in want if x == t}, {i.column.name for i in g[T(t)].index_info})


def replay(ck):
    def go(c):
        n = ck.n
        preds = tuple((e["a"], e["b"], p[0], p[1]) for e in sorted(c["cfg"], key=lambda e: (e["a"], e["b"])) for p in e["preds"])
        edges = {frozenset((e["a"], e["b"])) for e in c["cfg"]}
        q = query(n, preds)
        pool = [JoinGraph(q, SCHEMA)]
        for s in c["h"]:
            ck.steps += 1
            ck.act(s["op"] + ("-via" if s["edge"] else ""))
            g = pool[s["on"] - 1]
            if s["op"] == "clone":
                pool.append(g.clone())
            elif s["edge"]:
                path = [p for p in g.available_join_paths() if (no(p.start_table), no(p.target_table)) == (s["edge"], s["t"])]
                require("the join path is offered", len(path) == 1, c)
                g.mark_joined(path[0].target_table, path[0].join_condition)
            else:
                g.mark_joined(T(s["t"]))
        for g, o in zip(pool, c["obs"]):
            observe(g, o, n, edges, c["comps"])
        if not c["h"]:
            expect("join components", {frozenset(x) for x in c["comps"]}, {frozenset(no(t) for t in g.joined_tables() | g.free_tables()) for g in pool[0].join_components()})
            nxg = pool[0].nx_graph()
            expect("nx graph", edges, {frozenset((no(a), no(b))) for a, b in nxg.edges})
            for t in list(nxg.nodes):
                nxg.nodes[t]["free"] = False
            require("nx graph is a copy", pool[0].initial())
    return go


def run(ck):
    q = ck.quick
    jobs = [
        (3, dict(label="3 tables, all graphs, all orders", constants=dict(N=3, Cols={"id", "f", "n"}, MaxPreds=1, MaxLen=3 if q else 4, MaxClones=0, Sim=False, Explicit=False), invariants=["Partition", "Emit"], properties=["Monotone"])),
        (2, dict(label="2 tables, two predicates, clones", constants=dict(N=2, Cols={"id", "f", "n"}, MaxPreds=2, MaxLen=3, MaxClones=1, Sim=False, Explicit=True), invariants=["Partition", "Emit"])),
        (5, dict(label="5 tables, random graphs", constants=dict(N=5, Cols={"id", "pk", "f", "g", "n"}, MaxPreds=2, MaxLen=8, MaxClones=2, Sim=True, Explicit=True), sim=400 if q else 8000, depth=11, seed=ck.seed)),
        (4, dict(label="4 tables, random graphs", constants=dict(N=4, Cols={"id", "f", "g"}, MaxPreds=2, MaxLen=6, MaxClones=1, Sim=True, Explicit=True), sim=500 if q else 8000, depth=9, seed=ck.seed + 1)),
    ]
    if not q:
        jobs.append((4, dict(label="4 tables, all graphs without keys variation", constants=dict(N=4, Cols={"id", "f"}, MaxPreds=1, MaxLen=4, MaxClones=0, Sim=False, Explicit=False))))
    rs = tlc.run_many([("C07", k) for _, k in jobs], 4)
    for (n, _), r in zip(jobs, rs):
        ck.n = n
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: f"{cl} | {sorted((e['a'], e['b'], str(e['preds'])) for e in c['cfg'])} " + "; ".join(s["op"] + str((s["on"], s["t"], s["edge"])) for s in c["h"]), kind=r.label)
