import copy, os, pickle, tempfile, warnings
import pandas as pd
from postbound import workloads as wl
from postbound.parser import parse_query
from postbound.util import dicts
from postbound.workloads import Workload, generate_workload, read_batch_workload, read_csv_workload, read_workload, wrap_workload
from vk import tlc
from vk.core import expect, require

warnings.simplefilter("ignore")
LABELS = {1: "a1", 2: "a2", 3: "a10", 4: "b1", 5: "b3", 6: "b20"}          # natural order, not the lexicographic one
NUM = {v: k for k, v in LABELS.items()}
QUERIES = {i: parse_query(f"SELECT * FROM t{i} WHERE t{i}.a = {i}") for i in range(1, 6)}
QNUM = {str(q): i for i, q in QUERIES.items()}
NQ = 5


def num(q): return QNUM[str(q)]


def rename(r, l): return {"reverse": 7 - l, "rotate": 1 if l == 6 else l + 1, "same": l}[r]
def rewrite(f, q): return {"next": 1 if q == NQ else q + 1, "one": 1, "same": q}[f]
def chosen(p, l, q): return {"odd label": l % 2 == 1, "small query": q <= 2, "both": l % 2 == q % 2, "all": True, "none": False}[p]


def until(make, good, what):
    for _ in range(20000):
        w = make()
        if good(w): return w
    require(what, False, "not reached in 20000 attempts")


def operate(ck, pool, o, n):
    op, arg = o["op"], o["arg"]
    w = pool[o["a"] - 1] if o["a"] else None
    v = pool[o["b"] - 1] if o["b"] else None
    S = [LABELS[l] for l in o["set"]]
    if op == "create": return None
    if op == "with_labels": return w.with_labels(iter(S) if n % 2 else S)
    if op == "sublabels": return w - (S if n % 2 else tuple(S))
    if op == "andlabels": return w & (set(S) if n % 2 else S)
    if op == "first": return w.first(o["n"])
    if op == "last": return w.last(o["n"])
    if op == "pick": return until(lambda: w.pick_random(o["n"]), lambda x: set(x.labels()) == set(S), "every selection of the requested size can be picked")
    if op == "with_prefix": return w.with_prefix(arg)
    if op == "filter":
        seen = []
        def pred(l, q): seen.append((l, num(q))); return chosen(arg, NUM[l], num(q))
        r = w.filter_by(pred)
        expect("the condition sees each entry once", sorted((l, num(q)) for l, q in w.entries()), sorted(seen))
        return r
    if op == "relabel": return w.relabel(lambda l, q: LABELS[rename(arg, NUM[l])])
    if op == "map":
        if n % 2: return w.map(lambda q: QUERIES[rewrite(arg, num(q))])
        return w.map(lambda q, f, *, extra: QUERIES[rewrite(f, num(q))] if extra else None, arg, extra=1)
    if op == "transform":
        if n % 2: return w.transform(lambda l, q: (LABELS[rename("rotate", NUM[l])], QUERIES[rewrite("next", num(q))]))
        return w.transform(lambda l, q, r, *, f: (LABELS[rename(r, NUM[l])], QUERIES[rewrite(f, num(q))]), "rotate", f="next")
    if op == "shuffle":
        want = [LABELS[l] for l in o["perm"]]
        def good(x):
            if x.labels() == want: return True
            require("a shuffled workload has the same entries", sorted(x.labels()) == sorted(want) and all(x[l] is q for l, q in x.entries()), x.entries())
            return False
        return until(w.shuffle, good, "every order can result from shuffling")
    if op == "ordered": return w.ordered()
    if op == "copy": return (copy.copy, lambda x: x.copy(), copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x)))[n % 4](w)
    if op == "add": return w + v
    if op == "or": return w | v
    if op == "ordict": return w | dict(v.items())
    if op == "ior":
        x = w
        x |= v
        return x
    if op == "sub": return w - v
    if op == "and": return w & v
    raise AssertionError(op)


def observe(what, o, w, root):
    labels, queries = [LABELS[l] for l in o["labels"]], o["queries"]
    expect(f"{what}: labels", labels, list(w.labels()))
    expect(f"{what}: queries", queries, [num(q) for q in w.queries()])
    expect(f"{what}: entries", list(zip(labels, queries)), [(l, num(q)) for l, q in w.entries()])
    h = w.head()
    expect(f"{what}: head", (labels[0], queries[0]) if labels else None, h and (h[0], num(h[1])))
    expect(f"{what}: size", len(labels), len(w))
    expect(f"{what}: truth", bool(labels), bool(w))
    expect(f"{what}: iteration", sorted(labels), sorted(w))
    expect(f"{what}: items", sorted(zip(labels, queries)), sorted((l, num(q)) for l, q in w.items()))
    for l in LABELS.values(): expect(f"{what}: membership", l in labels, l in w)
    for l, q in zip(labels, queries): expect(f"{what}: lookup by label", q, num(w[l]))
    for i, q in QUERIES.items():
        try: l = w.label_of(q)
        except KeyError: l = None
        if i in queries: require(f"{what}: lookup by query", l in labels and num(w[l]) == i, l)
        else: expect(f"{what}: lookup of an unknown query", None, l)
    missing = next((l for l in LABELS.values() if l not in labels), "nope")
    try: w[missing]
    except KeyError: pass
    else: require(f"{what}: lookup of an unknown label", False, missing)
    expect(f"{what}: name", f"name{o['name']}", w.name)
    require(f"{what}: description", w.name in str(w) and str(len(labels)) in str(w), str(w))
    for x in (w.labels(), w.queries(), w.entries()):             # what is handed out is not the workload itself
        if isinstance(x, list): x.clear()
    expect(f"{what}: labels after changing a returned list", labels, list(w.labels()))


def replay(ck):
    def go(c):
        pool, created = [], 0
        for n, (o, ob) in enumerate(zip(c["ops"], c["obs"])):
            ck.steps += 1; ck.act(o["op"])
            if o["op"] == "create":
                data = {LABELS[l]: QUERIES[q] for l, q in list(zip(ob["labels"], ob["queries"]))[::-1]}
                w = Workload(data, name=f"name{ob['name']}")
                if data: data.pop(next(iter(data)))
            else: w = operate(ck, pool, o, n + o["a"] + len(c["ops"][-1]["op"]))
            pool.append(w)
            for k, x in enumerate(pool):
                what = f"{o['op']}" if k == len(pool) - 1 else f"older workload ({c['ops'][k]['op']}) after {o['op']}"
                observe(what, c["obs"][k], x, None)
        # dictionary helpers used by the operations
        a, b = dict(pool[0].items()), dict(pool[1].items())
        expect("difference", {k: v for k, v in a.items() if k not in b}, dicts.difference(a, b))
        expect("intersection", {k: v for k, v in a.items() if k in b}, dicts.intersection(a, b))
        try: pool[0].with_prefix(3)
        except ValueError: pass
        else: require("a prefix that is no text is refused", False)
        for f in (lambda: pool[0] + a, lambda: pool[0] - 3, lambda: pool[0] & 3):
            try: f()
            except TypeError: pass
            else: require("operands that are no workloads are refused", False)
    return go


TEXT = {"q1": "SELECT * FROM r WHERE r.name = 'Müller'", "q2": "SELECT r.a,\n  COUNT(*)\nFROM r\nWHERE r.a < 10\nGROUP BY r.a", "q3": "SELECT * FROM s, r WHERE s.x = r.y AND r.b IN (1, 2);", "bad": "SELEC nothing FROM WHERE", "blank": "  "}
STR = {k: str(parse_query(v)) for k, v in TEXT.items() if k not in ("bad", "blank")}
STR["same"] = STR["q1"]


def load(ck):
    def go(c):
        ck.steps += 1; ck.act(f"read {c['kind']}")
        want = {e["label"]: STR[e["text"]] for e in c["want"]["entries"]}
        h = sum(map(len, c["rows"])) + len(c["files"]) + len(c["prefix"]) + len(want)
        enc = "latin-1" if h % 2 else "utf-8"
        what = f"{c['kind']}{' recursive' if c['rec'] else ''} {c['policy']}"
        with tempfile.TemporaryDirectory(prefix="vk-c20-") as folder:
            w = None
            if c["kind"] == "dir":
                for f in c["files"]:
                    d = os.path.join(folder, f["dir"]); os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, f["stem"] + (".txt" if f["text"] == "other" else ".sql")), "w", encoding=enc) as out: out.write(TEXT.get(f["text"], "not a query"))
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    try:
                        if not c["rec"] and h % 3 == 0: w = Workload.read(folder, name="n", label_prefix=c["prefix"], file_encoding=enc, on_error=c["policy"])
                        else: w = read_workload(folder, "n", recurse_subdirectories=c["rec"], query_label_prefix=c["prefix"], file_encoding=enc, on_error=c["policy"])
                    except ValueError as e:
                        require(f"{what}: refused only because of a broken file", c["want"]["fails"], e); return
                require(f"{what}: broken files are refused", not c["want"]["fails"])
                n = sum(folder in str(x.message) for x in ws)
                require(f"{what}: warnings", n >= c["want"]["warnings"] and (n > 0) == (c["want"]["warnings"] > 0), n)
                expect(f"{what}: name", "n", w.name)
            else:
                w = load_list(c, folder, enc, h)
                if c["kind"] not in ("csvlabels", "genlabels"): want = {int(k): v for k, v in want.items()}
                if c["kind"] == "genlabels" and c["rows"]:
                    back = {}
                    for k, t in sorted(want.items()): back[t] = k      # a query has one label only
                    want = {k: t for t, k in back.items()}
                elif c["kind"] == "genlabels": want = {}
        expect(f"{what}: entries", want, {k: str(q) for k, q in w.entries()})
        expect(f"{what}: number of entries", len(want), len(w))
        for q in w.queries(): expect(f"{what}: lookup by query", str(q), str(w[w.label_of(q)]))
    return go


def load_list(c, folder, enc, h):
    texts = [TEXT.get(t, TEXT["q1"]).replace("\n", " ") for t in c["rows"]]
    path = os.path.join(folder, "some.queries")
    kind = c["kind"]
    if kind == "batch":
        with open(path, "w", encoding=enc) as f: f.write("\n".join(texts) + ("\n" if h % 2 else ""))
        w = read_batch_workload(path, file_encoding=enc)
        expect("batch: default name", "some", w.name)
        return w
    if kind in ("csv", "csvlabels"):
        cols = {"text": texts, "noise": list(range(len(texts)))}
        if kind == "csvlabels": cols["lab"] = [f"label{k}" for k in range(1, len(texts) + 1)]
        sep = ";" if h % 3 == 0 else ","
        pd.DataFrame(cols).to_csv(path, index=False, encoding=enc, sep=sep)
        args = {"sep": ";", "usecols": ["noise"]} if sep == ";" else None
        w = read_csv_workload(path, query_column="text", label_column="lab" if kind == "csvlabels" else None, file_encoding=enc, pd_args=args, name="given" if h % 2 else "")
        expect("table: name", "given" if h % 2 else "some", w.name)
        if args: expect("table: arguments are kept", {"sep": ";", "usecols": ["noise"]}, args)
        return w
    qs = [parse_query(t) for t in texts]
    if kind == "wrap": return wrap_workload(iter(qs), name="x")
    if kind == "generate": return generate_workload(iter(qs), name="x")
    return generate_workload(qs, labels={q: f"label{k}" for k, q in enumerate(qs, 1)})


def run(ck):
    INV, jobs = ("Consistent", "NaturalOrder", "SetLaws"), []
    A = {"with_labels", "first", "last", "pick", "with_prefix", "filter", "relabel", "map", "transform", "shuffle", "ordered", "add", "or", "ior", "ordict", "sub", "and", "sublabels", "andlabels", "copy"}
    k = dict(NL=6, NQ=5, Sim=False, Start="small")
    jobs.append(("C20", dict(label="each operation", constants=dict(k, Kinds=A, MaxOps=1), invariants=INV, properties=("OlderUnchanged",))))
    jobs.append(("C20", dict(label="shuffled, then selected", constants=dict(k, Kinds={"shuffle", "first", "last", "ordered", "or", "relabel"} if ck.quick else {"shuffle", "first", "last", "ordered", "or", "add", "sub", "relabel", "map"}, MaxOps=2), invariants=INV, properties=("OlderUnchanged",))))
    for n in range(3 if ck.quick else 8):
        jobs.append(("C20", dict(label=f"histories {n}", constants=dict(k, Kinds=A, MaxOps=8 if n % 2 else 5, Start="any", Sim=True), invariants=INV, properties=(), sim=500 if ck.quick else 4000, depth=20, seed=ck.seed * 29 + n)))
    l = dict(Dirs={"", "sub", "sub/deep"}, Stems={"q-1"}, Contents={"q1", "bad", "other"}, MaxFiles=2, Policies={"raise", "warn", "ignore"}, Prefixes={"", "p", "p/"}, Rows={"q1", "q2", "same", "blank"}, MaxRows=3 if ck.quick else 4, Sim=False)
    LINV = ("OneEach", "Positions")
    jobs.append(("C20L", dict(label="loading", constants=l, invariants=LINV)))
    for n in range(1 if ck.quick else 4):
        jobs.append(("C20L", dict(label=f"loading larger {n}", constants=dict(l, Dirs={"", "sub", "sub/deep", "other.d", "10"}, Stems={"q-1", "q-2", "q-10", "1a", "x.y"}, Contents={"q1", "q2", "q3", "bad", "other"}, MaxFiles=7, MaxRows=8, Rows={"q1", "q2", "q3", "same", "blank"}, Sim=True), invariants=LINV, sim=500 if ck.quick else 3000, depth=30, seed=ck.seed * 31 + n)))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r)
        ck.replay(r.cases, load(ck) if r.module == "C20L" else replay(ck), sig=lambda c, clause: clause, kind=r.label)
