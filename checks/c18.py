import atexit, bisect, contextlib, datetime as dt, os, tempfile, warnings
from fractions import Fraction
import quacklab
from postbound import ColumnReference, TableReference
from postbound.db import Histogram, MostCommonValues, UnsupportedDatabaseFeatureError
from postbound.duckdb import DuckDBInterface
from vk import fakepg, tlc
from vk.core import expect, require

warnings.simplefilter("ignore")
D, TS = dt.date, dt.datetime
DOMAINS = {"INTEGER": [-2, 0, 3, 4, 7, 9], "VARCHAR": ["", "a b", "aa", "c", "it's", "z"], "DATE": [D(2019, 12, 31), D(2020, 1, 1), D(2020, 2, 29), D(2021, 1, 1), D(2022, 1, 1), D(2023, 1, 1)],
           "DOUBLE": [-0.5, 0.0, 0.25, 1.5, 2.0, 1e6], "TIMESTAMP": [TS(2020, 1, d, 3, 4, 5, 6 * d) for d in range(1, 7)]}
# (schema, table, columns) of the two tables
NAMES = [[("", "t", ("a", "b")), ("", "u", ("a", "b"))], [("", "t", ("n", "m")), ("s", "t", ("n", "m"))], [("", "order", ("some col", "group")), ("other s", "order", ("some col", "group"))], [("s", "t1", ("v", "n")), ("s", "t2", ("n", "v"))]]
q = lambda s: '"' + s.replace('"', '""') + '"'


class World:
    def __init__(self, case, backend):
        steps = case["steps"]
        self.k = k = sum(len(r) for r in case["rows"]) + sum(s["tab"] + 2 * s["k"] + len(s["stat"]) for s in steps) + sum(sum(r) for t in case["rows"] for r in t) * 3
        self.types = [list(DOMAINS)[k % 5], list(DOMAINS)[(k // 5) % 5]]
        self.names = NAMES[(k // 7) % len(NAMES)]
        if backend == "duck":
            self.db = DuckDBInterface(":memory:", cache_enabled=k % 2 == 0)
            cur = self.db.cursor()
        else:
            cnx = quacklab.connect(":memory:")
            cur = cnx.cursor()
            def answer(sql, params, _): cur.execute(sql); return cur.fetchall()
            self.db = fakepg.interface(fakepg.Server(answer=answer), "pg", cache_enabled=k % 2 == 0)
        for (schema, tab, cols), content in zip(self.names, case["rows"]):
            if schema: cur.execute(f"CREATE SCHEMA IF NOT EXISTS {q(schema)}")
            full = (q(schema) + "." if schema else "") + q(tab)
            cur.execute(f"CREATE TABLE {full} (" + ", ".join(f"{q(c)} {t}" for c, t in zip(cols, self.types)) + ")")
            for row in content: cur.execute(f"INSERT INTO {full} VALUES (?, ?)", [self.value(c, v) for c, v in zip((1, 2), row)])
        self.stats = self.db.statistics()
        self.stats.emulated = True; self.stats.enable_emulation_fallback = True; self.stats.cache_enabled = True

    def value(self, c, v): return None if v == 0 else DOMAINS[self.types[c - 1]][v - 1]
    def column(self, t, c, n):
        schema, tab, cols = self.names[t - 1]
        return ColumnReference(cols[c - 1], TableReference(tab, "" if n % 3 else "x", schema=schema))


def replay(ck, backend):
    def go(case):
        here = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="vk-c18-") as folder:
            os.chdir(folder); atexit._clear()
            try:
                w = World(case, backend)
                try: session(ck, w, case, backend)
                finally:
                    with contextlib.suppress(Exception): w.db.close()
            finally:
                atexit._clear(); os.chdir(here)
    return go


def session(ck, w, case, backend):
    for n, s in enumerate(case["steps"]):
        ck.steps += 1; ck.act(f"{backend} {s['op']} {s['stat'] or s['field']}")
        if s["op"] == "set":
            if s["field"] == "db": w.db.cache_enabled = s["val"]
            else: setattr(w.stats, {"emulated": "emulated", "fallback": "enable_emulation_fallback", "cache": "cache_enabled"}[s["field"]], s["val"] if s["field"] != "cache" or s["val"] else (None if n % 2 else False))
            continue
        if s["op"] == "reset":
            w.db.reset_cache(); continue
        flag = {"default": None, "on": True, "off": False}
        kw = {a: flag[s[b]] for a, b in (("emulated", "emulated"), ("cache_enabled", "cache")) if s[b] != "default" or n % 2}
        col, ans = w.column(s["tab"], s["col"], n), s["ans"]
        try: got = ask(w, s, col, kw, n)
        except (UnsupportedDatabaseFeatureError, ValueError) as e:
            if ans["kind"] == "answer": raise
            ck.act("refused"); continue
        require(f"{s['stat']} that is not available is refused", ans["kind"] == "answer", got)
        compare(w, s, ans, got)


def ask(w, s, col, kw, n):
    st, k = w.stats, s["k"]
    if s["stat"] == "rows": return st.total_rows(col.table, **kw)
    if s["stat"] == "distinct": return (st.num_distinct if n % 2 else st.distinct_values)(col, **kw)
    if s["stat"] == "minmax": return st.min_max(col, **kw)
    if s["stat"] == "mcv": return st.most_common_values(col, k=k if k != 0 else None, **kw)
    return st.histogram(col, n_bins=k or None, interpolation="bound" if n % 2 else "approx-uni", **kw)


def compare(w, s, ans, got):
    c, stat = s["col"], s["stat"]
    if stat in ("rows", "distinct"): expect(f"{stat}", ans["num"], got)
    elif stat == "minmax": expect("minimum and maximum", repr((w.value(c, ans["lo"]), w.value(c, ans["hi"]))), repr(tuple(got)))
    elif stat == "mcv":
        expect("most common values", [(w.value(c, e["value"]), e["n"]) for e in ans["list"]], [tuple(e) for e in got])
        listed(got, [(w.value(c, e["value"]), e["n"]) for e in ans["list"]], [x for x in DOMAINS[w.types[c - 1]]])
    else: histogram(w, s, ans, got)


def listed(m, pairs, domain):
    """the accessors of a most common value list"""
    expect("number of common values", (len(pairs), len(pairs), bool(pairs)), (len(m), m.k, bool(m)))
    expect("values", [v for v, _ in pairs], list(m.values))
    expect("frequencies", [f for _, f in pairs], list(m.frequencies))
    expect("highest and lowest frequency", (pairs[0][1], pairs[-1][1]) if pairs else (0, 0), (m.max_freq, m.min_freq))
    known = dict(pairs)
    for v in domain:
        expect("frequency of a value", known.get(v), m.frequency_of(v))
        expect("frequency of a value, bounded", known.get(v, pairs[-1][1] if pairs else 0), m.frequency_of(v, bound_missing=True))
        expect("frequency of a value, default", known.get(v, 42), m.frequency_of(v, default=42))
        expect("frequency of a value, default 0", known.get(v, 0), m.frequency_of(v, default=0, bound_missing=True))
        expect("common value", v in known, v in m)
    for i in range(len(pairs) + 2):
        expect("most frequent ones", pairs[:i], list(m.top(i)))
        expect("others", pairs[i:], list(m.below(i)))
        if i < len(pairs): expect("i-th common value", pairs[i], m[i])


def histogram(w, s, ans, h):
    c, dom = s["col"], DOMAINS[w.types[s["col"] - 1]]
    if ans["lo"] == 0: return expect("histogram of no values", None, h)
    require("histogram", isinstance(h, Histogram), h)
    cum = dict(enumerate(ans["cum"], 1))
    low, high = w.value(c, ans["lo"]), w.value(c, ans["hi"])
    expect("bounds of the histogram", (low, high), (h.lower, h.upper))
    index = []
    for b in h.bounds:
        require("bounds are values", b in dom, h); index.append(dom.index(b) + 1)
    require("bounds are ascending", index == sorted(set(index)), h)
    expect("rows of the histogram", ans["cum"][-1], h.n_rows)
    expect("rows per bucket", [cum[b] - (cum[a] if a else 0) for a, b in zip([0] + index, index)], [f for _, f in h])
    require("number of buckets", h.n_buckets == len(h) == len(index) <= ans["num"], (s["k"], str(h)))
    for strategy in ("bound", "approx-uni"):
        h.bucket_interpolation = strategy
        expect("interpolation", strategy, h.bucket_interpolation)
        total = ans["cum"][-1]
        for v, x in enumerate(dom[:len(cum)], 1):
            i = bisect.bisect_left(index, v)
            if strategy == "approx-uni" and isinstance(x, str) and v not in index and ans["lo"] <= v <= ans["hi"]: continue
            below, above = h.frequency_below(x), h.frequency_above(x)
            if v in index or v < ans["lo"] or v > ans["hi"]:
                expect(f"rows up to a bound ({strategy})", cum[v], below)
                expect(f"rows above a bound ({strategy})", total - cum[v], above)
            else:
                before, after = cum[index[i - 1]] if i else 0, cum[index[i]]
                if strategy == "bound":
                    expect("bound for the rows up to a value", after, below); expect("bound for the rows above a value", total - before, above)
                else:
                    require("estimated rows up to a value", before <= below <= after, (below, before, after))
                    require("estimates add up", abs(below + above - total) < 1e-9 * max(1, total), (below, above, total))


def containers(ck):
    def go(case):
        k = sum(case["freqs"]) + len(case["looks"]) + 3 * case["lo"] + sum(case["bounds"]) + sum(e["value"] * e["n"] for e in case["mcv"])
        ck.steps += 1; ck.act(case["kind"])
        if case["kind"] == "mcv":
            dom = DOMAINS[list(DOMAINS)[k % 5]]
            pairs = [(dom[e["value"] - 1], e["n"]) for e in case["mcv"]]
            m = MostCommonValues(iter(pairs) if k % 2 else pairs)
            want = [(dom[e["value"] - 1], e["n"]) for e in case["sorted"]]
            expect("ordered common values", want, list(m))
            for v, n in enumerate(case["of"], 1): expect("frequency of a value", n or None, m.frequency_of(dom[v - 1]))
            listed(m, want, dom[:len(case["of"])] + [dom[-1]])
            return
        at = [lambda p: p - 3, lambda p: p / 4, lambda p: D(2020, 1, 1) + dt.timedelta(days=p), lambda p: TS(2020, 1, 1) + dt.timedelta(hours=7 * p)][k % 4]
        how = ("approx-uni", "bound")
        h = Histogram([at(2 * b) for b in case["bounds"]], case["freqs"], lower=at(2 * case["lo"]), bucket_interpolation=how[k % 2])
        expect("shape", ([at(2 * b) for b in case["bounds"]], len(case["bounds"]), sum(case["freqs"]), at(2 * case["lo"]), at(2 * case["bounds"][-1])), (list(h.bounds), h.n_buckets, h.n_rows, h.lower, h.upper))
        expect("buckets", list(zip([at(2 * b) for b in case["bounds"]], case["freqs"])), [h[i] for i in range(len(h))])
        for strategy in (how[k % 2], how[1 - k % 2]):
            h.bucket_interpolation = strategy
            for p, want in enumerate(case["looks"], 1):
                for side, f in (("below", h.frequency_below), ("above", h.frequency_above)):
                    r = Fraction(want[side]["num"], want[side]["den"]) if strategy == "approx-uni" else Fraction(want["max" + side])
                    got = f(at(p))
                    require(f"rows {side} ({strategy})", abs(got - float(r)) < 1e-9 * max(1, float(r)), (str(h), at(p), float(r), got))
    return go


def run(ck):
    jobs = []
    k = dict(V=3, MaxRows=4 if ck.quick else 6, MaxOps=0, Native=False, Sim=False)
    INV = ("Stable", "Consistent")
    jobs.append(("C18", dict(label="every content", constants=k, invariants=INV)))
    for n in range(2 if ck.quick else 6):
        jobs.append(("C18", dict(label=f"DuckDB sessions {n}", constants=dict(k, V=4 + n % 2, MaxRows=8, MaxOps=25, Native=True, Sim=True), invariants=INV, sim=150 if ck.quick else 1200, depth=40, seed=ck.seed * 47 + n)))
        jobs.append(("C18", dict(label=f"Postgres sessions {n}", constants=dict(k, V=4, MaxRows=8, MaxOps=20, Native=False, Sim=True), invariants=INV, sim=80 if ck.quick else 600, depth=40, seed=ck.seed * 53 + n)))
    jobs.append(("C18H", dict(label="histograms", constants=dict(N=4 if ck.quick else 5, MaxFreq=3, Kind="histogram"), invariants=("Sound", "Sorted"))))
    jobs.append(("C18H", dict(label="common value lists", constants=dict(N=3 if ck.quick else 4, MaxFreq=3, Kind="mcv"), invariants=("Sound", "Sorted"))))
    for r in tlc.run_many(jobs, parallel=8):
        ck.add_run(r)
        s = lambda c, clause: clause
        if r.module == "C18H": ck.replay(r.cases, containers(ck), sig=s, kind=r.label)
        elif r.label == "every content":
            for b in ("duck", "pg"): ck.replay(r.cases, replay(ck, b), sig=s, kind=f"{r.label} {b}")
        else: ck.replay(r.cases, replay(ck, "duck" if r.label.startswith("Duck") else "pg"), sig=s, kind=r.label)
