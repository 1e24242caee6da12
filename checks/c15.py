import warnings
from postbound import TableReference
from postbound._hints import HintType
from postbound.validation import (PreCheckResult, CompoundCheck, EmptyPreCheck, CustomCheck, SupportedHintCheck, ImplicitQueryPreCheck, CrossProductPreCheck, VirtualTablesPreCheck,
                                  EquiJoinPreCheck, InnerJoinPreCheck, SubqueryPreCheck, DependentSubqueryPreCheck, SetOperationsPreCheck, merge_checks,
                                  UnsupportedQueryError, UnsupportedSystemError)
from postbound.qal import (Select, BaseProjection, From, ImplicitFromClause, ExplicitFromClause, DirectTableSource, SubqueryTableSource, JoinTableSource, JoinType, Where, InPredicate, ColumnExpression,
                           CommonTableExpression, WithQuery, SetQuery, SetOperator, BinaryPredicate, LogicalOperator, build_query)
from postbound import ColumnReference
from checks.c05 import build, env_for, KINDS, JOINS
from vk import tlc
from vk.core import expect, require
from vk.fakes import FakeDatabase

ZZ = TableReference("zz")
S = TableReference.create_virtual("nested")


def zcol(t, c="x"):
    return ColumnExpression(ColumnReference(c, t))


def wrap(w, q):
    star, src = Select.star(), lambda t: ImplicitFromClause([DirectTableSource(t)])
    other = build_query([Select([BaseProjection(zcol(ZZ))]), src(ZZ)])
    if w == "plain": return q
    if w == "derived": return build_query([star, From([SubqueryTableSource(q, "nested")])])
    if w == "cte": return build_query([CommonTableExpression([WithQuery(q, "nested")]), star, src(S)])
    if w == "where": return build_query([star, src(ZZ), Where(InPredicate.subquery(zcol(ZZ), q))])
    if w == "left": return SetQuery(q, other, set_operation=SetOperator.Union)
    if w == "right": return SetQuery(other, q, set_operation=SetOperator.Except)
    if w == "outer": return build_query([star, ExplicitFromClause([JoinTableSource(DirectTableSource(ZZ), SubqueryTableSource(q, "nested"), join_condition=BinaryPredicate(LogicalOperator.Equal, zcol(ZZ), zcol(S)), join_type=JoinType.LeftJoin)])])
    if w == "cte where": return wrap("where", wrap("cte", q))
    if w == "derived left": return wrap("left", wrap("derived", q))
    raise AssertionError(w)


CHECKS = {"implicit": ImplicitQueryPreCheck(), "cross": CrossProductPreCheck(), "virtual": VirtualTablesPreCheck(), "equi": EquiJoinPreCheck(),
          "equiconj": EquiJoinPreCheck(allow_conjunctions=True), "equinest": EquiJoinPreCheck(allow_nesting=True),
          "equiany": EquiJoinPreCheck(allow_conjunctions=True, allow_nesting=True), "inner": InnerJoinPreCheck(), "subquery": SubqueryPreCheck(),
          "dependent": DependentSubqueryPreCheck(), "setop": SetOperationsPreCheck()}


def reasons(r):
    return [r.failure_reason] if isinstance(r.failure_reason, str) else list(r.failure_reason)


def queries(ck):
    def go(c):
        ck.steps += 1
        q = build(env_for(c["q"]), c["q"])
        for x in c["v"]:
            ck.act(x["w"])
            Q = wrap(x["w"], q)
            for name, chk in CHECKS.items():
                r = chk.check_supported_query(Q)
                expect(f"{name} check accepts {x['w']} query", x["v"][name], bool(r.passed))
                if r.passed: r.ensure_all_passed(Q)
                else:
                    require("a failed check names its reason", any(reasons(r)), r)
                    try: r.ensure_all_passed(Q)
                    except UnsupportedQueryError as e: require("the error names the query and the reason", e.query is Q and all(s in str(e) for s in reasons(r)), str(e))
                    else: require("failed checks raise an error", False, name)
            bad = {n for n in CHECKS if not x["v"][n]}
            r = merge_checks(CHECKS.values()).check_supported_query(Q)
            expect("all checks at once", not bad, bool(r.passed))
            expect("reasons of all failing checks", {s for n in bad for s in reasons(CHECKS[n].check_supported_query(Q))}, {s for s in reasons(r) if s})
            ok = [CHECKS[n] for n in CHECKS if n not in bad]
            require("the passing checks pass together", CompoundCheck(ok).check_supported_query(Q).passed)
    return go


FEATURES = list(HintType)


class Hinting:
    def supports_hint(self, h):
        return FEATURES.index(h) % 2 == 0


class DB(FakeDatabase):
    def hinting(self):
        return Hinting()


def outcome(a, o, kind):
    f = {"pass": lambda: PreCheckResult.with_all_passed(), "one": lambda: PreCheckResult.with_failure(f"{a}{kind}1"), "many": lambda: PreCheckResult(False, [f"{a}{kind}1", f"{a}{kind}2"]),
         "none": lambda: PreCheckResult(False), "blank": lambda: PreCheckResult.with_failure([])}[o]
    return lambda _: f()


def composition(ck):
    from postbound.parser import parse_query
    q, db = parse_query("SELECT 1"), DB()

    def go(c):
        # all custom checks have the same name: what counts is what they check
        atoms = [CustomCheck("check", query_check=outcome(i, a["q"], "q") if a["q"] != "pass" or i % 2 else None, db_check=outcome(i, a["d"], "d")) for i, a in enumerate(c["atoms"], 1)]
        pool, members = [], []
        for s in c["h"]:
            ck.steps += 1; ck.act(s["op"])
            op, a = s["op"], s["args"]
            P = lambda l: [pool[i - 1] for i in l]
            if op == "atom": x = atoms[a[0] - 1]
            elif op == "empty": x = EmptyPreCheck()
            elif op == "hint":
                fs = [FEATURES[f] for f in a[0]]
                x = SupportedHintCheck(fs if len(fs) > 1 or len(pool) % 2 else fs[0]) if len(pool) % 3 else SupportedHintCheck(f for f in fs)
            elif op == "compound": x = CompoundCheck(P(a[0]) if len(a[0]) % 2 else iter(P(a[0])))
            elif op == "merge": x = merge_checks(P(a[0]) if len(a[0]) % 2 else tuple(P(a[0])))
            elif op == "merge more": x = merge_checks(P(a[0]), *P(a[1]))
            elif op == "merge one": x = merge_checks(pool[a[0] - 1], *P(a[1]))
            pool.append(x); members.append(s)
        for x, s in zip(pool, members):
            r, v = x.check_supported_query(q), s["res"]
            expect("query check is the conjunction of its members", v["q"], bool(r.passed))
            if not v["q"] or isinstance(x, CompoundCheck):
                expect("reasons of all failing members", sorted(f"{a}{k}{n}" for a, k, n in v["qr"]), sorted({t for t in reasons(r) if t}))
            d = x.check_supported_database_system(db)
            expect("database check is the conjunction of its members", v["d"], bool(d.passed))
            got = {t for t in reasons(d) if t}
            for t in (f"{a}{k}{n}" for a, k, n in v["dr"]): require("database reasons of all failing members", t in got, got)
            for f in v["hr"]: require("unsupported hints are named", any(FEATURES[f].name in t for t in got), got)
            for res, ctx, err in ((r, q, UnsupportedQueryError), (d, db, UnsupportedSystemError), (r, None, Exception)):
                try: res.ensure_all_passed(ctx)
                except err as e: require("an error is only raised for failed checks", not res.passed); require("reasons are part of the error", all(t in str(e) for t in reasons(res)), str(e))
                else: require("failed checks raise an error", res.passed)
            for m in s["ms"]:
                if m["t"] == "custom": require("members are contained", atoms[m["a"] - 1] in x, str(x))
                else: require("members are contained", SupportedHintCheck([FEATURES[f] for f in m["f"]]) in x, str(x))
            for i, at in enumerate(atoms, 1):
                if not any(m["t"] == "custom" and m["a"] == i for m in s["ms"]): require("only members are contained", at not in x, str(x))
            m = PreCheckResult.merge([r, d, PreCheckResult()])
            expect("merged results", bool(r.passed and d.passed), bool(m.passed))
            if not m.passed: expect("merged reasons", {t for y in (r, d) for t in reasons(y) if t}, {t for t in reasons(m) if t})
            require("checks describe themselves", isinstance(x.describe(), dict) and str(x) and repr(x))
    return go


def run(ck):
    q = ck.quick
    base = dict(Names={"x"}, Inner={"u", "v"}, MaxSteps=2, Depth=1, Sim=False)
    inv = ["Monotone", "EmitChecks"]
    J = [
        ("C15", dict(label="every predicate of the pool over two tables", constants={**base, "Kinds": {"base"}, "Joins": {"comma"}, "MinTabs": 2, "MaxTabs": 2}, invariants=inv)),
        ("C15", dict(label="every combination of sources", constants={**base, "Kinds": {"base", "sub", "set", "cte"} if q else KINDS, "Joins": JOINS, "MinTabs": 0, "MaxTabs": 2 if q else 3, "MaxSteps": 1}, invariants=inv)),
        ("C15", dict(label="random queries", constants={**base, "Kinds": KINDS, "Joins": JOINS, "MinTabs": 0, "MaxTabs": 4, "MaxSteps": 3, "Depth": 2, "Sim": True}, invariants=["EmitChecks"], sim=800 if q else 12000, depth=8, seed=ck.seed)),
        ("C15", dict(label="random queries over plain tables", constants={**base, "Kinds": {"base"}, "Joins": {"comma", "inner"}, "MinTabs": 2, "MaxTabs": 4, "MaxSteps": 3, "Depth": 1, "Sim": True}, invariants=["EmitChecks"], sim=800 if q else 12000, depth=8, seed=ck.seed + 1)),
    ]
    O = {"pass", "one", "many", "none", "blank"}
    M = [
        ("C15M", dict(label="all pairs of compositions", constants=dict(NAtoms=1, MaxPool=3, MaxSteps=3, Sim=False, Outcomes={"pass", "one", "blank"}, Features={1}), invariants=["Conjunction", "Emit"])),
        ("C15M", dict(label="random compositions", constants=dict(NAtoms=3, MaxPool=10, MaxSteps=10, Sim=True, Outcomes=O, Features={0, 1, 2, 3}), invariants=["Emit"], sim=1500 if q else 20000, depth=12, seed=ck.seed)),
    ]
    rs = tlc.run_many(J + M, 4)
    for r in rs[:4]:
        ck.replay(ck.add_run(r), queries(ck), sig=lambda c, cl: cl + " | " + str(c["q"])[:300], kind=r.label)
    for r in rs[4:]:
        ck.replay(ck.add_run(r), composition(ck), sig=lambda c, cl: cl + " | " + str(c["atoms"]) + str([(s["op"], s["args"]) for s in c["h"]])[:300], kind=r.label)
