import json, math
import postbound as pb
from postbound import Cardinality
from vk import tlc
from vk.core import expect, require
import operator as o

BIN = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "floordiv": o.floordiv, "mod": o.mod, "pow": o.pow}
UN = {"round": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "abs": abs,
      "of": Cardinality.of, "rewrap": lambda c: Cardinality(c.get())}


def operand(x):
    k = x["k"]
    if k == "K": return [Cardinality(x["n"]), Cardinality.of(float(x["n"]))]
    if k == "U": return [Cardinality.unknown(), Cardinality(float("nan"))]
    if k == "I": return [Cardinality.infinite(), Cardinality(math.inf)]
    if k == "NaN": return [math.nan]
    if k == "Inf": return [math.inf]
    v = x["n"] / x["d"]
    return [int(v), v] if v == int(v) else [v]


def state(c):
    require("result is a Cardinality", isinstance(c, Cardinality), type(c).__name__)
    return {"valid": c.is_valid(), "nan": c.isnan(), "inf": c.isinf(),
            "value": c.value if c.is_valid() else 0}


def check_state(c, st):
    expect("kind and value", st, state(c))
    expect("is_unknown", st["nan"], c.is_unknown())
    expect("truth value", st["valid"], bool(c))
    expect("float()", st["value"] if st["valid"] else (math.inf if st["inf"] else "nan"),
           "nan" if math.isnan(float(c)) else float(c))
    expect("get()", str(float(c)), str(c.get()))
    if st["valid"]:
        expect("stored value is a whole number", int, type(c.value))
        expect("int()", st["value"], int(c))
        expect("value agrees with the plain number", True, c == st["value"] and st["value"] == c and c == float(st["value"]))
        expect("hash agrees with equal numbers", (hash(st["value"]),) * 2, (hash(c), hash(Cardinality(float(st["value"])))))
        expect("str", str(st["value"]), str(c))
    else:
        for f in (int, lambda x: x.value):
            try:
                f(c)
            except Exception:
                continue
            require("invalid cardinalities have no value", False)
    match c:
        case Cardinality(valid, value):
            expect("match pattern", (st["valid"], st["value"] if st["valid"] else -1), (valid, value))
    j = json.loads(pb.util.to_json(c))
    expect("JSON export", str(float(c)), str(float(j)))


def check_cmp(a, b, cmp):
    got = {"eq": a == b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}
    for k in got:
        expect(f"comparison {k}", cmp[k], got[k])
    expect("inequality", not cmp["eq"], a != b)
    rev = {"eq": b == a, "lt": b > a, "le": b >= a, "gt": b < a, "ge": b <= a}
    for k in rev:
        expect(f"mirrored comparison {k}", cmp[k], rev[k])
    if cmp["eq"] and not (isinstance(b, float) and math.isnan(b)):
        expect("equal values have equal hashes", hash(a), hash(b))
        expect("equal values are one set member", 1, len({a, b}))


def replay(ck):
    def go(h):
        acc = operand(h[0]["v"])[0]
        check_state(acc, h[0]["st"])
        for s in h[1:]:
            ck.act(s["op"]); ck.steps += 1
            op = s["op"]
            if op in UN:
                before = acc
                acc = UN[op](acc)
                expect("unary operators keep the value", True, acc == before)
            elif op == "build":
                for x in operand(s["x"]):
                    acc = Cardinality(x)
                    expect("of() and constructor agree", True, Cardinality.of(x) == acc)
                    check_state(acc, s["st"])
            else:
                new = None
                for x in operand(s["x"]):
                    left, right = (acc, x) if s["side"] == "left" else (x, acc)
                    if s["side"] == "right" or isinstance(x, Cardinality):
                        pass
                    check_cmp(acc, x, s["cmp"])
                    before = state(acc)
                    new = BIN[op](left, right)
                    expect("operands are immutable", before, state(acc))
                    if op in ("floordiv",) and not isinstance(new, Cardinality):
                        new = Cardinality(new)
                    check_state(new, s["st"])
                    check_cmp(new, x, s["cmpr"])
                    if op in ("mod", "floordiv"):
                        q, r = divmod(left, right)
                        got = r if op == "mod" else q
                        if s["st"]["valid"] and before["valid"]:
                            expect("divmod agrees with // and %", s["st"]["value"], Cardinality(float(got)).value)
                acc = new
            check_state(acc, s["st"])
    return go


def run(ck):
    laws = ["TypeOK", "UnknownAbsorbs", "OrderTotal", "EqEquivalence", "OrderTransitive", "DivMod"]
    q = ck.quick
    K, F = {0, 1, 2, 3, 5, 10, 42}, {1, 2, 3, 6, 10, 14, 27, 171}
    jobs = [
        ("C01", dict(label="laws of the domain", constants=dict(Known=K, Fracs=F, MaxLen=0, Limit=1000, Sim=False), invariants=laws)),
        ("C01", dict(label="all single steps", constants=dict(Known=K, Fracs=F, MaxLen=1, Limit=1000, Sim=False))),
        ("C01", dict(label="all two-step chains", constants=dict(Known={0, 2, 3} if q else {0, 1, 2, 3, 7}, Fracs={2} if q else {2, 7}, MaxLen=2, Limit=1000, Sim=False))),
        ("C01", dict(label="random chains", constants=dict(Known={0, 1, 2, 3, 7, 10, 25}, Fracs={1, 2, 3, 5, 6, 9, 10, 22}, MaxLen=7, Limit=5000, Sim=True), sim=3000 if q else 60000, depth=9, seed=ck.seed)),
    ]
    for r in tlc.run_many(jobs, 4):
        ck.replay(ck.add_run(r), replay(ck), sig=lambda c, cl: cl + " | " + "; ".join(
            s["op"] + (":" + s.get("side", "") + ":" + s["x"]["k"] if "x" in s else "") for s in c), kind=r.label)
