"""Running TLC on the specifications in /verif/spec and collecting what they print.

Specifications emit one behaviour (or one case) per line with
    PrintT("@@" \\o ToJson(value))
TLC prints the TLA+ string with its quotes and escapes, which is itself a JSON string.
"""
import concurrent.futures as cf
import json, os, re, subprocess, tempfile, time
from dataclasses import dataclass, field

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    """The verification machinery itself failed (never a verdict about the code under test)."""


@dataclass
class Run:
    module: str
    label: str
    cases: list = field(default_factory=list)
    states: int = 0
    transitions: int = 0
    wall: float = 0.0
    mode: str = "bfs"
    output: str = ""
    violated: str | None = None


def _value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("\\") or v.startswith("{") or v.startswith("<<") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(_value(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(_value(x) for x in v) + ">>"
    raise MachineryError(f"cannot write {v!r} in a TLC configuration")


def run(module, *, label=None, constants=None, invariants=("Emit",), properties=(), sim=None, depth=None, seed=1,
        workers=4, spec="Spec", timeout=600, constraint=None, postcondition=None, view=None, deadlock=False,
        env=None, files=None, expect_violation=False, jvm=(), symmetry=None):
    """Runs TLC. `sim` = number of behaviours in simulation mode (None: exhaustive breadth-first search)."""
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="vk-tlc-") as d:
        cfg = [f"SPECIFICATION {spec}"]
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {_value(v)}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if view:
            cfg.append(f"VIEW {view}")
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(d, "MC.cfg"), "w").write("\n".join(cfg) + "\n")
        for name, text in (files or {}).items():
            open(os.path.join(d, name), "w").write(text)
        cp = JAR + ":" + "/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["tlc"]
        cmd += ["-config", os.path.join(d, "MC.cfg"), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
        if sim is not None:
            cmd += ["-simulate", f"num={sim}", "-seed", str(seed), "-depth", str(depth or 100)]
            workers = 1
        cmd += ["-workers", str(workers), os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        if jvm:
            e["JAVA_TOOL_OPTIONS"] = " ".join(jvm)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} [{label}] after {timeout}s")
        out = p.stdout.decode("utf-8", "replace")
    res = Run(module, label or module, mode="sim" if sim is not None else "bfs")
    rest = []
    seen = set()
    for line in out.splitlines():
        if line.startswith('"@@'):
            if line in seen:
                continue
            seen.add(line)
            res.cases.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    res.output = "\n".join(rest)
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", res.output)
    if m:
        res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"The number of states generated: (\d+)", res.output)
        if m:
            res.transitions = res.states = int(m[-1])
    res.wall = time.time() - t0
    v = re.search(r"(Invariant|Action property|Temporal properties?) ?(\S*) (is|was|were) violated", res.output)
    pv = "POSTCONDITION" in res.output and "violated" in res.output or "Postcondition" in res.output
    if v or pv:
        res.violated = v.group(2) if v else "POSTCONDITION"
    if not expect_violation:
        ok = p.returncode == 0 and ("No error has been found" in res.output or sim is not None) and "Error:" not in res.output
        if not ok:
            text = "\n".join(l for l in res.output.splitlines() if not re.match(r"Parsing file|Semantic processing|Linting of|Computed|Finished computing", l))
            raise MachineryError(f"TLC failed on {module} [{label}] (exit {p.returncode}):\n" + text[:4000])
    return res


def run_many(jobs, parallel=4):
    """jobs: list of (module, kwargs)."""
    with cf.ThreadPoolExecutor(parallel) as ex:
        return [f.result() for f in [ex.submit(run, m, **k) for m, k in jobs]]
