"""Verdicts, evidence and known findings."""
import contextlib, json, multiprocessing as mp, os, re, signal, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Hang(BaseException):
    pass


class Mismatch(Exception):
    """The implementation disagrees with the specification. args: (clause, expected, actual)"""

    def __init__(self, clause, expected=None, actual=None):
        super().__init__(clause)
        self.clause, self.expected, self.actual = clause, expected, actual

    def __str__(self):
        return f"{self.clause}: specification says {_short(self.expected)}, implementation says {_short(self.actual)}"


def _short(x, n=1500):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + "..."


def expect(clause, expected, actual):
    if expected != actual:
        raise Mismatch(clause, expected, actual)


def require(clause, cond, actual=None):
    if not cond:
        raise Mismatch(clause, True, actual if actual is not None else False)


class Check:
    MAXFAIL = 40

    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.steps = 0
        self.actions = {}
        self.samples = []
        self.specs = []
        self.assumptions = []
        self.extra = {}
        self.fails = {}
        self.nfails = 0
        self.skipped = 0
        self.hangs = 0
        self.known = {}
        if os.path.exists(KNOWN):
            for e in json.load(open(KNOWN)).get("findings", []):
                if e["property"] == pid:
                    self.known[e["signature"]] = e["what"]
        self.deadline = self.t0 + (600 if tier == "quick" else 3000)

    @property
    def quick(self):
        return self.tier == "quick"

    # -- bookkeeping -------------------------------------------------------------------------
    def add_run(self, r):
        self.states += r.states
        self.transitions += r.transitions
        self.specs.append({"module": r.module, "config": r.label, "mode": r.mode, "states": r.states,
                           "transitions": r.transitions, "behaviours": len(r.cases), "wall_s": round(r.wall, 1)})
        return r.cases

    def act(self, name, n=1):
        self.actions[name] = self.actions.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    # -- replay ------------------------------------------------------------------------------
    def replay(self, cases, fn, sig=None, limit=30, kind="case", jobs=8):
        """Replays every behaviour of the specification into the implementation: fn(case) raises on disagreement."""
        n = len(cases)
        if self.hangs >= 2:         # already a violation, and every further one takes the whole time limit
            return
        for i in (0, n // 3, 2 * n // 3):
            if i < n:
                self.sample({"kind": kind, "behaviour": cases[i]})
        if n < 64 or jobs <= 1:
            for c in cases:
                self.one(c, fn, sig, limit, kind)
                if self.nfails >= self.MAXFAIL or self.hangs >= 2:
                    break
            return
        global _WORK
        _WORK = (self, cases, fn, sig, limit, kind, jobs)
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs) as pool:
            for traces, steps, actions, fails, skipped, hangs in pool.imap_unordered(_work, range(jobs)):
                self.traces += traces
                self.steps += steps
                self.skipped += skipped
                self.hangs += hangs
                for k, v in actions.items():
                    self.act(k, v)
                for f in fails:
                    if f["signature"] not in self.fails:
                        self.fails[f["signature"]] = f
                        if f["signature"] not in self.known:
                            self.nfails += 1

    def one(self, case, fn, sig=None, limit=30, kind="case"):
        self.traces += 1
        try:
            with time_limit(limit):
                fn(case)
        except Hang:
            self.hangs += 1
            self.fail(self._sig(sig, case, "hang"), f"did not terminate within {limit}s", case, kind)
        except (KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:  # noqa: BLE001 - whatever the code under test raises is a disagreement
            from vk.tlc import MachineryError
            if isinstance(e, MachineryError):
                raise
            clause = e.clause if isinstance(e, Mismatch) else type(e).__name__
            detail = str(e) if isinstance(e, Mismatch) else "".join(traceback.format_exception(e)[-6:])
            self.fail(self._sig(sig, case, clause), detail, case, kind)

    def _sig(self, sig, case, clause):
        if sig is None:
            return f"{clause} {json.dumps(case, sort_keys=True, default=str)}"[:400]
        return sig(case, clause)

    def fail(self, signature, detail, case=None, kind="case"):
        if signature not in self.fails:
            self.fails[signature] = {"signature": signature, "detail": _short(detail, 3000), "kind": kind, "case": case}
            if signature not in self.known:
                self.nfails += 1

    # -- end ---------------------------------------------------------------------------------
    def finish(self):
        new = [f for s, f in self.fails.items() if s not in self.known]
        seen_known = [s for s in self.known if s in self.fails]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "samples": self.samples[:5] or ["none"],
                "implementation_steps": self.steps, "actions": dict(sorted(self.actions.items())),
                "specifications": self.specs, **self.extra,
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for s in seen_known:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[s]}")
        if not new:
            print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
                  f"behaviours={self.traces} steps={self.steps} wall={ev['wall_s']}s")
            return 0
        path = os.path.join(ROOT, "evidence", self.pid + ".replay.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "failures": new}, f, indent=1, default=str)
        for i, f in enumerate(new[:10]):
            print(f"--- {f['signature']}\n{f['detail']}")
        print(f"VIOLATION property={self.pid} replay={path}")
        return 1


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_WORK = None


def _work(k):
    ck, cases, fn, sig, limit, kind, jobs = _WORK
    ck.traces = ck.steps = ck.nfails = ck.skipped = ck.hangs = 0
    ck.actions, ck.fails = {}, {}
    for c in cases[k::jobs]:
        ck.one(c, fn, sig, limit, kind)
        if ck.nfails >= ck.MAXFAIL or ck.hangs >= 2:
            break
    return ck.traces, ck.steps, ck.actions, list(ck.fails.values()), ck.skipped, ck.hangs
