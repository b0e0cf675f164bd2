"""What a rule reports, and how its paths are judged."""
import os
import time

from . import poly
from .interp import AnalysisError, PathResult  # noqa: F401
from .scenario import State, Anchor, NOW, EXECS  # noqa: F401
from .values import *  # noqa: F401,F403
from .values import C, S, app, NONE, TRUE, FALSE, KINDS

STARTS = {
    "os.fork", "os.forkpty", "pty.fork", "os.posix_spawn", "os.posix_spawnp",
    "os.spawnv", "os.spawnve", "os.spawnvp", "os.spawnvpe", "os.spawnl",
    "subprocess.Popen", "subprocess.run", "subprocess.call",
    "subprocess.check_call", "subprocess.check_output", "os.system", "os.popen",
    "multiprocessing.Process",
}


class Enough(Exception):
    """A scenario's violations are enough to be reported."""


class Rule:
    def __init__(self, pid, world):
        self.pid, self.w = pid, world
        self.violations = []  # (key, loc, message, trace)
        self.undecided = []
        self.obligations = self.discharged = 0
        self.paths = 0
        self.scenarios = []
        self.samples = []
        self.funcs, self.sites = set(), set()
        self.items = {}  # other counted constructs
        self.t0 = time.time()
        self.doc = None
        self.tier = "quick"

    # -- abstract interpretation -----------------------------------------

    def scenario(self, name, build, check, min_paths=1, limit=6000, **conf):
        """The scenario, and if the code has bounds on numbers of things which
        it does not reach, also with such bounds lowered to 1: what holds for
        any number does not depend on where a bound is."""
        v0 = len(self.violations)
        n, bounds = self.scenario_(name, build, check, min_paths, limit, False, dict(conf))
        if bounds and len(self.violations) == v0:
            self.scenario_("{}, with bounds lowered ({})".format(name, ", ".join(sorted(bounds)[:3])), build, check, 0, limit, True, conf)
        return n

    def scenario_(self, name, build, check, min_paths, limit, lowered, conf):
        """build(st) drives the abstract run; check(q) judges each path."""
        self.w.repo.absent = frozenset(conf.pop("absent", ()))
        ip = self.w.interp(**conf)
        rule = self
        n0 = [0]
        ip.lowered = lowered

        def entry(ip):
            st = State(rule.w, ip)
            return build(st)

        def on_path(p):
            n0[0] += 1
            rule.paths += 1
            q = Path(rule, name, p)
            for e in p.events:
                rule.sites.add((e.loc, e.name))
            if len(rule.samples) < 6 and n0[0] <= 2:
                rule.samples.append(
                    "{}: {} -> {}".format(name, q.decisions(), q.summary())
                )
            check(q)
            if len(self.violations) - v0 >= 12:
                raise Enough
            if time.time() - t0 > budget or time.time() - self.t0 > 10 * budget:
                raise AnalysisError("time limit")

        v0, t0 = len(self.violations), time.time()
        budget = 60 if self.tier == "quick" else 80
        ip.deadline = t0 + budget + 5
        try:
            ip.explore(entry, limit=limit, on_path=on_path)
        except Enough:
            pass
        except Exception as e:  # the analysis does not understand the source
            if os.environ.get("DSA_DEBUG"):
                raise
            self.require(None, "?", "scenario not analysed: {}: {} [{}]".format(type(e).__name__, e, name))
        finally:
            self.w.repo.absent = frozenset()
        self.funcs |= ip.visited
        self.scenarios.append((name, n0[0]))
        if n0[0] < min_paths:
            self.require(None, "?", "scenario has {} paths, expected at least {} [{}]".format(n0[0], min_paths, name))
        return n0[0], ip.unreached

    # -- judgements outside a path ---------------------------------------

    def require(self, ok, loc, msg, key=None, trace=()):
        self.obligations += 1
        if ok is True:
            self.discharged += 1
        elif ok is None:
            self.undecided.append((loc, msg))
        else:
            self.violations.append((key or msg, loc, msg, list(trace)))

    def count(self, what, n=1):
        self.items[what] = self.items.get(what, 0) + n


class Path:
    def __init__(self, rule, scenario, p):
        self.rule, self.scenario, self.p = rule, scenario, p
        self.ip = p.ip
        self.st = p.data.get("st")
        self.outcome, self.val = p.outcome, p.val
        self.events = p.events

    def decisions(self):
        return "; ".join(
            "{}{} ({})".format("" if b else "not ", key_str(k), l)
            for k, b, l in self.p.decisions[-12:]
        )

    def summary(self):
        return "{} after {}".format(
            self.outcome if not isinstance(self.val, str) else self.val,
            ", ".join("{}@{}".format(e.name, e.loc) for e in self.events[-8:]),
        )

    def trace(self):
        out = ["scenario: " + self.scenario, "outcome: {} {}".format(self.outcome, self.val if isinstance(self.val, str) else "")]
        if self.outcome == "exc":
            out.append("exception: " + exc_name(self.ip, self.val))
        out += ["assumed {}: {}{}".format(l, "" if b else "not ", key_str(k)) for k, b, l in self.p.decisions]
        out += ["event {}".format(e) for e in self.events]
        return out

    # judgement

    def require(self, ok, loc, msg):
        """ok: True holds, False violated, None not decided.  A path on which
        the analysis lost precision violates nothing."""
        if ok is False and self.p.taint:
            ok = None
            msg = "{} (analysis imprecise: {})".format(msg, self.p.taint[0])
        self.rule.require(ok, loc, "{} [{}]".format(msg, self.scenario), None, self.trace() if ok is False else ())

    # events

    def evs(self, *names):
        return [e for e in self.events if e.name in names]

    def starts(self):
        return [e for e in self.events if e.name in STARTS]

    def last_loc(self):
        for e in reversed(self.events):
            if e.loc != "?":
                return e.loc
        return "?"

    # heap

    def attr(self, v, name):
        o = self.ip.deref(v)
        if o is None or o.kind != "inst":
            return None
        return o.attrs.get(name)

    def members(self, v):
        """('one' values, whether there may be others); None if unknown"""
        o = self.ip.deref(v) if v is not None else None
        if o is None or o.kind != "list":
            if v is not None and v[0] == "tuple":
                return list(v[1]), False
            return None, True
        return [s[1] for s in o.segs if s[0] == "one"], any(s[0] != "one" for s in o.segs)

    def field(self, name):
        return self.attr(self.st.s, name)

    def in_list(self, v, x):
        """is x an element of list v: True / False / None"""
        ms, more = self.members(v)
        if ms is None:
            return None
        if x in ms:
            return True
        if any(m[0] in ("top", "res", "app") for m in ms):
            return None
        return False

    def cmp(self, op, a, b):
        """a op b: True on the whole path, False: not always, None: unknown"""
        if self.ip.cmp_known(op, a, b) is True:
            return True
        return poly.holds(self.ip, op, a, b)


def exc_name(ip, v):
    o = ip.deref(v)
    if o is not None and o.kind == "inst":
        c = o.cls
        n = c[1] if isinstance(c, tuple) else getattr(c, "qual", str(c))
        a = o.attrs.get("args")
        return "{}({})".format(n, show(a) if a else "")
    return show(v)


def key_str(k):
    if isinstance(k, tuple):
        if k and isinstance(k[0], str):
            if k[0] in KINDS:
                return show(k)
            return "{} {}".format(k[0], " ".join(key_str(x) for x in k[1:]))
        return " ".join(key_str(x) for x in k)
    return str(k)
