"""Path-partitioned abstract interpreter for the analysed package.

Nothing of the analysed program is executed: its syntax trees are evaluated
over the abstract values of values.py, from an abstract pre-state which a rule
supplies and which stands for every concrete state of that shape.  A condition
the abstract state does not decide partitions the state (both sides are
analysed, each with the fact it assumes).  Repository functions are entered at
their call sites, so it does not matter where a piece of behaviour is written;
library functions are abstract transfer functions (models.py).
"""
import ast
import time
import builtins

from . import clock, poly
from .values import *  # noqa: F401,F403
from .values import C, S, app, KINDS, NONE, TRUE, FALSE


class Signal(Exception):
    pass


class Return(Signal):
    def __init__(self, val):
        self.val = val


class Break(Signal):
    pass


class Continue(Signal):
    pass


class PyExc(Signal):
    """An exception of the analysed program."""

    def __init__(self, val):
        self.val = val


class GenExit(Signal):
    pass


class Stop(Exception):
    """End of this path (outcome)."""

    def __init__(self, why):
        self.why = why


class Prune(Stop):
    """This path is infeasible, covered by another, or out of scope."""


class AnalysisError(Exception):
    pass


def is_dataclass(cls):
    return any(
        ast.unparse(x.func if isinstance(x, ast.Call) else x).split(".")[-1] == "dataclass"
        for x in cls.node.decorator_list
    )


class OInst:
    kind = "inst"

    def __init__(self, cls, attrs=None, open_=False, name=None):
        self.cls, self.attrs, self.open, self.name = cls, attrs or {}, open_, name
        self.lazy = None


class OList:
    kind = "list"

    def __init__(self, segs=(), typ="list", name=None):
        self.segs, self.typ, self.name = list(segs), typ, name
        self.order = None
        self.filtered = ()
        self.view = None  # the dict whose items these are


class ODict:
    kind = "dict"

    def __init__(self, entries=(), rest=None, name=None):
        self.entries = [list(e) for e in entries]
        self.rest, self.name, self.default = rest, name, None
        self.mirror = None  # the instance whose attributes these are


class OFunc:
    kind = "func"

    def __init__(self, node, frame, name):
        self.node, self.frame, self.name = node, frame, name


class Everything(set):
    def __contains__(self, x):
        return True


class Frame:
    def __init__(self, module, cls=None, func=None, parent=None, selfv=None):
        self.module, self.cls, self.func, self.parent = module, cls, func, parent
        self.env = {}
        self.globals_ = set()
        self.nonlocals = set()
        self.hook = None
        self.selfv = selfv
        self.exc = None
        self.counts = set()  # variables which count elements


class Ev:
    """An effect: a library call, or a change of a watched object."""

    __slots__ = ("name", "args", "kw", "recv", "loc", "func", "res", "data", "n", "now")

    def __init__(self, name, args, kw, recv, loc, func, data=None):
        self.name, self.args, self.kw, self.recv = name, args, kw, recv
        self.loc, self.func, self.data, self.res, self.n = loc, func, data, None, 0

    def __repr__(self):
        return "{}({}) at {}".format(
            self.name, ", ".join(show(a) for a in self.args), self.loc
        )


class PathResult:
    def __init__(self, ip, outcome, val):
        self.outcome, self.val = outcome, val
        self.events, self.facts, self.heap = ip.events, ip.facts, ip.heap
        self.taint, self.decisions = ip.taint, ip.decisions
        self.data = ip.data
        self.ip = ip

    def names(self):
        return [e.name for e in self.events]


EXC_PARENT = {
    "yaml.YAMLError": "Exception",
    "yaml.MarkedYAMLError": "yaml.YAMLError",
    "yaml.scanner.ScannerError": "yaml.MarkedYAMLError",
    "yaml.parser.ParserError": "yaml.MarkedYAMLError",
    "json.JSONDecodeError": "ValueError",
    "json.decoder.JSONDecodeError": "ValueError",
    "dateutil.parser.ParserError": "ValueError",
    "subprocess.CalledProcessError": "Exception",
    "subprocess.TimeoutExpired": "Exception",
    "sqlite3.Error": "Exception",
    "sqlite3.OperationalError": "sqlite3.Error",
    "sqlite3.ProgrammingError": "sqlite3.Error",
    "sqlite3.DatabaseError": "sqlite3.Error",
    "zlib.error": "Exception",
    "lzma.LZMAError": "Exception",
    "gzip.BadGzipFile": "OSError",
    "croniter.CroniterBadCronError": "ValueError",
    "MySQLdb.Error": "Exception",
    "psycopg2.Error": "Exception",
}
EXC_ALIAS = {"IOError": "OSError", "EnvironmentError": "OSError", "os.error": "OSError"}

BOUND = 30

CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
    ast.NotIn: "not in",
}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
BINOP = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
    ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
}


class Interp:
    MANY_CAP = 1
    WHILE_CAP = 4
    MAX_DEPTH = 60
    MAX_STEPS = 60000

    def __init__(self, repo):
        from . import models, prelude  # noqa: F401

        self.repo = repo
        self.models = models.MODELS
        self.method_models = models.METHODS
        self.pure = models.PURE
        self.pure_methods = models.PURE_METHODS
        self.overrides = {}  # qualified repo function -> callable
        self.ext_overrides = {}  # library function -> callable
        self.attr_overrides = {}  # (name) -> callable(ip, base)
        self.raises = {}  # library function -> [exception class names]
        self.elems = {}  # many-token -> callable(ip, k)
        self.on_event = None
        self.fork = "parent"
        self.partial = True
        self.deadline = None
        self.missing = set()
        self.quiet_methods = {
            "info", "debug", "warning", "error", "exception", "critical", "log",
        }
        self.paths = 0
        self.visited = set()
        # bounds on numbers of things which a scenario does not reach, and
        # whether they are lowered, so that it does
        self.unreached, self.lowered = set(), False
        self.reset(())

    # -- exploration -----------------------------------------------------

    def reset(self, prefix):
        self.prefix, self.pos, self.taken = prefix, 0, []
        self.widths = []
        self.facts, self.heap, self.events = {}, {}, []
        self.taint, self.decisions, self.data = [], [], {}
        self.kinds = {}
        self.nres, self.steps, self.depth = 0, 0, 0
        self.globals_cache = {}
        self.now = S("NOW")
        self.kinds[self.now] = "datetime"
        self.nid = 0
        self.finished = False
        self.stack = []

    def explore(self, entry, limit=20000, on_path=None):
        todo = [()]
        out = []
        while todo:
            prefix = todo.pop()
            self.reset(prefix)
            if self.deadline is not None and time.time() > self.deadline:
                raise AnalysisError("time limit")
            self.paths += 1
            if self.paths > limit:
                raise AnalysisError("too many paths")
            try:
                try:
                    v = entry(self)
                    outcome, val = "ret", v
                except Prune as e:
                    outcome, val = "prune", e.why
                except Stop as e:
                    outcome, val = "stop", e.why
                except PyExc as e:
                    outcome, val = "exc", e.val
                except Return as e:
                    outcome, val = "ret", e.val
            except RecursionError as rec:
                self.rec = rec
                self.taint.append("recursion limit")
                outcome, val = "prune", "recursion"
            for i in range(len(prefix), len(self.taken)):
                for k in range(self.widths[i]):
                    if k != self.taken[i]:
                        todo.append(tuple(self.taken[:i]) + (k,))
            if outcome != "prune":
                p = PathResult(self, outcome, val)
                if on_path is not None:
                    on_path(p)
                else:
                    out.append(p)
        return out

    def choose(self, n, why=None):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
        else:
            k = 0
        self.pos += 1
        self.taken.append(k)
        self.widths.append(n)
        return k

    def decide(self, key, why=None):
        """An undetermined boolean."""
        k = self.choose(2)
        b = k == 0
        self.decisions.append((key, b, self.loc()))
        return b

    # -- bookkeeping -----------------------------------------------------

    def loc(self, node=None, fr=None):
        if node is None:
            if not self.stack:
                return "?"
            fr, node = self.stack[-1]
        return "{}:{}".format(
            fr.module.path.split("/repo/")[-1]
            if fr.module is not None
            else "?",
            getattr(node, "lineno", "?"),
        )

    def top(self, why):
        return ("top", why)

    def fresh(self, name):
        self.nres += 1
        return ("res", name, self.nres)

    def alloc(self, obj):
        self.nid += 1
        self.heap[self.nid] = obj
        return ("obj", self.nid)

    def deref(self, v):
        return self.heap[v[1]] if v[0] == "obj" else None

    def new_list(self, vals=(), typ="list", name=None):
        return self.alloc(OList([("one", v) for v in vals], typ, name))

    def new_dict(self, entries=(), rest=None, name=None):
        return self.alloc(ODict(entries, rest, name))

    def emit(self, name, args=(), kw=None, recv=None, data=None):
        fr, node = self.stack[-1] if self.stack else (None, None)
        e = Ev(
            name, list(args), kw or {}, recv, self.loc() if self.stack else "?",
            fr.func.qual if fr is not None and fr.func is not None else None, data,
        )
        e.n, e.now = len(self.events), self.now
        self.events.append(e)
        if self.on_event:
            r = self.on_event(self, e)
            if r is not None:
                e.res = r
        return e

    # -- exceptions ------------------------------------------------------

    def make_exc(self, cls, args=()):
        o = OInst(cls, {"args": ("tuple", tuple(args))})
        return self.alloc(o)

    def throw(self, cls, *args):
        raise PyExc(self.make_exc(("pyexc", cls), [C(a) if isinstance(a, str) else a for a in args]))

    def exc_chain(self, cls):
        """names of the class and its bases, most specific first"""
        out = []
        from .front import ClassInfo

        todo = [cls]
        while todo:
            c = todo.pop(0)
            if isinstance(c, ClassInfo):
                out.append(c.qual)
                for b, be in zip(c.bases, c.base_exprs):
                    if isinstance(b, ClassInfo):
                        todo.append(b)
                    else:
                        r = self.repo.static_resolve(c.module, be)
                        todo.append(
                            ("pyexc", r[1] if r and r[0] == "ext" else str(b))
                        )
                continue
            name = c[1]
            name = EXC_ALIAS.get(name, name)
            if name.startswith("builtins."):
                name = name[9:]
            out.append(name)
            if name in EXC_PARENT:
                todo.append(("pyexc", EXC_PARENT[name]))
            else:
                b = getattr(builtins, name, None)
                if isinstance(b, type):
                    out.extend(x.__name__ for x in b.__mro__[1:])
                else:
                    todo.append(("pyexc", "Exception"))
        return out

    def exc_matches(self, excv, typev):
        if typev[0] == "tuple":
            return any(self.exc_matches(excv, t) for t in typev[1])
        o = self.deref(excv)
        if o is None:
            return True
        chain = self.exc_chain(o.cls)
        if typev[0] == "bi":
            return EXC_ALIAS.get(typev[1], typev[1]) in chain
        if typev[0] == "ext":
            n = EXC_ALIAS.get(typev[1], typev[1])
            if n.startswith("builtins."):
                n = n[9:]
            return n in chain
        if typev[0] == "cls":
            return typev[1].qual in chain
        if typev[0] == "top":
            self.taint.append("exception type")
            return bool(self.choose(2))
        if typev[0] == "app" and typev[1] == "attr":
            # e.g. self.pymongo.errors.X
            return str(typev[3]) in [c.split(".")[-1] for c in chain]
        return False

    # -- numeric ranges --------------------------------------------------

    INF = float("inf")

    def set_range(self, v, lo=None, hi=None, lo_open=False, hi_open=False):
        """Assume lo <= v <= hi (scenario facts)."""
        c, t = lin_parts(v)
        form, scale = self.norm_form(t)
        if form is None:
            return
        a = -self.INF if lo is None else (lo - c) / scale
        b = self.INF if hi is None else (hi - c) / scale
        if scale < 0:
            a = self.INF if lo is None else a
            b = -self.INF if hi is None else b
            a, b = b, a
            lo_open, hi_open = hi_open, lo_open
        old = self.facts.get(("rng", form), (-self.INF, self.INF, False, False))
        self.facts[("rng", form)] = self.meet(old, (a, b, lo_open, hi_open))

    @staticmethod
    def meet(x, y):
        lo, lo_open = max((x[0], x[2]), (y[0], y[2]))
        if x[1] < y[1]:
            hi, hi_open = x[1], x[3]
        elif y[1] < x[1]:
            hi, hi_open = y[1], y[3]
        else:
            hi, hi_open = x[1], x[3] or y[3]
        return (lo, hi, lo_open, hi_open)

    @staticmethod
    def norm_form(terms):
        items = sorted(terms.items(), key=lambda t: repr(t[0]))
        items = [(a, k) for a, k in items if k]
        if not items:
            return None, 1
        s = items[0][1]
        return tuple((a, norm_num(k / s) if k % s else k // s) for a, k in items), s

    def atom_range(self, a):
        r = self.facts.get(("rng", ((a, 1),)))
        base = (-self.INF, self.INF, False, False)
        if a[0] == "app" and a[1] in ("len",):
            base = (0, self.INF, False, False)
            f = self.facts.get(("truthy", a[2]))
            if f is not None:
                base = (1, self.INF, False, False) if f else (0, 0, False, False)
        elif a[0] == "app" and a[1] == "%":
            m = self.rng(a[3])
            if m[0] > 0 or (m[0] == 0 and m[2]):
                base = (0, m[1], False, True)
                if is_num(a[3]) and isinstance(cval(a[3]), int) and self.integral(a[2]):
                    base = (0, cval(a[3]) - 1, False, False)
                    x = self.rng1(a[2])
                    if x[0] >= 0 and x[1] < cval(a[3]):
                        base = x
        elif a[0] == "app" and a[1] in ("binascii.crc32", "zlib.crc32"):
            base = (0, 0xFFFFFFFF, False, False)
        elif a[0] == "app" and a[1] == ">>":
            m = self.rng(a[2])
            if m[0] >= 0:
                base = (0, m[1], False, False)
                if is_num(a[3]) and m[1] != self.INF and cval(a[3]) >= 0:
                    base = (int(m[0]) >> cval(a[3]), int(m[1]) >> cval(a[3]), False, False)
        elif a[0] == "app" and a[1] == "&":
            for x in a[2:]:
                if is_num(x):
                    if cval(x) >= 0:
                        base = self.meet(base, (0, cval(x), False, False))
                elif self.rng1(x)[0] >= 0:
                    base = self.meet(base, (0, self.rng1(x)[1], False, False))
        elif a[0] == "app" and a[1] == "abs":
            base = (0, self.INF, False, False)
        return self.meet(base, r) if r else base

    def integral(self, v):
        """is every value of v an integer?"""
        c, t = lin_parts(v)
        if not isinstance(c, int) or any(k != int(k) for k in t.values()):
            return False
        for a in t:
            if self.kinds.get(a) == "int" or self.types_of(a) == {"int"}:
                continue
            if a[0] == "app" and a[1] in ("binascii.crc32", "zlib.crc32", "zlib.adler32", "len", "hash", "id", "ord"):
                continue
            if a[0] == "app" and a[1] in (">>", "<<", "&", "|", "^", "~"):
                continue
            if a[0] == "app" and a[1] in ("%", "//") and self.integral(a[2]) and self.integral(a[3]):
                continue
            return False
        return True

    def rng(self, v, depth=2):
        """interval of a numeric value: (lo, hi, lo_open, hi_open)"""
        out = self.rng1(v)
        c, t = lin_parts(v)
        if depth and t and (out[0] < 0 < out[1] or out[0] == 0 or out[1] == 0):
            # transitivity: v = s * (a form with a known interval) + rest
            for key, f in list(self.facts.items()):
                if key[0] != "rng" or len(key[1]) < 2:
                    continue
                terms = dict(key[1])
                for a in terms:
                    if a not in t:
                        continue
                    k = t[a] / terms[a]
                    rest = lin_add(v, make_lin(0, terms), -k)
                    n = len(lin_parts(rest)[1])
                    if n > len(t) or n >= len(t) + len(terms) - 1:
                        continue
                    g = (f[0] * k, f[1] * k, f[2], f[3]) if k > 0 else (f[1] * k, f[0] * k, f[3], f[2])
                    r = self.rng(rest, depth - 1) if n else (cval(rest), cval(rest), False, False)
                    lo, hi = g[0] + r[0], g[1] + r[1]
                    lo, hi = (-self.INF if lo != lo else lo), (self.INF if hi != hi else hi)
                    out = self.meet(out, (lo, hi, g[2] or r[2], g[3] or r[3]))
        return out

    def rng1(self, v):
        c, t = lin_parts(v)
        if not t:
            return (c, c, False, False)
        lo = hi = c
        lo_open = hi_open = False
        for a, k in t.items():
            r = self.atom_range(a)
            if k > 0:
                l, h, lo_, ho_ = r[0] * k, r[1] * k, r[2], r[3]
            else:
                l, h, lo_, ho_ = r[1] * k, r[0] * k, r[3], r[2]
            lo += l
            hi += h
            lo_open |= lo_
            hi_open |= ho_
        out = (lo, hi, lo_open, hi_open)
        form, s = self.norm_form(t)
        f = self.facts.get(("rng", form))
        if f:
            if s > 0:
                g = (f[0] * s + c, f[1] * s + c, f[2], f[3])
            else:
                g = (f[1] * s + c, f[0] * s + c, f[3], f[2])
            out = self.meet(out, g)
        # a - x % m style bounds: x % m <= m - 1
        for a, k in t.items():
            if a[0] == "app" and a[1] == "%" and len(t) > 1:
                m = self.rng(a[3])
                if m[0] > 0 or (m[0] == 0 and m[2]):
                    rest = lin_add(v, lin_scale(a, k), -1)
                    integer = a[3] not in self.kinds or True
                    sub = lin_scale(lin_add(a[3], C(1 if integer else 0), -1), k)
                    b = self.rng_plain(lin_add(rest, sub))
                    z = self.rng_plain(rest)
                    if k > 0:
                        out = self.meet(out, (z[0], b[1], z[2], b[3]))
                    else:
                        out = self.meet(out, (b[0], z[1], b[2], z[3]))
        return out

    def rng_plain(self, v):
        c, t = lin_parts(v)
        lo = hi = c
        lo_open = hi_open = False
        for a, k in t.items():
            r = self.atom_range(a)
            if k > 0:
                l, h, lo_, ho_ = r[0] * k, r[1] * k, r[2], r[3]
            else:
                l, h, lo_, ho_ = r[1] * k, r[0] * k, r[3], r[2]
            lo += l
            hi += h
            lo_open |= lo_
            hi_open |= ho_
        out = (lo, hi, lo_open, hi_open)
        if t:
            form, s = self.norm_form(t)
            f = self.facts.get(("rng", form))
            if f:
                if s > 0:
                    g = (f[0] * s + c, f[1] * s + c, f[2], f[3])
                else:
                    g = (f[1] * s + c, f[0] * s + c, f[3], f[2])
                out = self.meet(out, g)
        return out

    def unzone(self, v):
        """a time without its timezone"""
        while v[0] == "app" and v[1] == "tz":
            v = v[2]
        return v

    def cmp_known(self, op, a, b):
        """True/False/None for a numeric comparison"""
        if self.data.get("zones"):
            a, b = self.unzone(a), self.unzone(b)
        d = lin_add(a, b, -1)
        lo, hi, lo_open, hi_open = self.rng(d)
        if op == "<":
            if hi < 0 or (hi == 0 and hi_open):
                return True
            if lo >= 0:
                return False
        elif op == "<=":
            if hi <= 0:
                return True
            if lo > 0 or (lo == 0 and lo_open):
                return False
        elif op == ">":
            r = self.cmp_known("<=", a, b)
            return None if r is None else not r
        elif op == ">=":
            r = self.cmp_known("<", a, b)
            return None if r is None else not r
        elif op in ("==", "!="):
            r = None
            if lo == hi == 0 and not lo_open and not hi_open:
                r = True
            elif lo > 0 or hi < 0 or (lo == 0 and lo_open) or (hi == 0 and hi_open):
                r = False
            else:
                c, t = lin_parts(d)
                f = self.facts.get(("numeq", self.norm_form(t)[0], norm_num(-c / self.norm_form(t)[1])))
                if f is not None:
                    r = f
            if r is None:
                return None
            return r if op == "==" else not r
        return None

    def assume_cmp(self, op, a, b):
        d = lin_add(a, b, -1)
        if op == "<":
            self.set_range(d, None, 0, False, True)
        elif op == "<=":
            self.set_range(d, None, 0)
        elif op == ">":
            self.set_range(d, 0, None, True, False)
        elif op == ">=":
            self.set_range(d, 0, None)
        elif op == "==":
            self.set_range(d, 0, 0)
        elif op == "!=":
            c, t = lin_parts(d)
            form, s = self.norm_form(t)
            self.facts[("numeq", form, norm_num(-c / s))] = False
            lo, hi, lo_open, hi_open = self.rng(d)
            if lo == 0:
                self.set_range(d, 0, None, True, False)
            elif hi == 0:
                self.set_range(d, None, 0, False, True)

    # -- conditions ------------------------------------------------------

    def truth(self, v):
        k = v[0]
        if k == "const":
            return bool(v[2])
        if k == "tuple":
            return bool(v[1])
        if k == "meth":
            f = self.force(v)
            return True if f == v else self.truth(f)
        if k in ("fn", "bound", "cls", "bi", "mod", "ext"):
            return True
        if k == "top":
            self.taint.append(v[1])
            return self.decide(("truthy", v))
        if k == "str":
            if any(is_const(p) and p[2] for p in v[1]):
                return True
            if any(self.kinds.get(p) != "str" for p in v[1]):
                return True  # str() of a number etc.
            return self.truth(v[1][0]) if len(v[1]) == 1 else self._free(("truthy", v))
        if k == "lin":
            if self.kinds.get(v) == "datetime" or any(
                self.kinds.get(a) == "datetime" for a, c in v[2]
            ):
                if sum(c for a, c in v[2] if self.kinds.get(a) == "datetime") == 1:
                    return True
            return self.compare_vals("!=", v, C(0))
        if k == "obj":
            o = self.deref(v)
            if o.kind in ("list", "dict"):
                return self.compare_vals(">", self.length(v), C(0))
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__bool__")
                if f:
                    return self.truth(self.call(("bound", v, f), [], {}))
                f = o.cls.find("__len__")
                if f:
                    return self.truth(self.call(("bound", v, f), [], {}))
            return True
        # sym / app / res
        if k == "app" and v[1] == "match!":
            return True
        if k == "app" and v[1] == "td" and len(v) == 3:
            return self.truth(v[2])
        if self.facts.get(("eq", v, NONE)):
            return False
        kind = self.kinds.get(v)
        if kind in ("datetime", "tzinfo", "object"):
            return not self.eq(v, NONE) if ("nullable", v) in self.facts else True
        if k == "app" and v[1] == "len":
            return self.compare_vals(">", v, C(0))
        if kind in ("int", "float", "timedelta") and ("nullable", v) not in self.facts:
            return self.compare_vals("!=", v, C(0))
        f = self.facts.get(("truthy", v))
        if f is not None:
            return f
        r = self.facts.get(("rng", ((v, 1),)))
        if r:
            q = self.cmp_known("!=", v, C(0))
            if q is not None:
                return q
        t = self.types_of(v)
        if t is not None and t <= {"NoneType"}:
            return False
        for key, val in list(self.facts.items()):
            if key[0] == "eq" and val and v in key[1:]:
                other = key[2] if key[1] == v else key[1]
                if is_const(other):
                    return bool(other[2])
        b = self._free(("truthy", v))
        if b and self.facts.get(("eq", v, NONE)) is None:
            self.facts[("eq", v, NONE)] = False
            self.drop_type(v, "NoneType")
        return b

    def _free(self, key):
        f = self.facts.get(key)
        if f is None:
            if any(isinstance(x, tuple) and self.has_top(x) for x in key[1:]):
                self.taint.append(show_key(key))
            f = self.decide(key)
            self.facts[key] = f
        return f

    def has_top(self, v):
        return any(isinstance(t, tuple) and t and t[0] == "top" for t in subterms(v))

    def types_of(self, v):
        """set of possible type names, or None if unknown"""
        if v[0] == "const":
            return frozenset([v[1]])
        if v[0] == "str":
            return frozenset(["str"])
        if v[0] == "tuple":
            return frozenset(["tuple"])
        if v[0] == "obj":
            o = self.deref(v)
            if o.kind == "list":
                return frozenset([o.typ])
            if o.kind == "dict":
                return frozenset(["dict"])
            return None
        if v[0] == "lin":
            return self.facts.get(("types", v))
        t = self.facts.get(("types", v))
        if t is not None:
            return t
        k = self.kinds.get(v)
        if k in ("str", "int", "float", "dict", "list", "bool", "bytes"):
            return frozenset([k])
        if v[0] == "app" and v[1] == ".decode":
            return frozenset(["str"])
        return None

    def drop_type(self, v, t):
        s = self.facts.get(("types", v))
        if s is not None:
            self.facts[("types", v)] = s - {t}

    def type_test(self, v, names):
        """v's type is one of names"""
        t = self.types_of(v)
        if t is not None:
            if t <= names:
                return True
            if not (t & names):
                return False
            if v[0] in ("sym", "app", "res"):
                b = self.decide(("type", v, tuple(sorted(names))))
                self.facts[("types", v)] = (t & names) if b else (t - names)
                if len(self.facts[("types", v)]) == 1 and "NoneType" in self.facts[("types", v)]:
                    self.facts[("eq", v, NONE)] = True
                return b
        return None

    def eq(self, a, b):
        r = self.eq_known(a, b)
        if r is not None:
            return r
        for x, y in ((a, b), (b, a)):
            if x[0] == "app" and x[1] == "type" and len(x) == 3:
                return self.type_compare(x[2], y)
        if a[0] == "top" or b[0] == "top":
            self.taint.append((a if a[0] == "top" else b)[1])
            return self.decide(("eq", a, b))
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        if b == NONE:
            key = ("eq", a, NONE)
        elif a == NONE:
            key = ("eq", b, NONE)
        if self.numeric(a) and self.numeric(b):
            return self.compare_num("==", a, b)
        v = self._free(key)
        if v:
            for x, y in ((a, b), (b, a)):
                if is_const(y) and x[0] in ("sym", "app", "res"):
                    self.facts[("truthy", x)] = bool(y[2])
                    if y[2] is not None:
                        self.facts[("eq", x, NONE)] = False
        else:
            for x, y in ((a, b), (b, a)):
                if y == NONE:
                    self.drop_type(x, "NoneType")
        return v

    def numeric(self, v):
        if v[0] == "lin" or is_num(v):
            return True
        if v[0] == "const":
            return False
        return self.kinds.get(v) in ("int", "float", "datetime", "timedelta") or (
            ("rng", ((v, 1),)) in self.facts
        )

    def eq_known(self, a, b):
        if self.data.get("zones"):
            a, b = self.unzone(a), self.unzone(b)
        if a == b:
            return True
        if a[0] == "const" and b[0] == "const":
            return a[2] == b[2]
        for x, y in ((a, b), (b, a)):
            if x[0] == "const":
                if y[0] in ("fn", "bound", "cls", "bi", "mod", "tuple", "meth"):
                    return False
                if y[0] == "obj":
                    if x[2] is None:
                        return False
                    o = self.deref(y)
                    if o.kind in ("inst", "func"):
                        return False
                    return False
                if y[0] == "lin" and not is_num(x):
                    return False
                if y[0] == "app" and y[1] == "match!":
                    return False
                if y[0] == "str":
                    if not isinstance(x[2], str):
                        return False
                    p = y[1]
                    if is_const(p[0]) and not x[2].startswith(str(p[0][2])):
                        return False
                    if is_const(p[-1]) and not x[2].endswith(str(p[-1][2])):
                        return False
                t = self.types_of(y)
                if t is not None and y[0] in ("sym", "app", "res"):
                    nm = x[1]
                    if nm not in t and not (
                        nm in ("int", "float", "bool") and t & {"int", "float", "bool"}
                    ):
                        return False
                    if x[2] is None and t == {"NoneType"}:
                        return True
                if y[0] == "ext":
                    return False
                kind = self.kinds.get(y)
                if x[2] is None and kind and ("nullable", y) not in self.facts:
                    return False
                if y[0] in ("sym", "app", "res"):
                    f = self.facts.get(("eq", y, x))
                    if f is None:
                        f = self.facts.get(
                            ("eq",) + tuple(sorted((x, y), key=repr))
                        )
                    if f is not None:
                        return f
                    if x[2] is None and self.facts.get(("truthy", y)):
                        return False
                    tv = self.facts.get(("truthy", y))
                    if tv is not None and bool(x[2]) != tv:
                        return False
                    for key, val in self.facts.items():
                        if key[0] == "eq" and val and y in key[1:]:
                            other = key[2] if key[1] == y else key[1]
                            if is_const(other) and other[2] != x[2]:
                                return False
        if a[0] == "ext" and b[0] == "ext":
            return False
        if a[0] == "tuple" and b[0] == "tuple":
            if len(a[1]) != len(b[1]):
                return False
            rs = [self.eq_known(x, y) for x, y in zip(a[1], b[1])]
            if any(r is False for r in rs):
                return False
            return True if all(rs) else None
        if a[0] == "obj" and b[0] == "obj":
            oa, ob = self.deref(a), self.deref(b)
            if oa.kind != ob.kind:
                return False
            if oa.kind == "inst":
                for x, o in ((a, oa), (b, ob)):
                    if not isinstance(o.cls, tuple) and o.cls is not None:
                        f = o.cls.find("__eq__")
                        if f:
                            return self.truth(
                                self.call(("bound", x, f), [b if x == a else a], {})
                            )
                return False
            if oa.kind == "list":
                if (oa.typ == "set") != (ob.typ == "set"):
                    return False
                if all(s[0] == "one" for s in oa.segs + ob.segs):
                    if oa.typ == "set":
                        for x, y in ((oa, ob), (ob, oa)):
                            for e in x.segs:
                                rs = [self.eq_known(e[1], f[1]) for f in y.segs]
                                if not any(rs):
                                    return False if all(r is False for r in rs) else None
                        return True
                    if len(oa.segs) != len(ob.segs):
                        return False
                    rs = [self.eq_known(x[1], y[1]) for x, y in zip(oa.segs, ob.segs)]
                    if any(r is False for r in rs):
                        return False
                    return True if all(rs) else None
            if oa.kind == "func":
                return False
            return None
        for x, y in ((a, b), (b, a)):
            if x[0] == "obj" and y[0] in ("sym", "app", "res"):
                if (y in self.data.get("distinct", ())) or (
                    self.deref(x).kind == "inst" and self.kinds.get(y) not in (None, "object")
                ):
                    return False
        d = self.data.get("distinct", ())
        if a in d and b in d:
            return False
        if a[0] in ("cls", "fn", "bi") and b[0] in ("cls", "fn", "bi"):
            return False
        if self.numeric(a) and self.numeric(b):
            return self.cmp_known("==", a, b)
        if a[0] == "str" or b[0] == "str":
            pa = a[1] if a[0] == "str" else (a,)
            pb = b[1] if b[0] == "str" else (b,)
            if pa[0] == pb[0] and len(pa) == len(pb) == 2 and is_const(pa[1]) and is_const(pb[1]):
                return False
        key = ("eq",) + tuple(sorted((a, b), key=repr))
        return self.facts.get(key)

    def compare_vals(self, op, a, b):
        """truth of a comparison; partitions if undetermined"""
        if self.data.get("zones"):
            a, b = self.unzone(a), self.unzone(b)
        if self.data.get("clock") and op in ("<", "<=", ">", ">=", "==", "!="):
            r = clock.compare(self, op, a, b)
            if isinstance(r, bool):
                return r
            if r is not None:
                return self.compare_vals(op, *r)
        if op == "is":
            if is_const(a) and is_const(b):
                return a[2] is b[2] or (a[2] == b[2] and a[1] == b[1])
            return self.eq(a, b)
        if op == "is not":
            return not self.compare_vals("is", a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == "app" and x[1] == "type" and op in ("==", "!="):
                r = self.type_compare(x[2], y)
                return r if op == "==" else not r
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return not self.eq(a, b) if not (
                self.numeric(a) and self.numeric(b) and self.eq_known(a, b) is None
            ) else not self.compare_num("==", a, b)
        if op == "in":
            return self.contains(b, a)
        if op == "not in":
            return not self.contains(b, a)
        ranks = self.data.get("ranks")
        if ranks and a in ranks and b in ranks:
            x, y = ranks[a], ranks[b]
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        return self.compare_num(op, a, b)

    def compare_num(self, op, a, b):
        for x in (a, b):
            if x[0] == "top":
                self.taint.append(x[1])
                return self.decide((op, a, b))
        if is_const(a) and is_const(b):
            try:
                return {
                    "<": lambda: a[2] < b[2], "<=": lambda: a[2] <= b[2],
                    ">": lambda: a[2] > b[2], ">=": lambda: a[2] >= b[2],
                    "==": lambda: a[2] == b[2], "!=": lambda: a[2] != b[2],
                }[op]()
            except TypeError:
                self.throw("TypeError", "unorderable")
        for x in (a, b):
            if x[0] == "obj":
                o = self.deref(x)
                if o.kind == "inst" and o.cls is not None and not isinstance(o.cls, tuple):
                    other = b if x == a else a
                    m = {"<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}.get(op)
                    if m and o.cls.find(m):
                        f = o.cls.find(m)
                        if x == a:
                            return self.truth(self.call(("bound", x, f), [other], {}))
                oa, ob = self.deref(a), self.deref(b)
                if oa is not None and ob is not None and oa.kind == ob.kind == "list" and oa.typ == ob.typ == "set" and op in NEG:
                    if op in (">", ">="):
                        a, b, op = b, a, {">": "<", ">=": "<="}[op]
                        oa, ob = ob, oa
                    if all(s[0] == "one" for s in oa.segs + ob.segs):
                        if not all(self.contains(b, s[1]) for s in oa.segs):
                            return False
                        return op == "<=" or len(ob.segs) > len(oa.segs)
                return self._free((op, a, b))
        if a[0] in ("tuple", "str") or b[0] in ("tuple", "str"):
            return self._free((op, a, b))
        for x in (a, b):
            t = self.types_of(x)
            if t is not None and t <= {"NoneType", "dict"}:
                self.throw("TypeError", "unorderable")
        r = self.cmp_known(op, a, b)
        if r is not None:
            return r
        d = lin_add(a, b, -1)
        if self.has_top(d):
            self.taint.append("comparison with unknown value")
        elif len(lin_parts(d)[1]) > 1 and op in NEG:
            if poly.holds(self, op, a, b):
                return True
            if poly.holds(self, NEG[op], a, b):
                return False
        r = self.decide((op, a, b))
        self.assume_cmp(op if r else NEG[op], a, b)
        return r

    def type_compare(self, v, t):
        """type(v) == t"""
        if t[0] == "app" and t[1] == "type":
            if t[2] == v:
                return True
            if is_const(t[2]):
                t = ("bi", t[2][1])
        if t[0] == "bi":
            r = self.type_test(v, {t[1]})
            if r is not None:
                return r
        if v[0] == "obj":
            o = self.deref(v)
            if o.kind == "inst":
                if t[0] == "cls":
                    return o.cls is t[1]
                if t[0] in ("bi", "ext"):
                    return False
            return False
        return self._free(("typeis", v, t))

    def isinstance_(self, v, t):
        if t == app("type", NONE):
            t = ("bi", "NoneType")
        if t[0] == "app" and t[1] == "|" and len(t) == 4:
            t = ("tuple", (t[2], t[3]))
        if t[0] == "tuple":
            t = ("tuple", tuple(("bi", "NoneType") if x == app("type", NONE) else x for x in t[1]))
            ts = list(t[1])
            bi = {x[1] for x in ts if x[0] == "bi"}
            if bi and self.types_of(v) is not None and len(bi) == len(ts):
                if "int" in bi:
                    bi = bi | {"bool"}
                r = self.type_test(v, bi)
                if r is not None:
                    return r
            return any(self.isinstance_(v, x) for x in ts)
        if v[0] in ("mod", "fn", "cls", "bi") or (v[0] == "ext"):
            if t[0] == "bi" and t[1].endswith("Error") or t[0] == "bi" and t[1] == "Exception":
                return False
            return self._free(("isinstance", v, t))
        if v[0] == "obj":
            o = self.deref(v)
            if o.kind == "inst":
                if t[0] == "cls":
                    from .front import ClassInfo

                    if isinstance(o.cls, ClassInfo):
                        return t[1] in o.cls.mro()
                    return False
                if isinstance(o.cls, tuple):
                    return self.exc_matches(v, t)
                if o.cls is not None and t[0] in ("bi", "ext"):
                    return self.exc_matches(v, t) if t != ("bi", "object") else True
                if o.cls is None and t[0] == "bi":
                    return t[1] == "object"
                return False
            if t[0] == "bi":
                if o.kind == "list":
                    return t[1] in (o.typ, "object")
                if o.kind == "dict":
                    return t[1] in ("dict", "object")
            return False
        if t[0] == "bi":
            names = {t[1]}
            if t[1] == "int":
                names.add("bool")
            r = self.type_test(v, names)
            if r is not None:
                return r
            if v[0] == "lin":
                if t[1] in ("str", "dict", "list", "bytes"):
                    return False
        if t[0] == "ext":
            k = self.kinds.get(v)
            if t[1] in ("datetime.tzinfo", "datetime.datetime", "datetime.timedelta"):
                nm = t[1].split(".")[1]
                if k == nm or self.facts.get(("types", v)) == {nm}:
                    return True
                if k is not None or v[0] in ("const", "str", "tuple"):
                    return False
                if v[0] == "lin":
                    return nm != "tzinfo"
                ty = self.types_of(v)
                if ty is not None:
                    return False
        if is_const(v):
            return False
        return self._free(("isinstance", v, t))

    def contains(self, cont, x):
        if cont[0] == "app" and cont[1] == "keys":
            return self.contains(cont[2], x)
        if cont[0] == "tuple":
            tests = list(cont[1])
            if x[0] == "app" and x[1] == "type":
                bi = {t[1] for t in tests if t[0] == "bi"}
                for t in tests:
                    if t[0] == "app" and t[1] == "type" and is_const(t[2]):
                        bi.add(t[2][1])
                if self.types_of(x[2]) is not None and bi:
                    r = self.type_test(x[2], bi)
                    if r is not None:
                        return r
            return any(self.compare_vals("==", x, t) for t in tests)
        if cont[0] == "const":
            if isinstance(cont[2], str):
                if is_const(x) and isinstance(x[2], str):
                    return x[2] in cont[2]
            elif isinstance(cont[2], (int, float, type(None))):
                self.throw("TypeError", "not a container")
            return self._free(("in", x, cont))
        if cont[0] == "obj":
            o = self.deref(cont)
            if o.kind == "list":
                for s in o.segs:
                    if s[0] == "one":
                        if self.compare_vals("==", x, s[1]):
                            return True
                    else:
                        if self.many_contains(s, x):
                            return True
                return False
            if o.kind == "dict":
                if o.name != "sqlite3.Row":
                    self.hashable(x)
                for k, v in o.entries:
                    if o.name == "sqlite3.Row":
                        k = v  # these are searched for values
                    if self.eq(k, x):
                        return True
                if o.rest is not None:
                    return self._free(("in", x, ("sym", o.rest)))
                return False
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__contains__")
                if f:
                    return self.truth(self.call(("bound", cont, f), [x], {}))
                return self._free(("in", x, cont))
        if cont[0] == "str":
            for p in cont[1]:
                if is_const(p) and is_const(x) and isinstance(x[2], str) and x[2] in str(p[2]):
                    return True
            return self._free(("in", x, cont))
        if cont[0] in ("mod", "fn", "cls"):
            return self._free(("in", x, cont))
        t = self.types_of(cont)
        if t is not None:
            if not self.require_type(cont, {"dict", "list", "str", "tuple", "set"}):
                self.throw("TypeError", "argument is not iterable")
        return self._free(("in", x, cont))

    def many_contains(self, seg, x):
        tmpl = seg[2] if len(seg) > 2 else None
        if tmpl is not None:
            r = self.eq_known(tmpl, x)
            if r is False:
                return False
            return self._free(("somein", x, ("sym", str(seg[1]))))
        if x[0] == "obj":
            return False
        return self._free(("somein", x, ("sym", str(seg[1]))))

    def require_type(self, v, names):
        """partition on v having one of these types (True: it has)"""
        t = self.types_of(v)
        if t is None or t <= names:
            return True
        if not (t & names):
            return False
        return self.type_test(v, set(names))

    # -- collections -----------------------------------------------------

    def length(self, v):
        if v[0] == "const" and isinstance(v[2], (str, bytes, tuple)):
            return C(len(v[2]))
        if v[0] == "tuple":
            return C(len(v[1]))
        if v[0] == "obj":
            o = self.deref(v)
            if o.kind == "list":
                out = C(sum(1 for s in o.segs if s[0] == "one"))
                for s in o.segs:
                    if s[0] == "many":
                        out = lin_add(out, app("len", ("sym", str(s[1]))))
                return out
            if o.kind == "dict":
                out = C(len(o.entries))
                if o.rest is not None:
                    out = lin_add(out, app("len", ("sym", o.rest)))
                return out
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__len__")
                if f:
                    return self.call(("bound", v, f), [], {})
        if v[0] == "top":
            return v
        t = self.types_of(v)
        if t is not None and not self.require_type(
            v, {"dict", "list", "str", "tuple", "set", "bytes"}
        ):
            self.throw("TypeError", "object has no len()")
        return app("len", v)

    def segs(self, v):
        """segments of an iterable"""
        if v[0] == "tuple":
            return [("one", x) for x in v[1]]
        if v[0] == "const":
            if isinstance(v[2], (str, bytes)):
                return [("one", C(x)) for x in v[2]]
            self.throw("TypeError", "not iterable")
        if v[0] == "obj":
            o = self.deref(v)
            if o.kind == "list":
                return list(o.segs)
            if o.kind == "dict":
                if o.name == "sqlite3.Row":
                    return [("one", v) for _, v in o.entries]
                out = [("one", k) for k, _ in o.entries]
                if o.rest is not None:
                    out.append(("many", o.rest + ".keys"))
                return out
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__iter__")
                if f:
                    return self.segs(self.call(("bound", v, f), [], {}))
        if v in self.data.get("cursors", ()):
            rows = self.data["cursors"][v]
            self.data["cursors"][v] = []
            return [("one", x) for x in rows]
        if v[0] == "top":
            self.taint.append("iteration over unknown value")
            return [("many", "top:" + str(v[1]), v)]
        t = self.types_of(v)
        if t is not None and not self.require_type(
            v, {"dict", "list", "str", "tuple", "set"}
        ):
            self.throw("TypeError", "not iterable")
        return [("many", show(v), None, v)]

    def elem(self, seg, k):
        if len(seg) > 2 and seg[2] is not None:
            return seg[2]
        tok = seg[1]
        if tok in self.elems:
            key = ("elem", tok, k)
            if key not in self.data:
                self.data[key] = self.elems[tok](self, k)
            return self.data[key]
        if len(seg) > 3:
            return app("elem", seg[3], k)
        return S("{}#{}".format(tok, k))

    def each_live(self, v):
        """iterate as a for statement does: over what the list is meanwhile"""
        o = self.deref(v)
        d = o
        if o is not None and o.kind == "list" and o.view is not None:
            d = self.deref(o.view)
        if d is not None and d.kind == "dict" and d.rest is None and d.name != "sqlite3.Row":
            n = len(d.entries)
            for x in self.each(v):
                yield x
                if len(d.entries) != n:
                    self.throw("RuntimeError", "dictionary changed size during iteration")
            return
        if o is None or o.kind != "list":
            yield from self.each(v)
            return
        i = 0
        while i < len(o.segs):
            seg = o.segs[i]
            if seg[0] == "one":
                yield seg[1]
                i += 1
                continue
            yield from self.each(v, [seg])
            j = [k for k, x in enumerate(o.segs) if x is seg]
            i = j[0] + 1 if j else i

    def each(self, v, segs=None):
        """iterate: yields element values, partitioning on how many there are"""
        for seg in self.segs(v) if segs is None else segs:
            if seg[0] == "one":
                yield seg[1]
                continue
            n = app("len", ("sym", str(seg[1])))
            k = 0
            self.data.setdefault("iterated", set()).add(seg[3] if len(seg) > 3 else seg[1])
            while k < self.MANY_CAP:
                known = self.cmp_known(">", n, C(k))
                if known is False:
                    break
                if known is None:
                    if not self.choose(2):
                        if k == 0:
                            self.assume_cmp("==", n, C(0))
                        break
                    self.assume_cmp(">", n, C(k))
                yield self.elem(seg, k)
                k += 1
                if known is True and k >= self.MANY_CAP:
                    break

    def comp_segs(self, v):
        """iterate for a comprehension: (is_many, token, value)"""
        for seg in self.segs(v):
            if seg[0] == "one":
                yield None, seg[1]
            else:
                yield seg[1], self.elem(seg, 0)

    def as_list(self, v, typ="list"):
        o = self.deref(v)
        if o is not None and o.kind == "list":
            n = OList(o.segs, typ)
            n.order = o.order
            n.filtered = o.filtered
            return self.alloc(n)
        if v[0] == "top":
            return v
        return self.alloc(OList(self.segs(v), typ))

    def getitem(self, base, key):
        k = base[0]
        if k == "top" or key[0] == "top":
            return self.top("item of unknown")
        if k == "tuple" and is_num(key):
            try:
                return base[1][cval(key)]
            except IndexError:
                self.throw("IndexError", "tuple index")
        if k == "const" and is_const(key):
            try:
                return C(base[2][key[2]])
            except (TypeError, IndexError, KeyError) as e:
                self.throw(type(e).__name__, str(e))
        if k == "obj":
            o = self.deref(base)
            if o.kind == "dict":
                hit = self.dict_find(o, key)
                if hit is not None:
                    return hit
                if o.rest is not None:
                    if self.contains(base, key):
                        return app("item", ("sym", o.rest), key)
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    o.entries.append([key, v])
                    return v
                self.throw("KeyError", key)
            if o.kind == "list":
                if is_num(key):
                    i = cval(key)
                    ones = [s for s in o.segs if s[0] == "one"]
                    if len(ones) == len(o.segs):
                        if o.order is not None and len(ones) > 1:
                            j = self.choose(len(ones))
                            return ones[j][1]
                        try:
                            return ones[i][1]
                        except IndexError:
                            self.throw("IndexError", "list index")
                    if o.order is not None:
                        return app("ordered", base, key)
                    s = o.segs[0 if i >= 0 else -1]
                    if s[0] == "one" and i in (0, -1):
                        return s[1]
                    if s[0] == "many":
                        if self.compare_vals(">", self.length(base), C(i if i >= 0 else 0)):
                            return self.elem(s, 0)
                        self.throw("IndexError", "list index")
                return app("getitem", base, key)
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__getitem__")
                if f:
                    return self.call(("bound", base, f), [key], {})
        if base in self.data.get("cursors", ()) and is_num(key):
            rows = self.data["cursors"][base]
            if 0 <= cval(key) < len(rows):
                return rows[cval(key)]
            self.throw("IndexError", "no such item for Cursor instance")
        if base == ("ext", "os.environ"):
            if not self._free(("in", key, base)):
                self.throw("KeyError", key)
            v = app("item", base, key)
            self.kinds[v] = "str"
            return v
        t = self.types_of(base)
        if t is not None and base[0] in ("sym", "app", "res"):
            if not self.require_type(base, {"dict", "list", "str", "tuple"}):
                self.throw("TypeError", "not subscriptable")
            t = self.types_of(base)
            if t == {"dict"}:
                if not self._free(("in", key, base)):
                    self.throw("KeyError", key)
                v = app("item", base, key)
                self.inherit_data(base, v)
                return v
            if is_const(key) and isinstance(key[2], str):
                self.throw("TypeError", "indices must be integers")
        v = app("item", base, key)
        self.inherit_data(base, v)
        return v

    def inherit_data(self, base, v):
        root = base
        while root[0] == "app" and root[1] in ("item", "elem", "get", "elemkey"):
            root = root[2]
        if root in self.data.get("dataroots", ()) and ("types", v) not in self.facts:
            self.facts[("types", v)] = ANYDATA

    def hashable(self, key):
        """Lists and dictionaries cannot be keys."""
        if key[0] == "obj" and self.deref(key).kind in ("list", "dict"):
            self.throw("TypeError", "unhashable type")
        if key[0] == "tuple":
            for k in key[1]:
                self.hashable(k)

    def dict_find(self, o, key):
        self.hashable(key)
        for k, v in reversed(o.entries):
            if self.eq(k, key):
                return v
        return None

    def setitem(self, base, key, val):
        if base[0] == "obj":
            o = self.deref(base)
            if o.kind == "dict":
                self.hashable(key)
                if o.mirror is not None:
                    if is_const(key) and isinstance(key[2], str):
                        self.setattr_(o.mirror, key[2], val)
                    else:
                        self.taint.append("attribute with unknown name")
                for e in o.entries:
                    r = self.eq_known(e[0], key)
                    if r or (r is None and self.eq(e[0], key)):
                        e[1] = val
                        self.emit("dict.set", [base, key, val])
                        return
                o.entries.append([key, val])
                self.emit("dict.set", [base, key, val])
                return
            if o.kind == "list" and is_num(key) and all(s[0] == "one" for s in o.segs):
                try:
                    o.segs[cval(key)] = ("one", val)
                except IndexError:
                    self.throw("IndexError", "assignment index")
                return
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                f = o.cls.find("__setitem__")
                if f:
                    self.call(("bound", base, f), [key, val], {})
                    return
        t = self.types_of(base)
        if t is not None and base[0] in ("sym", "app", "res"):
            if not self.require_type(base, {"dict", "list"}):
                self.throw("TypeError", "does not support item assignment")
        self.data.setdefault("items", {})[(base, key)] = val
        self.facts[("in", key, base)] = True
        self.emit("setitem", [base, key, val])

    def delitem(self, base, key):
        if base[0] == "obj":
            o = self.deref(base)
            if o.kind == "dict":
                for e in list(o.entries):
                    if self.eq(e[0], key):
                        o.entries.remove(e)
                        self.emit("dict.del", [base, key])
                        return
                if o.rest is None:
                    self.throw("KeyError", key)
                self.emit("dict.del", [base, key])
                return
            if o.kind == "list":
                if is_num(key) and all(s[0] == "one" for s in o.segs):
                    try:
                        v = o.segs[cval(key)]
                        del o.segs[cval(key)]
                        self.emit("list.remove", [base, v[1]])
                        return
                    except IndexError:
                        self.throw("IndexError", "del index")
                if key[0] == "app" and key[1] == "slice" and key[2:] == (NONE, NONE, NONE):
                    o.segs = []
                    self.emit("list.clear", [base])
                    return
        self.emit("delitem", [base, key])

    # -- attributes ------------------------------------------------------

    def getattr_(self, base, name, default=None):
        from .front import ClassInfo

        k = base[0]
        if name == "tzinfo" and base[0] == "app" and base[1] == "tz":
            return S("the offset at the time of loading") if base[3] == C("local") and self.data.get("fixed") else base[3]
        if name == "tzinfo" and self.data.get("clock"):
            t = clock.parts(base)
            if t:
                return t[2] if t[0] else NONE
        if k == "mod":
            r = self.repo.resolve_dotted(base[1] + "." + name)
            return self.resolved(r, default, base, name)
        if k == "ext":
            return self.ext_value(base[1] + "." + name)
        if k == "cls":
            f = base[1].find(name)
            if f:
                if f.classmethod:
                    return ("bound", base, f)
                return ("fn", f)
            a = base[1].find_attr(name)
            if a:
                return self.class_attr(a)
            if name == "__name__":
                return C(base[1].name)
            if default is not None:
                return default
            return app("attr", S("class " + base[1].qual), name)
        if k == "obj":
            o = self.deref(base)
            if o.kind == "inst":
                if name in o.attrs:
                    return o.attrs[name]
                if name in self.attr_overrides:
                    r = self.attr_overrides[name](self, base)
                    if r is not None:
                        return r
                if isinstance(o.cls, ClassInfo):
                    f = o.cls.find(name)
                    if f:
                        if f.prop:
                            v = self.call(("bound", base, f), [], {})
                            return v
                        if f.static:
                            return ("fn", f)
                        if f.classmethod:
                            return ("bound", ("cls", o.cls), f)
                        return ("bound", base, f)
                    a = o.cls.find_attr(name)
                    if a:
                        return self.class_attr(a)
                    if name == "__class__":
                        return ("cls", o.cls)
                    if name == "__dict__":
                        d = self.new_dict([(C(x), y) for x, y in o.attrs.items()])
                        self.deref(d).mirror = base
                        return d
                    if any(not isinstance(b, ClassInfo) and str(b) != "object" for c in o.cls.mro() for b in c.bases):
                        return ("meth", base, name)
                if o.open:
                    v = app("attr", S(o.name or "obj%d" % base[1]), name)
                    o.attrs[name] = v
                    return v
                if isinstance(o.cls, tuple):
                    if name in ("with_traceback", "__traceback__", "errno", "strerror", "filename", "__cause__"):
                        return app("attr", base, name)
                if o.lazy is not None:
                    v = o.lazy(name)
                    if v is not None:
                        o.attrs[name] = v
                        return v
                if default is not None:
                    return default
                self.throw("AttributeError", name)
            if name == "__class__":
                return self.call_builtin("type", [base], {})
            return ("meth", base, name)
        if k == "fn":
            if name in ("__name__", "__qualname__"):
                return C(base[1].name)
            return app("attr", S(base[1].qual), name)
        if name == "__class__" and k in ("const", "str", "tuple", "obj", "sym", "app", "res") and (k in ("const", "str", "tuple", "obj") or self.types_of(base)):
            return self.call_builtin("type", [base], {})
        if k == "bi":
            if name in ("__name__", "__qualname__"):
                return C(base[1])
            return ("ext", "builtins." + base[1] + "." + name)
        if name in ("__name__", "__qualname__") and k == "app" and base[1] == "type" and len(base) == 3:
            for t in sorted(self.types_of(base[2]) or ()):
                if len(self.types_of(base[2])) == 1 or self.type_test(base[2], {t}):
                    return C(t)
        if k in ("const", "str", "lin", "tuple", "bound", "meth"):
            if k == "const" and base[2] is None:
                if default is not None:
                    return default
                self.throw("AttributeError", "None has no attribute " + name)
            if name == "tzinfo" and k == "lin":
                return app("attr", base, name)
            return ("meth", base, name)
        if k == "top":
            return ("meth", base, name)
        # sym / app / res: an attribute or a bound method, decided by use
        return ("meth", base, name)

    def force(self, v):
        """A value where an attribute of an unknown object is meant."""
        from . import models

        if v[0] == "meth":
            b = v[1]
            key = (b, v[2])
            if key in self.data.get("attrs", {}):
                return self.data["attrs"][key]
            if v[2] in self.attr_overrides:
                r = self.attr_overrides[v[2]](self, b)
                if r is not None:
                    return r
            if b[0] == "top":
                return self.top("attribute of unknown")
            if is_const(b) and type(b[2]) is int and v[2] in ("name", "value") and b[2] in models.SIGNAMES:
                # of the numbers of the package, only signals have names
                return b if v[2] == "value" else C(models.SIGNAMES[b[2]])
            if b[0] == "app" and b[1] == "direntry" and v[2] in ("name", "path"):
                return models.direntry(self, b, v[2])
            if self.data.get("pathlib") and v[2] in models.PATH_ATTRS and (b[0] == "str" or is_const(b) and isinstance(b[2], str)):
                return models.path_attr(self, b, v[2])
            if b[0] in ("sym", "app", "res", "lin"):
                t = self.types_of(b)
                if t is not None and t and t <= DATATYPES and b[0] != "lin":
                    if not any(hasattr(DATACLS[x], v[2]) for x in t):
                        self.throw("AttributeError", v[2])
                return app("attr", b, v[2])
        return v

    def class_attr(self, a):
        cls, expr = a
        key = ("classattr", cls.qual, id(expr))
        if key not in self.globals_cache:
            fr = Frame(cls.module, cls)
            self.globals_cache[key] = self.ev(expr, fr)
        return self.globals_cache[key]

    def resolved(self, r, default, base, name):
        if r is None:
            if default is not None:
                return default
            return app("attr", base, name)
        if r[0] == "func":
            return ("fn", r[1])
        if r[0] == "class":
            return ("cls", r[1])
        if r[0] == "mod":
            return ("mod", r[1])
        if r[0] == "ext":
            return self.ext_value(r[1])
        if r[0] == "global":
            return self.module_global(r)
        if r[0] == "tried":
            return self.tried(r[1], r[2])
        return self.top("name " + name)

    def tried(self, m, name):
        """a name bound in a "try" statement of the module, which is executed"""
        key = (m.name, name)
        if key not in self.globals_cache:
            fr = Frame(m)
            fr.globals_ = Everything()
            self.stmt(m.tried[name], fr)
        if key not in self.globals_cache:
            self.throw("NameError", name)
        return self.globals_cache[key]

    def need(self, dotted):
        if self.repo.absent and self.repo.gone(dotted):
            self.throw("ModuleNotFoundError", "No module named " + dotted)

    def module_global(self, r):
        _, m, name, expr = r
        key = (m.name, name)
        if key not in self.globals_cache:
            if self.data.get("exec_modules"):
                self.exec_module(m)
                if key in self.globals_cache:
                    return self.globals_cache[key]
            if expr is None:
                self.globals_cache[key] = S("global:{}.{}".format(m.name, name))
            else:
                self.globals_cache[key] = NONE
                self.globals_cache[key] = self.ev(expr, Frame(m))
        return self.globals_cache[key]

    def exec_module(self, m):
        """the statements of the module, as at its import"""
        done = self.data.setdefault("executed", set())
        if m.name in done:
            return
        done.add(m.name)
        fr = Frame(m)
        fr.globals_ = Everything()
        for s in m.tree.body:
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                self.stmt(s, fr)

    def import_module(self, m):
        """everything the import of a module evaluates"""
        fr = Frame(m)
        fr.globals_ = Everything()
        for s in m.tree.body:
            if isinstance(s, ast.ClassDef):
                for b in s.bases + s.decorator_list:
                    self.need_base(b, fr)
            elif isinstance(s, ast.FunctionDef):
                for b in s.args.defaults + [d for d in s.args.kw_defaults if d] + s.decorator_list:
                    self.need_base(b, fr)
            else:
                self.stmt(s, fr)

    def need_base(self, e, fr):
        """evaluates an expression; an exception has no such attributes"""
        v = self.ev(e, fr)
        self.force(v)

    def ext_value(self, dotted):
        from . import models

        if dotted == "os.environ" and "environ" in self.data:
            return self.data["environ"]

        if dotted in models.EXT_CONST:
            return C(models.EXT_CONST[dotted])
        if dotted.startswith("builtins.") and dotted.count(".") == 1:
            return ("bi", dotted[9:])
        return ("ext", dotted)

    def setattr_(self, base, name, val):
        if base[0] == "obj":
            o = self.deref(base)
            if o.kind == "inst":
                f = None
                if not isinstance(o.cls, tuple) and o.cls is not None:
                    f = o.cls.find(name + ".setter")
                o.attrs[name] = val
                self.emit("setattr", [base, C(name), val])
                return
        if base[0] in ("mod", "cls", "fn"):
            self.emit("setattr", [base, C(name), val])
            return
        self.data.setdefault("attrs", {})[(base, name)] = val
        self.emit("setattr", [base, C(name), val])

    # -- calls -----------------------------------------------------------

    def call(self, f, args, kw, node=None, fr=None):
        k = f[0]
        if k == "fn":
            return self.call_func(f[1], args, kw)
        if k == "bound":
            return self.call_func(f[2], [f[1]] + list(args), kw)
        if k == "cls":
            return self.instantiate(f[1], args, kw)
        if k == "bi":
            return self.call_builtin(f[1], args, kw)
        if k == "ext":
            return self.call_ext(f[1], args, kw)
        if k == "meth":
            return self.call_method(f[1], f[2], args, kw)
        if k == "obj":
            o = self.deref(f)
            if o.kind == "func":
                return self.call_closure(o, args, kw)
            if o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
                m = o.cls.find("__call__")
                if m:
                    return self.call(("bound", f, m), args, kw)
            if o.kind == "inst":
                e = self.emit("call", args, kw, f)
                return e.res if e.res is not None else self.fresh("call")
        if k == "app" and f[1] == "partial":
            kk = dict(f[4])
            kk.update(kw)
            return self.call(f[2], list(f[3]) + list(args), kk)
        if k == "app" and f[1] == "attrgetter" and len(args) == 1 and not kw and all(is_const(n) and isinstance(n[2], str) for n in f[2:]):
            out = []
            for n in f[2:]:
                v = args[0]
                for part in n[2].split("."):
                    v = self.force(self.getattr_(v, part))
                out.append(v)
            return out[0] if len(out) == 1 else ("tuple", tuple(out))
        if k == "app" and f[1] == "operator.itemgetter" and len(args) == 1 and not kw:
            out = [self.getitem(self.force(args[0]), n) for n in f[2:]]
            return out[0] if len(out) == 1 else ("tuple", tuple(out))
        if k == "app" and f[1] == "methodcaller" and len(args) == 1 and not kw:
            return self.call(self.getattr_(args[0], f[2]), list(f[3]), dict(f[4]))
        if k == "app" and f[1] == "attr" and len(f) == 4 and isinstance(f[3], str) and f[2][0] in ("sym", "app", "res", "lin", "str", "top"):
            # a method which was passed on
            return self.call_method(f[2], f[3], args, kw)
        if k == "const":
            self.throw("TypeError", "not callable")
        if k == "top":
            self.emit("call?", args, kw, f)
            self.havoc(args)
            return self.top("result of unknown call")
        e = self.emit("call", args, kw, f)
        if e.res is not None:
            return e.res
        return self.fresh("call:" + show(f))

    def havoc(self, args):
        pass

    def bind_params(self, a, args, kw, fr, defaults_fr, name):
        params = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        args = list(args)
        kw = dict(kw)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
        if len(args) > len(params):
            if a.vararg:
                env[a.vararg.arg] = ("tuple", tuple(args[len(params):]))
            else:
                self.throw("TypeError", "too many arguments to " + name)
        elif a.vararg:
            env[a.vararg.arg] = ("tuple", ())
        ds = a.defaults
        off = len(params) - len(ds)
        for i, p in enumerate(params):
            if p in kw:
                env[p] = kw.pop(p)
            elif p not in env:
                if i >= off:
                    env[p] = self.ev(ds[i - off], defaults_fr)
                elif "**" in kw or self.data.get("unknown_args"):
                    env[p] = self.top("argument " + p)
                else:
                    self.throw("TypeError", "missing argument " + p + " of " + name)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.ev(d, defaults_fr)
            else:
                self.throw("TypeError", "missing argument " + x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict([(C(x), y) for x, y in kw.items() if x != "**"])
        elif any(x != "**" for x in kw):
            self.throw("TypeError", "unexpected argument {} of {}".format(sorted(kw)[0], name))

    def call_func(self, f, args, kw):
        if f.qual in self.overrides:
            r = self.overrides[f.qual](self, f, args, kw)
            if r is not NotImplemented:
                return r
        if f.static and f.cls is not None and args and False:
            args = args[1:]
        self.visited.add(f.qual)
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            self.taint.append("call depth")
            return self.top("recursion")
        fr = Frame(f.module, f.cls, f)
        dfr = Frame(f.module, f.cls)
        try:
            self.bind_params(f.node.args, args, kw, fr, dfr, f.qual)
            if args:
                fr.selfv = args[0]
            if is_generator(f.node):
                return self.run_generator(f.node, fr)
            return self.run_body(f.node.body, fr)
        finally:
            self.depth -= 1

    def run_generator(self, node, fr):
        if any(
            ast.unparse(d).split(".")[-1] == "contextmanager"
            for d in getattr(node, "decorator_list", [])
        ):
            return self.alloc(OFunc(node, fr, "contextmanager"))
        out = OList()

        def hook(v):
            out.segs.append(("one", v))
            return NONE

        fr.hook = hook
        self.run_body(node.body, fr)
        return self.alloc(out)

    def run_body(self, body, fr):
        try:
            self.block(body, fr)
        except Return as r:
            return r.val
        return NONE

    def call_closure(self, o, args, kw):
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth -= 1
            self.taint.append("call depth")
            return self.top("recursion")
        p = o.frame
        fr = Frame(p.module, p.cls, p.func, p)
        fr.selfv = p.selfv
        try:
            self.bind_params(o.node.args, args, kw, fr, p, o.name)
            if isinstance(o.node, ast.Lambda):
                return self.ev(o.node.body, fr)
            if is_generator(o.node):
                return self.run_generator(o.node, fr)
            return self.run_body(o.node.body, fr)
        finally:
            self.depth -= 1

    def instantiate(self, cls, args, kw):
        key = "new:" + cls.qual
        if key in self.overrides:
            r = self.overrides[key](self, cls, args, kw)
            if r is not NotImplemented:
                return r
        chain = self.exc_chain(cls)
        if "BaseException" in chain and not cls.find("__init__") and any(
            c in EXC_PARENT or isinstance(getattr(builtins, c, None), type) or c.endswith(("Error", "Exception", "Warning", "Interrupt", "Exit")) for c in chain if "BaseException" != c
        ):
            return self.make_exc(cls, args)
        v = self.alloc(OInst(cls))
        i = cls.find("__init__")
        self.emit("new", [v], {}, None, cls.qual)
        if i:
            self.call_func(i, [v] + list(args), kw)
        elif any(is_dataclass(c) for c in cls.mro()):
            self.init_dataclass(cls, v, list(args), dict(kw))
        return v

    def init_dataclass(self, cls, v, args, kw):
        fields = {}  # name -> (class, its default)
        for c in reversed(cls.mro()):
            if not is_dataclass(c):
                continue
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    fields[s.target.id] = (c, s.value)
        o = self.deref(v)
        for n, (c, d) in fields.items():
            opts = {}
            if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                opts = {k.arg: k.value for k in d.keywords}
                d = opts.get("default")
            init = not ("init" in opts and ast.unparse(opts["init"]) == "False")
            if init and args:
                val = args.pop(0)
            elif init and n in kw:
                val = kw.pop(n)
            elif d is not None:
                val = self.ev(d, Frame(c.module, c))
            elif "default_factory" in opts:
                val = self.call(self.ev(opts["default_factory"], Frame(c.module, c)), [], {})
            else:
                self.throw("TypeError", "missing argument {} of {}".format(n, cls.qual))
            o.attrs[n] = val
        if args or any(k != "**" for k in kw):
            self.throw("TypeError", "unexpected arguments of " + cls.qual)
        post = cls.find("__post_init__")
        if post:
            self.call_func(post, [v], {})

    def call_ext(self, name, args, kw):
        from . import models

        if name in self.ext_overrides:
            r = self.ext_overrides[name](self, args, kw)
            if r is not NotImplemented:
                return r
        self.maybe_raise(name, args)
        if name.startswith("builtins."):
            n = name[9:]
            if "." in n:
                # e.g. dict.fromkeys, str.join
                t, m = n.split(".", 1)
                if t == "dict" and m == "fromkeys":
                    return self.new_dict(
                        [(x, args[1] if len(args) > 1 else NONE) for x in self.each(args[0])]
                    )
                if args:
                    return self.call_method(args[0], m, args[1:], kw)
            return self.call_builtin(n, args, kw)
        if name in self.models:
            r = self.models[name](self, args, kw)
            if r is not NotImplemented:
                return r
        if name in self.pure or name.rsplit(".", 1)[0] in models.PURE_MODULES:
            if any(a[0] == "top" for a in args):
                return self.top(name)
            return app(name, *args, *[app("kw:" + k, v) for k, v in sorted(kw.items())])
        e = self.emit(name, args, kw)
        if e.res is not None:
            return e.res
        r = self.fresh(name)
        e.res = r
        return r

    def maybe_raise(self, name, args=()):
        ex = self.raises.get(name)
        if ex:
            if callable(ex):
                ex = ex(self, args)
            k = self.choose(1 + len(ex)) if ex else 0
            if k:
                self.data.setdefault("raised", []).append((name, ex[k - 1], self.loc()))
                self.emit("raise!", [C(name), C(ex[k - 1])])
                self.throw(ex[k - 1], name)

    def call_method(self, recv, name, args, kw):
        if recv[0] == "meth":
            recv = self.force(recv)
        # an attribute that holds a callable
        key = (recv, name)
        if key in self.data.get("attrs", {}):
            return self.call(self.data["attrs"][key], args, kw)
        if recv[0] == "ext":
            return self.call_ext(recv[1] + "." + name, args, kw)
        if name in self.quiet_methods and recv[0] in ("res", "sym", "app", "top"):
            return NONE
        from . import models

        r = models.method(self, recv, name, list(args), dict(kw))
        if r is not NotImplemented:
            return r
        if recv[0] in ("sym", "app", "res"):
            t = self.types_of(recv)
            if t is not None and t and t <= DATATYPES:
                ok = {x for x in t if hasattr(DATACLS[x], name)}
                if not ok:
                    self.throw("AttributeError", name)
                if ok != t and not self.type_test(recv, ok):
                    self.throw("AttributeError", name)
        if name in self.pure_methods and not (name == "find" and (not args or args[0][0] == "obj")):
            if recv[0] == "top" or any(a[0] == "top" for a in args):
                return self.top("." + name)
            return app("." + name, recv, *args, *[app("kw:" + k, v) for k, v in sorted(kw.items())])
        self.maybe_raise("." + name, args)
        e = self.emit("." + name, args, kw, recv)
        if e.res is not None:
            return e.res
        if recv[0] == "top":
            return self.top("result of ." + name)
        r = self.fresh("." + name)
        e.res = r
        return r

    def call_builtin(self, name, args, kw):
        from . import models

        f = models.BUILTINS.get(name)
        if f is not None:
            r = f(self, args, kw)
            if r is not NotImplemented:
                return r
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return self.make_exc(("pyexc", name), args)
        e = self.emit(name, args, kw)
        return e.res if e.res is not None else self.fresh(name)

    # -- statements ------------------------------------------------------

    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Prune("too many steps")
        self.stack.append((fr, s))
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                self.taint.append("statement " + type(s).__name__)
                return
            m(s, fr)
        finally:
            self.stack.pop()

    def s_Pass(self, s, fr):
        pass

    s_Import = None

    def bind(self, name, v, fr):
        if name in fr.globals_:
            self.globals_cache[(fr.module.name, name)] = v
        else:
            fr.env[name] = v

    def s_Import(self, s, fr):
        for a in s.names:
            self.need(a.name)
            if a.asname:
                self.bind(a.asname, self.resolved(
                    self.repo.resolve_dotted(a.name), None, NONE, a.name
                ), fr)
            else:
                n = a.name.split(".")[0]
                self.bind(n, self.resolved(self.repo.resolve_dotted(n), None, NONE, n), fr)

    def s_ImportFrom(self, s, fr):
        base = fr.module.rel(s.level, s.module)
        for a in s.names:
            dotted = base + "." + a.name if base else a.name
            self.need(dotted)
            self.bind(a.asname or a.name, self.resolved(
                self.repo.resolve_dotted(dotted), None, NONE, a.name,
            ), fr)

    def s_Global(self, s, fr):
        fr.globals_.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else NONE)

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = self.alloc(OFunc(s, fr, s.name))

    def s_ClassDef(self, s, fr):
        from .front import ClassInfo, FuncInfo

        c = ClassInfo(s.name, s, fr.module)
        for b in c.base_exprs:
            r = self.repo.static_resolve(fr.module, b)
            c.bases.append(r[1] if r and r[0] == "class" else ast.unparse(b))
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                c.methods[x.name] = FuncInfo(x.name, x, fr.module, c)
        fr.env[s.name] = ("cls", c)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw("AssertionError")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr)
                o = self.deref(b)
                if o is not None and o.kind == "inst":
                    o.attrs.pop(t.attr, None)
                self.emit("delattr", [b, C(t.attr)])

    def s_Assign(self, s, fr):
        self.data.pop("len of list", None)
        v = self.ev(s.value, fr)
        n = s.targets[0].id if isinstance(s.targets[0], ast.Name) else None
        if n is not None:
            fr.counts.discard(n)
            if self.counts(s.value, fr) or (isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1):
                fr.counts.add(n)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = BINOP.get(type(s.op), "?")
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            new = self.aug(op, old, self.ev(s.value, fr))
            if op == "+" and isinstance(s.value, ast.Constant) and s.value.value == 1:
                fr.counts.add(t.id)
            self.assign(t, new, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            old = self.force(self.getattr_(b, t.attr))
            self.setattr_(b, t.attr, self.aug(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            old = self.getitem(b, i)
            self.setitem(b, i, self.aug(op, old, self.ev(s.value, fr)))

    def aug(self, op, old, new):
        o = self.deref(old)
        if op == "+" and o is not None and o.kind == "list":
            self.call_method(old, "extend", [new], {})
            return old
        if op == "|" and o is not None and o.kind == "dict":
            self.call_method(old, "update", [new], {})
            return old
        return self.binop(op, old, new)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.globals_cache[(fr.module.name, t.id)] = v
                self.emit("setglobal", [C(fr.module.name + "." + t.id), v])
                return
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.env:
                    f = f.parent
                f = f or fr
            f.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                o = self.deref(b)
                if o is not None and o.kind == "list" and t.slice.lower is None and t.slice.upper is None:
                    o.segs = self.segs(v)
                    self.emit("list.assign", [b, v])
                    return
                self.emit("setslice", [b, v])
                if o is not None:
                    self.taint.append("slice assignment")
                return
            self.setitem(b, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = None
            if v[0] == "tuple":
                vals = list(v[1])
            elif v[0] == "obj":
                o = self.deref(v)
                if o.kind == "list" and all(s[0] == "one" for s in o.segs):
                    vals = [s[1] for s in o.segs]
                elif o.kind == "dict" and o.rest is None:
                    vals = [e[0] for e in o.entries]
            elif v[0] == "const" and isinstance(v[2], (str, tuple)):
                vals = [C(x) for x in v[2]]
            if star:
                i = star[0]
                if vals is not None and len(vals) >= n - 1:
                    after = n - 1 - i
                    mid = vals[i: len(vals) - after]
                    for x, y in zip(t.elts[:i], vals[:i]):
                        self.assign(x, y, fr)
                    self.assign(t.elts[i].value, self.new_list(mid), fr)
                    for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                        self.assign(x, y, fr)
                    return
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.top("unpack"), fr)
                return
            if vals is not None:
                if len(vals) != n:
                    self.throw("ValueError", "unpack")
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, fr)
                return
            if v[0] == "const":
                self.throw("TypeError", "cannot unpack")
            for i, x in enumerate(t.elts):
                self.assign(x, self.top("unpack") if v[0] == "top" else app("item", v, C(i)), fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.WHILE_CAP:
                self.data["capped"] = True
                raise Prune("loop bound")
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue

    def s_For(self, s, fr):
        it = self.iter_call(s.iter, fr)
        if it is not None:
            # a generator of the repository: its body drives ours
            node, gfr = it

            def hook(v):
                self.assign(s.target, v, fr)
                try:
                    self.block(s.body, fr)
                except Continue:
                    pass
                except Signal as e:
                    x = GenExit()
                    x.inner = e
                    raise x
                return NONE

            gfr.hook = hook
            try:
                self.run_body(node.body, gfr)
            except GenExit as x:
                if isinstance(x.inner, Break):
                    return
                raise x.inner
            self.block(s.orelse, fr)
            return
        v = self.ev(s.iter, fr)
        v = self.force(v)
        if isinstance(s.target, ast.Tuple) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "enumerate" and isinstance(s.target.elts[0], ast.Name):
            fr.counts.add(s.target.elts[0].id)
        for x in self.each_live(v):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, fr)

    def iter_call(self, expr, fr):
        """(generator node, frame) if expr calls a generator function"""
        if not isinstance(expr, ast.Call):
            return None
        f = None
        try:
            r = None
            if isinstance(expr.func, ast.Name):
                x = self.try_lookup(expr.func.id, fr)
                if x is not None and x[0] == "fn":
                    f, pre = x[1], []
                elif x is not None and x[0] == "obj" and self.deref(x).kind == "func":
                    o = self.deref(x)
                    if not isinstance(o.node, ast.Lambda) and is_generator(o.node):
                        args, kw = self.ev_args(expr, fr)
                        g = Frame(o.frame.module, o.frame.cls, o.frame.func, o.frame)
                        self.bind_params(o.node.args, args, kw, g, o.frame, o.name)
                        return o.node, g
                    return None
                else:
                    return None
            elif isinstance(expr.func, ast.Attribute) and isinstance(expr.func.value, ast.Name):
                b = self.try_lookup(expr.func.value.id, fr)
                if b is None or b[0] not in ("obj", "mod", "cls"):
                    return None
                if b[0] == "obj" and self.deref(b).kind != "inst":
                    return None
                if b[0] == "obj":
                    o = self.deref(b)
                    if isinstance(o.cls, tuple) or o.cls is None or expr.func.attr in o.attrs:
                        return None
                    m = o.cls.find(expr.func.attr)
                    if m is None or m.prop:
                        return None
                    f, pre = m, ([] if m.static else [b])
                else:
                    x = self.getattr_(b, expr.func.attr)
                    if x[0] != "fn":
                        return None
                    f, pre = x[1], []
        except Signal:
            return None
        if f is None or not is_generator(f.node) or f.qual in self.overrides:
            return None
        args, kw = self.ev_args(expr, fr)
        g = Frame(f.module, f.cls, f)
        self.bind_params(f.node.args, pre + args, kw, g, Frame(f.module, f.cls), f.qual)
        if pre:
            g.selfv = pre[0]
        return f.node, g

    def s_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        v = self.ev(it.context_expr, fr)
        v = self.force(v)
        o = self.deref(v)
        rest = items[1:]
        if o is not None and o.kind == "func" and o.name == "contextmanager":
            done = []

            def hook(y):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, y, fr)
                try:
                    self.with_items(rest, body, fr)
                except (Return, Break, Continue) as e:
                    done.append(e)
                return NONE

            o.frame.hook = hook
            self.run_body(o.node.body, o.frame)
            if done:
                raise done[0]
            return
        if o is not None and o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None and o.cls.find("__enter__"):
            ent = self.call(("bound", v, o.cls.find("__enter__")), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, fr)
            ex = o.cls.find("__exit__")
            try:
                self.with_items(rest, body, fr)
            except PyExc as e:
                r = NONE
                if ex:
                    r = self.call(("bound", v, ex), [app("type", e.val), e.val, NONE], {})
                if self.truth(r):
                    return
                raise
            except Signal:
                if ex:
                    self.call(("bound", v, ex), [NONE, NONE, NONE], {})
                raise
            if ex:
                self.call(("bound", v, ex), [NONE, NONE, NONE], {})
            return
        if v[0] == "app" and v[1] == "suppress":
            try:
                self.with_items(rest, body, fr)
            except PyExc as e:
                if not any(self.exc_matches(e.val, t) for t in v[2:]):
                    raise
            return
        self.emit("enter", [v])
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        if v == S("dbconn") and not self.data.get("connection closes"):
            # a transaction
            try:
                self.with_items(rest, body, fr)
            except PyExc:
                self.call_method(v, "rollback", [], {})
                raise
            except Signal:
                self.call_method(v, "commit", [], {})
                raise
            self.call_method(v, "commit", [], {})
            return
        try:
            self.with_items(rest, body, fr)
        except PyExc:
            self.emit("exit!", [v])
            raise
        except Signal:
            self.emit("exit", [v])
            raise
        self.emit("exit", [v])

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is not None:
                raise PyExc(f.exc)
            # re-raise from a helper: nearest active exception
            for g, _ in reversed(self.stack):
                if g.exc is not None:
                    raise PyExc(g.exc)
            self.throw("RuntimeError", "no active exception")
        v = self.ev(s.exc, fr)
        if v[0] in ("bi", "cls", "ext"):
            if v[0] == "ext":
                v = self.make_exc(("pyexc", v[1]))
            else:
                v = self.call(v, [], {})
        if v[0] != "obj":
            v = self.make_exc(("pyexc", "Exception"), [v])
        self.emit("raise", [v])
        raise PyExc(v)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                self.handle(s, e, fr)
            else:
                self.block(s.orelse, fr)
        except Stop:
            raise
        except Signal:
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def handle(self, s, e, fr):
        for h in s.handlers:
            if h.type is None or self.exc_matches(e.val, self.ev(h.type, fr)):
                if h.name:
                    self.bind(h.name, e.val, fr)
                old = fr.exc
                fr.exc = e.val
                self.emit("caught", [e.val])
                try:
                    self.block(h.body, fr)
                finally:
                    fr.exc = old
                if h.name:
                    fr.env.pop(h.name, None)
                    if h.name in fr.globals_:
                        self.globals_cache.pop((fr.module.name, h.name), None)
                return
        raise e

    def s_Match(self, s, fr):
        v = self.evf(s.subject, fr)
        for c in s.cases:
            if self.match_pattern(c.pattern, v, fr) and (
                c.guard is None or self.truth(self.ev(c.guard, fr))
            ):
                self.block(c.body, fr)
                return

    def match_pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.compare_vals("==", v, self.ev(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.compare_vals("is", v, C(p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, fr):
                return False
            if p.name:
                fr.env[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence):
            xs = None
            o = self.deref(v)
            if v[0] == "tuple":
                xs = list(v[1])
            elif o is not None and o.kind == "list" and all(g[0] == "one" for g in o.segs):
                if o.typ not in ("list", "deque"):
                    return False
                xs = [g[1] for g in o.segs]
            elif is_const(v) or v[0] == "str" or o is not None and o.kind == "dict":
                return False
            if xs is not None:
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                if not star:
                    return len(xs) == len(p.patterns) and all(self.match_pattern(q, x, fr) for q, x in zip(p.patterns, xs))
                i, m = star[0], len(p.patterns) - 1
                if len(xs) < m:
                    return False
                j = len(xs) - (m - i)
                if p.patterns[i].name:
                    fr.env[p.patterns[i].name] = self.new_list(xs[i:j])
                return all(self.match_pattern(q, x, fr) for q, x in zip(p.patterns[:i] + p.patterns[i + 1:], xs[:i] + xs[j:]))
        if isinstance(p, ast.MatchClass) and not p.kwd_patterns and len(p.patterns) <= 1:
            c = self.ev(p.cls, fr)
            if not p.patterns or c[0] == "bi":
                if not self.isinstance_(v, c):
                    return False
                return not p.patterns or self.match_pattern(p.patterns[0], v, fr)
        if isinstance(p, ast.MatchMapping):
            if not self.isinstance_(v, ("bi", "dict")):
                return False
            keys = [self.ev(k, fr) for k in p.keys]
            for k, q in zip(keys, p.patterns):
                if not self.contains(v, k) or not self.match_pattern(q, self.force(self.getitem(v, k)), fr):
                    return False
            if p.rest:
                r = self.call_method(v, "copy", [], {})
                for k in keys:
                    self.call_method(r, "pop", [k], {})
                fr.env[p.rest] = r
            return True
        self.taint.append("match pattern")
        return bool(self.choose(2))

    # -- expressions -----------------------------------------------------

    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.taint.append("expression " + type(n).__name__)
            return self.top(type(n).__name__)
        if isinstance(n, ast.Attribute):
            return self.force_plain(m(n, fr))
        return m(n, fr)

    def force_plain(self, v):
        return v

    def evf(self, n, fr):
        return self.force(self.ev(n, fr))

    def e_Constant(self, n, fr):
        return C(n.value)

    def try_lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env and name not in fr.globals_:
                return f.env[name]
            f = f.parent
        key = (fr.module.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        r = self.repo.resolve_global(fr.module, name)
        if r is not None:
            return self.resolved(r, None, NONE, name)
        if name == "__package__":
            return C(fr.module.name if fr.module.is_pkg else fr.module.name.rpartition(".")[0])
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if b is None or b is True or b is False:
                return C(b)
            return ("bi", name)
        return None

    def lookup(self, name, fr):
        v = self.try_lookup(name, fr)
        if v is None:
            if name in ("__name__", "__file__"):
                return C(fr.module.name) if name == "__name__" else S("__file__")
            if fr.func is not None:
                # a local that this path has not bound
                self.throw("UnboundLocalError", name)
            return self.top("name " + name)
        return v

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        b = self.ev(n.value, fr)
        b = self.force(b)
        return self.getattr_(b, n.attr)

    def e_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.evf(x.value, fr)
                out.extend(self.each(v))
            else:
                out.append(self.evf(x, fr))
        return ("tuple", tuple(out))

    def e_List(self, n, fr):
        o = OList()
        for x in n.elts:
            if isinstance(x, ast.Starred):
                o.segs.extend(self.segs(self.evf(x.value, fr)))
            else:
                o.segs.append(("one", self.evf(x, fr)))
        return self.alloc(o)

    def e_Set(self, n, fr):
        v = self.e_List(n, fr)
        self.deref(v).typ = "set"
        return v

    def e_Dict(self, n, fr):
        v = self.new_dict()
        o = self.deref(v)
        for k, x in zip(n.keys, n.values):
            if k is None:
                self.call_method(v, "update", [self.evf(x, fr)], {})
            else:
                kv = self.evf(k, fr)
                xv = self.evf(x, fr)
                for e in o.entries:
                    if self.eq_known(e[0], kv):
                        e[1] = xv
                        break
                else:
                    o.entries.append([kv, xv])
        return v

    def e_BoolOp(self, n, fr):
        v = None
        for i, x in enumerate(n.values):
            v = self.evf(x, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And):
                if not t:
                    return v
            elif t:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.evf(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return C(not self.truth(v))
        if isinstance(n.op, ast.USub):
            if v[0] == "top":
                return v
            return lin_scale(v, -1)
        if isinstance(n.op, ast.UAdd):
            return v
        if is_num(v):
            return C(~cval(v))
        return app("~", v)

    def e_BinOp(self, n, fr):
        a = self.evf(n.left, fr)
        b = self.evf(n.right, fr)
        return self.binop(BINOP.get(type(n.op), "?"), a, b)

    def is_strlike(self, v):
        return (
            v[0] == "str"
            or (is_const(v) and isinstance(v[2], str))
            or self.kinds.get(v) == "str"
            or self.types_of(v) == {"str"}
        )

    def binop(self, op, a, b):
        if a[0] == "top" or b[0] == "top":
            return self.top("arithmetic on unknown")
        if self.data.get("zones"):
            zs = [x[3] for x in (a, b) if x[:2] == ("app", "tz")]
            if zs:
                r = self.binop(op, self.unzone(a), self.unzone(b))
                return app("tz", r, zs[0]) if len(zs) == 1 and r[0] in ("lin", "sym") else r
        if self.data.get("clock"):
            r = clock.binop(self, op, a, b)
            if r is not None:
                return r
        if op == "%" and self.is_strlike(a):
            return self.percent_format(a, b)
        if op == "/" and self.data.get("pathlib") and self.is_strlike(a):
            return self.call_ext("os.path.join", [a, b], {})
        if is_const(a) and is_const(b):
            try:
                return C(CONST_OPS[op](a[2], b[2]))
            except ZeroDivisionError:
                self.throw("ZeroDivisionError", "division by zero")
            except TypeError:
                self.throw("TypeError", "operand types")
            except Exception:
                return self.top("constant arithmetic")
        oa, ob = self.deref(a), self.deref(b)
        if op == "+":
            if oa is not None and oa.kind == "list" or ob is not None and ob.kind == "list":
                if a[0] == "const" or b[0] == "const":
                    self.throw("TypeError", "list + other")
                return self.alloc(OList(self.segs(a) + self.segs(b)))
            if a[0] == "tuple" and b[0] == "tuple":
                return ("tuple", a[1] + b[1])
            if self.is_strlike(a) or self.is_strlike(b):
                for x in (a, b):
                    if not self.is_strlike(x):
                        t = self.types_of(x)
                        if x == NONE or x[0] == "lin" or (t is not None and "str" not in t):
                            self.throw("TypeError", "can only concatenate str")
                return make_str([a, b])
            if self.checked_num(a) and self.checked_num(b):
                return lin_add(a, b)
        if op == "-":
            if oa is not None or ob is not None:
                return self.set_op(op, a, b)
            if self.checked_num(a) and self.checked_num(b):
                return lin_add(a, b, -1)
        if op == "*":
            if is_num(a) and not self.is_strlike(b) and ob is None and b[0] != "tuple":
                return lin_scale(b, cval(a))
            if is_num(b) and not self.is_strlike(a) and oa is None and a[0] != "tuple":
                return lin_scale(a, cval(b))
            if oa is not None and oa.kind == "list":
                if is_num(b):
                    return self.alloc(OList(oa.segs * max(0, int(cval(b)))))
                return self.alloc(OList([("many", "rep:" + show(b), oa.segs[0][1] if oa.segs else NONE, None)]))
            if a[0] == "tuple" and is_num(b):
                return ("tuple", a[1] * int(cval(b)))
            if a[0] == "tuple":
                return app("repeat", a, b)
        if op == "/" and is_num(b) and cval(b) != 0:
            return lin_scale(a, 1.0 / cval(b)) if a[0] != "obj" else self.top("/")
        if op == "|" and (oa is not None and oa.kind == "dict"):
            n = self.new_dict([tuple(e) for e in oa.entries], oa.rest)
            self.call_method(n, "update", [b], {})
            return n
        if op in ("&", "|", "^") and (oa is not None or ob is not None):
            return self.set_op(op, a, b)
        if op in ("&", ">>", "%", "//", "<<", "|"):
            r = self.bitop(op, a, b)
            if r is not None:
                return r
        if op in ("/", "//", "%") and is_num(b) and cval(b) == 0 and not self.is_strlike(a):
            self.throw("ZeroDivisionError", "division by zero")
        if op in ("/", "//", "%") and not self.cmp_known("!=", b, C(0)):
            if self.numeric(b) and "ZeroDivisionError" in self.raises.get("arith", ()):
                if self.compare_vals("==", b, C(0)):
                    self.throw("ZeroDivisionError", "division by zero")
        return app(op, a, b)

    def checked_num(self, v):
        if v[0] == "const" and not isinstance(v[2], (int, float)):
            self.throw("TypeError", "unsupported operand")
        return v[0] not in ("tuple",)

    def set_op(self, op, a, b):
        sa, sb = self.segs(a), self.segs(b)
        if all(s[0] == "one" for s in sa + sb):
            xs, ys = [s[1] for s in sa], [s[1] for s in sb]
            if op == "-":
                out = [x for x in xs if not any(self.eq(x, y) for y in ys)]
            elif op == "&":
                out = [x for x in xs if any(self.eq(x, y) for y in ys)]
            elif op == "^":
                out = [x for x in xs if not any(self.eq(x, y) for y in ys)]
                out += [y for y in ys if not any(self.eq(x, y) for x in xs)]
            else:
                out = xs + [y for y in ys if not any(self.eq(x, y) for x in xs)]
            return self.new_list(out, "set")
        return self.top("set operation")

    def bitop(self, op, a, b):
        """exact on values made of disjoint bit fields"""
        if not is_num(b):
            if is_num(a) and op in ("&", "|"):
                return self.bitop(op, b, a)
            return None
        k = int(cval(b))
        if op in ("|", "&") and k >= 0 and k & (k + 1) == 0 and self.integral(a):
            r = self.rng(a)
            if r[0] >= 0 and r[1] <= k:
                return C(k) if op == "|" else a
        fields = self.bitfields(a)
        if fields is None:
            if op == "<<":
                return lin_scale(a, 2 ** k)
            if op == "&" and k == 0:
                return C(0)
            return None
        if op == "<<":
            return lin_scale(a, 2 ** k)
        if op == "|":
            mask = k
            used = 0
            for v, sh, w in fields:
                used |= ((1 << w) - 1) << sh
            if used & mask == 0:
                return lin_add(a, C(k))
            return None
        if op in ("%", "//"):
            if k <= 0 or k & (k - 1):
                return None
            sh = k.bit_length() - 1
            op, k = ("&", k - 1) if op == "%" else (">>", sh)
        out = C(0)
        if op == ">>":
            for v, sh, w in fields:
                if sh >= k:
                    out = lin_add(out, lin_scale(v, 2 ** (sh - k)))
                elif sh + w > k:
                    return None
            return out
        if op == "&":
            for v, sh, w in fields:
                fm = ((1 << w) - 1) << sh
                if fm & k == fm:
                    out = lin_add(out, lin_scale(v, 2 ** sh))
                elif fm & k:
                    return None
            return out
        return None

    def bitfields(self, v):
        c, t = lin_parts(v)
        if not isinstance(c, int) or c < 0:
            return None
        out = []
        used = 0
        for a, k in t.items():
            if not isinstance(k, int) or k <= 0 or k & (k - 1):
                return None
            r = self.atom_range(a)
            if r[0] < 0 or r[1] == self.INF:
                return None
            w = max(1, int(r[1]).bit_length())
            sh = k.bit_length() - 1
            m = ((1 << w) - 1) << sh
            if used & m:
                return None
            used |= m
            out.append((a, sh, w))
        i = 0
        while c:
            if c & 1:
                if used & (1 << i):
                    return None
                out.append((C(1), i, 1))
            c >>= 1
            i += 1
        return out

    def percent_format(self, a, b):
        if is_const(a):
            import re

            args = list(b[1]) if b[0] == "tuple" else [b]
            parts, pos, i = [], 0, 0
            for m in re.finditer(r"%(?:\((\w+)\))?[-#0 +]*\d*(?:\.\d+)?([sdrfiouxXeEgGc%])", a[2]):
                parts.append(C(a[2][pos:m.start()]))
                pos = m.end()
                if m.group(2) == "%":
                    parts.append(C("%"))
                elif m.group(1):
                    parts.append(self.tostr(self.getitem(b, C(m.group(1)))))
                else:
                    if i >= len(args):
                        self.throw("TypeError", "format arguments")
                    parts.append(self.tostr(args[i]))
                    i += 1
            parts.append(C(a[2][pos:]))
            return make_str(parts)
        return self.top("% format")

    def tostr(self, v):
        if is_const(v):
            return C(str(v[2]))
        if v[0] == "str":
            return v
        if v[0] == "top":
            return v
        if self.is_strlike(v):
            return v
        return ("str", (v,))

    def bound(self, v, n):
        """the bound v (a constant) of something which has n elements"""
        if not is_const(v) or type(v[2]) is not int or abs(v[2]) < BOUND or n < 1 or abs(v[2]) < n:
            return v
        self.unreached.add("{} at {}".format(v[2], self.loc()))
        if not self.lowered:
            return v
        return C(1 if v[2] > 0 else -1)

    def counts(self, e, fr):
        """is e the number of elements of a list"""
        if isinstance(e, ast.Name):
            return e.id in fr.counts
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and self.data.pop("len of list", False)

    def e_Compare(self, n, fr):
        self.data.pop("len of list", None)
        a = self.evf(n.left, fr)
        ca = self.counts(n.left, fr)
        for op, r in zip(n.ops, n.comparators):
            b = self.evf(r, fr)
            cb = self.counts(r, fr)
            if ca and is_const(a) and type(a[2]) is int and not cb:
                b = self.bound(b, a[2])
            elif cb and is_const(b) and type(b[2]) is int and not ca:
                a = self.bound(a, b[2])
            ca = cb
            if not self.compare_vals(CMP[type(op)], a, b):
                return FALSE
            a = b
        return TRUE

    def e_IfExp(self, n, fr):
        return self.evf(n.body if self.truth(self.evf(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.evf(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Lambda(self, n, fr):
        return self.alloc(OFunc(n, fr, "<lambda>"))

    def e_JoinedStr(self, n, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                v = self.evf(x.value, fr)
                if x.conversion == ord("r"):
                    parts.append(app("repr", v))
                elif x.format_spec is not None:
                    parts.append(app("format", v, self.ev(x.format_spec, fr)))
                else:
                    parts.append(self.tostr(v))
        if any(p[0] == "top" for p in parts):
            return self.top("f-string")
        return make_str(parts)

    def e_FormattedValue(self, n, fr):
        return self.tostr(self.evf(n.value, fr))

    def ev_index(self, n, fr):
        if isinstance(n, ast.Slice):
            return app(
                "slice",
                *[self.evf(x, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
            )
        return self.evf(n, fr)

    def e_Slice(self, n, fr):
        return self.ev_index(n, fr)

    def e_Subscript(self, n, fr):
        b = self.evf(n.value, fr)
        i = self.ev_index(n.slice, fr)
        if i[0] == "app" and i[1] == "slice":
            return self.getslice(b, i)
        items = self.data.get("items", {})
        if (b, i) in items:
            return items[(b, i)]
        return self.getitem(b, i)

    def getslice(self, b, i):
        lo, hi, st = i[2:]
        consts = all(is_const(x) for x in (lo, hi, st))
        if b[0] == "const" and consts:
            return C(b[2][slice(lo[2], hi[2], st[2])])
        if b[0] == "tuple" and consts:
            return ("tuple", b[1][slice(lo[2], hi[2], st[2])])
        o = self.deref(b)
        if o is not None and o.kind == "list":
            if (lo, hi, st) == (NONE, NONE, NONE):
                return self.as_list(b)
            if all(s[0] == "one" for s in o.segs) and consts:
                lo, hi = (self.bound(x, len(o.segs)) for x in (lo, hi))
                n = OList(o.segs[slice(lo[2], hi[2], st[2])])
                n.order = o.order
                return self.alloc(n)
            if consts:
                n = OList([("many", "slice:" + str(s[1]), s[2] if len(s) > 2 else self.elem(s, 0)) if s[0] == "many" else s for s in o.segs])
                n.order = o.order
                return self.alloc(n)
            return self.top("slice")
        if b[0] == "top":
            return b
        if b[0] == "str" and consts and st == NONE and len(b) == 2:
            # within the known parts at its ends
            ps = list(b[1])
            first, last = (x[2] if is_const(x) and isinstance(x[2], str) else "" for x in (ps[0], ps[-1]))
            lo_, hi_ = lo[2] or 0, hi[2]
            if lo_ < 0 and -lo_ <= len(last) and (hi_ is None or hi_ < 0):
                return C(last[lo_:hi_])
            if hi_ is not None and 0 <= lo_ <= hi_ <= len(first):
                return C(first[lo_:hi_])
            if 0 <= lo_ <= len(first) and (hi_ is None or hi_ < 0 and -hi_ <= len(last)):
                if len(ps) > 1:
                    ps[0] = C(first[lo_:]) if first else ps[0]
                    ps[-1] = C(last[:hi_]) if last else ps[-1]
                    return make_str(ps)
        v = app("slice", b, lo, hi, st)
        if self.is_strlike(b):
            self.kinds[v] = "str"
        return v

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def ev_args(self, n, fr):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.evf(a.value, fr)
                args.extend(self.each(v))
            else:
                args.append(self.evf(a, fr))
        for k in n.keywords:
            v = self.evf(k.value, fr)
            if k.arg is None:
                o = self.deref(v)
                if o is not None and o.kind == "dict":
                    for x, y in o.entries:
                        if is_const(x):
                            kw[x[2]] = y
                    if o.rest is not None:
                        kw["**"] = v
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def e_Call(self, n, fr):
        # super()
        if (
            isinstance(n.func, ast.Attribute)
            and isinstance(n.func.value, ast.Call)
            and isinstance(n.func.value.func, ast.Name)
            and n.func.value.func.id == "super"
        ):
            return self.call_super(n, fr)
        f = self.ev(n.func, fr)
        args, kw = self.ev_args(n, fr)
        self.stack.append((fr, n))
        try:
            if f[0] == "meth" and f[1][0] == "obj" and self.deref(f[1]).kind == "inst":
                # method of an external base class
                e = self.emit("." + f[2], args, kw, f[1])
                if e.res is None:
                    e.res = self.fresh("." + f[2])
                return e.res
            return self.call(f, args, kw, n, fr)
        finally:
            self.stack.pop()

    def call_super(self, n, fr):
        from .front import ClassInfo

        args, kw = self.ev_args(n, fr)
        f = fr
        while f is not None and f.func is None:
            f = f.parent
        selfv = fr.selfv
        cls = fr.cls
        name = n.func.attr
        o = self.deref(selfv) if selfv is not None else None
        if o is not None and isinstance(o.cls, ClassInfo) and cls is not None:
            mro = o.cls.mro()
            if cls in mro:
                for c in mro[mro.index(cls) + 1:]:
                    if name in c.methods:
                        return self.call(("bound", selfv, c.methods[name]), args, kw)
        self.stack.append((fr, n))
        try:
            e = self.emit("super." + name, args, kw, selfv)
        finally:
            self.stack.pop()
        return e.res if e.res is not None else NONE

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_SetComp(self, n, fr):
        return self.comp(n, fr, "set")

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, "generator")

    def e_DictComp(self, n, fr):
        v = self.new_dict()
        o = self.deref(v)

        def leaf(f, many):
            k = self.evf(n.key, f)
            x = self.evf(n.value, f)
            if many:
                o.rest = "comp:" + many
                return
            for e in o.entries:
                if self.eq_known(e[0], k):
                    e[1] = x
                    return
            o.entries.append([k, x])

        self.comp_loop(n.generators, 0, fr, None, leaf)
        return v

    def comp(self, n, fr, typ):
        o = OList((), typ)

        def leaf(f, many):
            before = len(self.decisions)
            v = self.evf(n.elt, f)
            if many:
                o.segs.append(("many", many, v))
            else:
                o.segs.append(("one", v))

        self.comp_loop(n.generators, 0, fr, None, leaf)
        return self.alloc(o)

    def comp_loop(self, gens, i, fr, many, leaf):
        if i == len(gens):
            leaf(fr, many)
            return
        g = gens[i]
        it = self.evf(g.iter, fr)
        for tok, x in self.comp_segs(it):
            f = Frame(fr.module, fr.cls, fr.func, fr)
            f.selfv = fr.selfv
            self.assign(g.target, x, f)
            m = many
            if tok is not None:
                m = (many + "*" if many else "") + str(tok)
            ok = True
            for c in g.ifs:
                if tok is None:
                    if not self.truth(self.evf(c, f)):
                        ok = False
                        break
                else:
                    v = self.evf_filter(c, f)
                    if v is False:
                        ok = False
                        break
                    if v is None:
                        m = m + "|" + ast.unparse(c)
            if ok:
                self.comp_loop(gens, i + 1, f, m, leaf)

    def evf_filter(self, c, f):
        """condition of a filter over a summary element: True, False or None
        (some pass, some do not)"""
        saved_facts = dict(self.facts)
        pos = len(self.taken)
        v = self.truth(self.evf(c, f))
        if len(self.taken) == pos:
            return v
        # undetermined: partition on none / some passing
        return None if v else False

    def e_Yield(self, n, fr):
        v = self.evf(n.value, fr) if n.value is not None else NONE
        f = fr
        while f is not None and f.hook is None:
            f = f.parent
        if f is not None:
            return f.hook(v) or NONE
        return NONE

    def e_YieldFrom(self, n, fr):
        v = self.evf(n.value, fr)
        f = fr
        while f is not None and f.hook is None:
            f = f.parent
        if f is not None:
            for x in self.each(v):
                f.hook(x)
        return NONE

    def e_Await(self, n, fr):
        return self.ev(n.value, fr)


def show_key(key):
    return " ".join(show(x) if isinstance(x, tuple) else str(x) for x in key)


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    if hasattr(node, "_isgen"):
        return node._isgen
    out = False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            out = True
            break
        todo.extend(ast.iter_child_nodes(x))
    node._isgen = out
    return out


import operator as _op

CONST_OPS = {
    "+": _op.add, "-": _op.sub, "*": _op.mul, "/": _op.truediv, "//": _op.floordiv,
    "%": _op.mod, "**": _op.pow, "<<": _op.lshift, ">>": _op.rshift, "&": _op.and_,
    "|": _op.or_, "^": _op.xor,
}

DATACLS = {
    "dict": dict, "list": list, "str": str, "int": int, "float": float,
    "bool": bool, "NoneType": type(None),
}
DATATYPES = frozenset(DATACLS)
ANYDATA = frozenset(DATACLS)
