"""Abstract transfer functions of the library."""
import os
import re
import shlex
import signal
import string

from . import clock
from .values import *  # noqa: F401,F403
from .values import C, S, app, NONE, TRUE, FALSE

EXT_CONST = {
    "os.devnull": os.devnull, "os.sep": "/", "os.path.sep": "/", "os.linesep": "\n",
    "string.digits": string.digits, "string.ascii_letters": string.ascii_letters,
    "os.WNOHANG": 1, "os.F_OK": 0, "os.R_OK": 4, "os.W_OK": 2, "os.X_OK": 1,
    "sys.maxsize": 2 ** 63 - 1, "builtins.None": None, "builtins.True": True,
    "os.curdir": ".", "os.pardir": "..", "os.extsep": ".",
    "os.O_RDONLY": os.O_RDONLY, "os.O_WRONLY": os.O_WRONLY, "os.O_CREAT": os.O_CREAT,
    "os.O_RDWR": os.O_RDWR, "os.O_TRUNC": os.O_TRUNC, "os.O_APPEND": os.O_APPEND,
    "os.O_EXCL": os.O_EXCL, "os.O_CLOEXEC": os.O_CLOEXEC,
    "subprocess.DEVNULL": -3, "subprocess.PIPE": -1, "subprocess.STDOUT": -2,
}
for _s in signal.Signals:
    EXT_CONST["signal." + _s.name] = int(_s)
    EXT_CONST["signal.Signals." + _s.name] = int(_s)

for _f in ("I", "IGNORECASE", "A", "ASCII", "M", "MULTILINE", "S", "DOTALL", "U", "UNICODE", "X", "VERBOSE"):
    EXT_CONST["re." + _f] = int(getattr(re, _f))

SIGNAMES = {int(_s): _s.name for _s in signal.Signals}

PURE = {
    "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.islink",
    "os.path.lexists", "os.path.expanduser", "os.path.abspath", "os.path.realpath",
    "os.path.dirname", "os.path.basename", "os.path.splitext", "os.path.normpath",
    "os.path.getsize", "os.path.isabs", "os.path.relpath", "os.path.split",
    "os.getpid", "os.getuid", "os.geteuid", "os.access", "os.listdir", "os.cpu_count",
    "json.dumps", "json.loads", "binascii.crc32", "zlib.crc32", "shlex.quote",
    "shlex.split", "shlex.join", "pwd.getpwuid", "html.escape", "locale.getlocale",
    "sys.stdout.isatty", "uuid.UUID", "os.environ.copy", "os.getenv", "os.uname",
    "urllib.parse.parse_qs", "urllib.parse.quote", "urllib.parse.quote_plus", "operator.itemgetter", "operator.attrgetter",
    "dateutil.tz.gettz", "dateutil.tz.tzlocal", "zoneinfo.ZoneInfo", "fnmatch.fnmatch",
    "re.compile", "re.match", "re.search", "re.fullmatch", "re.escape", "re.sub",
    "re.split", "re.findall", "stat.S_ISDIR", "stat.S_ISREG", "os.WIFCONTINUED",
    "dateutil.rrule.rrulestr", "yaml.safe_dump", "pprint.pformat", "textwrap.dedent",
    "os.path.samefile", "pipes.quote", "os.fsencode", "os.fsdecode", "glob.glob",
    "statistics.quantiles", "collections.Counter", "datetime.timezone",
}
PURE_MODULES = {"math", "operator", "itertools", "string", "unicodedata", "fnmatch"}
PURE_METHODS = {
    "upper", "lower", "strip", "lstrip", "rstrip", "split", "rsplit", "splitlines",
    "startswith", "endswith", "replace", "encode", "decode", "title", "zfill",
    "ljust", "rjust", "center", "partition", "rpartition", "count", "find", "index",
    "isdigit", "isalnum", "isalpha", "isspace", "group", "groups", "groupdict",
    "start", "end", "span", "isoformat", "strftime", "utcoffset", "tzname", "keys",
    "hex", "isatty", "after", "before", "date", "time", "weekday", "isnumeric",
    "removeprefix", "removesuffix", "total_seconds", "exists", "is_file", "is_dir",
    "casefold", "fullmatch", "match", "search", "as_posix", "resolve", "expanduser",
    "swapcase", "capitalize", "bit_length", "isdecimal", "is_absolute", "hexdigest",
    "__contains__", "isidentifier", "isprintable", "isascii",
}

MODELS = {}
METHODS = {}
BUILTINS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f

    return deco


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f

    return deco


def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def lift(ip, x):
    """the abstract value of a constant, or of a list etc. of constants"""
    if isinstance(x, (list, set)):
        return ip.new_list([lift(ip, y) for y in x])
    if isinstance(x, tuple):
        return ("tuple", tuple(lift(ip, y) for y in x))
    if isinstance(x, dict):
        return ip.new_dict([(lift(ip, k), lift(ip, v)) for k, v in x.items()])
    return C(x)


def m_re(fn):
    def f(ip, args, kw):
        a = list(args) + [kw[k] for k in ("pattern", "string", "flags") if k in kw]
        if a and a[0][0] == "app" and a[0][1] == "re.compile":
            a = [a[0][2]] + a[1:2] + list(a[0][3:4])
        flags = a[2] if len(a) > 2 else C(0)
        if len(a) < 2 or not all(is_const(x) for x in a[:2]) or not is_num(flags):
            if len(a) >= 2 and is_const(a[1]) and not isinstance(a[1][2], str):
                ip.throw("TypeError", "expected string or bytes-like object")
            return NotImplemented
        try:
            m = getattr(re, fn)(a[0][2], a[1][2], flags=int(cval(flags)))
        except (TypeError, re.error) as e:
            ip.throw(type(e).__name__ if isinstance(e, TypeError) else "re.error", str(e))
        if fn in ("findall", "split"):
            return lift(ip, m)
        if m is None:
            return NONE
        return app("match!", C(fn), a[0], a[1], C(int(cval(flags))))
    return f


for _n in ("match", "search", "fullmatch", "findall"):
    MODELS["re." + _n] = m_re(_n)


@model("shlex.split")
def m_shlex_split(ip, args, kw):
    if len(args) == 1 and not kw and is_const(args[0]) and isinstance(args[0][2], str):
        try:
            return lift(ip, shlex.split(args[0][2]))
        except ValueError as e:
            ip.throw("ValueError", str(e))
    return NotImplemented


# -- time ---------------------------------------------------------------


@model("datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow",
       "time.time", "time.monotonic")
def m_now(ip, args, kw):
    if isinstance(ip.data.get("ticking"), tuple):
        ip.now = lin_add(ip.now, ip.data["ticking"])
    elif ip.data.get("ticking"):
        n = ip.data["ticking"] = ip.data["ticking"] + 1
        d = S("tick{}".format(n))
        ip.set_range(d, 0, None)
        ip.now = lin_add(ip.now, d)
    z = args[0] if args else kw.get("tz", NONE)
    if ip.data.get("zones") and z != NONE:
        return app("tz", ip.now, z)
    return ip.now


def _clocked(name, f):
    plain = MODELS[name]

    def m(ip, args, kw):
        if ip.data.get("clock"):
            return f(ip, name.split(".")[-1], args, kw)
        return plain(ip, args, kw)
    MODELS[name] = m


for _n in ("now", "today", "utcnow"):
    _clocked("datetime.datetime." + _n, clock.now)


@model("datetime.timedelta")
def m_timedelta(ip, args, kw):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    mult = dict(days=86400, seconds=1, microseconds=1e-6, milliseconds=1e-3,
                minutes=60, hours=3600, weeks=604800)
    out = C(0)
    for n, a in list(zip(names, args)) + list(kw.items()):
        if a[0] == "top":
            return a
        if a[0] in ("str", "tuple") or (is_const(a) and not isinstance(a[2], (int, float))):
            ip.throw("TypeError", "timedelta argument")
        out = lin_add(out, lin_scale(a, mult.get(n, 1)))
    return out


@model("dateutil.tz.tzlocal")
def m_tzlocal(ip, args, kw):
    v = app("dateutil.tz.tzlocal")
    ip.kinds[v] = "tzinfo"
    ip.facts[("types", v)] = frozenset({"tzinfo"})
    return v


@model("datetime.datetime.fromtimestamp", "datetime.datetime.utcfromtimestamp")
def m_fromts(ip, args, kw):
    v = args[0]
    if ip.data.get("walls"):
        return app("fromts", v, args[1] if len(args) > 1 else kw.get("tz", NONE))
    if v[0] in ("sym", "app", "res") and ip.kinds.get(v) is None:
        pass
    return v


for _n in ("fromtimestamp", "utcfromtimestamp"):
    _clocked("datetime.datetime." + _n, clock.from_timestamp)


# -- os -----------------------------------------------------------------


def _math(name):
    import math

    f = getattr(math, name)

    def m(ip, args, kw):
        if args and all(is_num(a) for a in args):
            try:
                return C(f(*[a[2] for a in args]))
            except (ValueError, OverflowError, TypeError) as e:
                ip.throw(type(e).__name__, str(e))
        return NotImplemented
    MODELS["math." + name] = m


for _n in ("floor", "ceil", "trunc", "fabs", "isnan", "isfinite", "log", "log2", "log10", "sqrt", "exp", "pow"):
    _math(_n)


@model("os.path.join")
def m_join(ip, args, kw):
    if not args:
        ip.throw("TypeError", "join")
    parts = [args[0]]
    for a in args[1:]:
        if a[0] == "top":
            return ip.top("path")
        if a == NONE or (is_const(a) and not isinstance(a[2], str)):
            ip.throw("TypeError", "join() argument must be str")
        if is_const(a) and a[2].startswith("/"):
            parts = [a]
            continue
        if a[0] == "str" and is_const(a[1][0]) and a[1][0][2].startswith("/"):
            parts = [a]
            continue
        last = parts[-1]
        if not (is_const(last) and isinstance(last[2], str) and (last[2].endswith("/") or last[2] == "")) and not (
            last[0] == "str" and is_const(last[1][-1]) and str(last[1][-1][2]).endswith("/")
        ):
            parts.append(C("/"))
        parts.append(a)
    if any(p[0] == "top" for p in parts):
        return ip.top("path")
    return make_str(parts)


FOLD = {
    "os.path.basename", "os.path.dirname", "os.path.split", "os.path.splitext", "os.path.normpath",
    "os.path.isabs", "os.path.commonprefix", "os.path.commonpath", "fnmatch.fnmatch", "fnmatch.fnmatchcase", "fnmatch.translate", "fnmatch.filter",
    "re.escape", "textwrap.dedent", "unicodedata.normalize",
    "unicodedata.category", "string.capwords",
}


def plain(ip, v):
    """the constant v stands for, as (constant,), or None"""
    if is_const(v):
        return (v[2],)
    if v[0] == "tuple":
        xs = [plain(ip, x) for x in v[1]]
        return (tuple(x[0] for x in xs),) if all(xs) else None
    o = ip.deref(v)
    if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
        xs = [plain(ip, s[1]) for s in o.segs]
        return ([x[0] for x in xs],) if all(xs) else None
    return None


def path_function(name):
    """a function of the text of its arguments"""
    short = name.rsplit(".", 1)[1]

    def f(ip, args, kw):
        xs = [plain(ip, a) for a in args]
        if args and all(xs) and not kw:
            import importlib

            try:
                return lift(ip, getattr(importlib.import_module(name.rsplit(".", 1)[0]), short)(*[x[0] for x in xs]))
            except Exception as e:
                ip.throw(type(e).__name__, str(e))
        if name.startswith("os.path.") and len(args) == 1 and args[0][0] == "str":
            r = path_parts(ip, short, args[0])
            if r is not None:
                return r
        if name == "os.path.split" and len(args) == 1 and not kw:
            return ("tuple", (ip.call_ext("os.path.dirname", args, {}), ip.call_ext("os.path.basename", args, {})))
        return NotImplemented
    MODELS.setdefault(name, f)


def path_parts(ip, short, v):
    """functions of a path of which parts are known"""
    parts = list(v[1])
    tail = []
    while parts and is_const(parts[-1]) and isinstance(parts[-1][2], str):
        tail.insert(0, parts.pop()[2])
    tail = "".join(tail)
    if short in ("basename", "dirname", "split"):
        i = len(v[1]) - 1
        while i >= 0 and not (is_const(v[1][i]) and "/" in str(v[1][i][2])):
            # names have no "/"
            i -= 1
        if i < 0:
            return None
        c = v[1][i][2]
        j = c.rindex("/")
        base = make_str([C(c[j + 1:])] + list(v[1][i + 1:]))
        head = make_str(list(v[1][:i]) + [C(c[:j])]) if i or c[:j].strip("/") else C(c[: j + 1])
        return {"basename": base, "dirname": head, "split": ("tuple", (head, base))}[short]
    if short == "splitext":
        base = tail.rsplit("/", 1)[-1]
        if "." in base and (base is not tail or parts):
            root, ext = os.path.splitext(("" if "/" in tail else "x") + base)
            if ext:
                return ("tuple", (make_str(list(parts) + [C(tail[: len(tail) - len(ext)])]), C(ext)))
        if "/" in tail:
            return ("tuple", (v, C("")))
    return None


for _n in FOLD:
    path_function(_n)


def names_in(ip, d):
    """the names in a directory, where the scenario knows them"""
    if "os.listdir" not in ip.ext_overrides:
        return None
    o = ip.deref(ip.ext_overrides["os.listdir"](ip, [d], {}))
    if o is None or o.kind != "list" or any(s[0] != "one" for s in o.segs):
        return None
    return [s[1] for s in o.segs]


@model("os.scandir")
def m_scandir(ip, args, kw):
    d = args[0] if args else C(".")
    ns = names_in(ip, d)
    if ns is None:
        return NotImplemented
    return ip.new_list([app("direntry", d, n) for n in ns])


def direntry(ip, e, name):
    return e[3] if name == "name" else m_join(ip, [e[2], e[3]], {})


def matching(ip, d, pat):
    import fnmatch

    ns = names_in(ip, d)
    if ns is None or not is_const(pat) or "/" in pat[2] or "**" in pat[2] or any(not is_const(n) for n in ns):
        return None
    return [n for n in ns if fnmatch.fnmatchcase(n[2], pat[2])]


@model("glob.glob", "glob.iglob")
def m_glob(ip, args, kw):
    if len(args) != 1 or kw:
        return NotImplemented
    r = path_parts(ip, "split", args[0]) if args[0][0] == "str" else None
    if is_const(args[0]) and isinstance(args[0][2], str):
        r = lift(ip, os.path.split(args[0][2]))
    if r is None:
        return NotImplemented
    ns = matching(ip, *r[1])
    if ns is None:
        return NotImplemented
    return ip.new_list([m_join(ip, [r[1][0], n], {}) for n in ns if not n[2].startswith(".") or str(r[1][1][2]).startswith(".")])


PATH_ATTRS = {"name": "basename", "parent": "dirname", "suffix": "splitext", "stem": "splitext"}


def path_attr(ip, v, name):
    """an attribute of a pathlib path"""
    r = ip.call_ext("os.path." + PATH_ATTRS[name] if name in ("name", "parent") else "os.path.basename", [v], {})
    if name in ("name", "parent"):
        return r
    r = ip.call_ext("os.path.splitext", [r], {})
    return r[1][name == "suffix"] if r[0] == "tuple" else app("attr", v, name)


@model("signal.Signals")
def m_signals(ip, args, kw):
    if len(args) == 1 and is_const(args[0]):
        if args[0][2] in SIGNAMES:
            return args[0]
        ip.throw("ValueError", "not a valid Signals")
    return NotImplemented


@model("signal.strsignal")
def m_strsignal(ip, args, kw):
    if len(args) == 1 and is_const(args[0]) and args[0][2] in SIGNAMES:
        return C(signal.strsignal(args[0][2]))
    return NotImplemented


@model("os.fspath", "os.path.expandvars")
def m_fspath(ip, args, kw):
    return m_join(ip, args, kw)


@model("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def m_path(ip, args, kw):
    ip.data["pathlib"] = True
    return m_join(ip, args or [C(".")], kw)


@model("pathlib.Path.home")
def m_path_home(ip, args, kw):
    ip.data["pathlib"] = True
    return ip.call_ext("os.path.expanduser", [C("~")], {})


@model("os.fork")
def m_fork(ip, args, kw):
    e = ip.emit("os.fork")
    mode = ip.fork
    if mode == "both":
        mode = "child" if ip.choose(2) else "parent"
    if mode == "child":
        e.data = "child"
        e.res = C(0)
        return C(0)
    e.data = "parent"
    if e.res is None:
        v = ip.fresh("pid")
        ip.set_range(v, 1, None)
        ip.kinds[v] = "int"
        e.res = v
    return e.res


@model("os.kill", "os.killpg")
def m_kill(ip, args, kw):
    ip.emit("os.kill", args, kw)
    return NONE


@model("os.WIFSIGNALED")
def m_wifsignaled(ip, args, kw):
    s = ip.bitop("&", args[0], C(0x7F))
    if s is None:
        return app("os.WIFSIGNALED", args[0])
    return C(ip.compare_vals(">", s, C(0)))


@model("os.WTERMSIG")
def m_wtermsig(ip, args, kw):
    s = ip.bitop("&", args[0], C(0x7F))
    return s if s is not None else app("os.WTERMSIG", args[0])


@model("os.WIFEXITED")
def m_wifexited(ip, args, kw):
    s = ip.bitop("&", args[0], C(0x7F))
    if s is None:
        return app("os.WIFEXITED", args[0])
    return C(ip.compare_vals("==", s, C(0)))


@model("os.WEXITSTATUS")
def m_wexitstatus(ip, args, kw):
    s = ip.bitop(">>", args[0], C(8))
    return s if s is not None else app("os.WEXITSTATUS", args[0])


@model("os.WCOREDUMP")
def m_wcoredump(ip, args, kw):
    s = ip.bitop("&", args[0], C(0x80))
    return s if s is not None else app("os.WCOREDUMP", args[0])


@model("os.waitstatus_to_exitcode")
def m_w2e(ip, args, kw):
    s = ip.bitop("&", args[0], C(0x7F))
    if s is None:
        return app("w2e", args[0])
    if ip.compare_vals(">", s, C(0)):
        return lin_scale(s, -1)
    return ip.bitop(">>", args[0], C(8)) or app("w2e", args[0])


@model("os._exit", "sys.exit")
def m_exit(ip, args, kw):
    ip.emit("exit", args, kw)
    from .interp import Stop

    raise Stop("exit")


def m_exec(name):
    def f(ip, args, kw):
        from .interp import Stop

        ip.emit(name, args, kw)
        raise Stop("exec")

    return f


for _n in ("execv", "execve", "execvp", "execvpe", "execl", "execle", "execlp", "execlpe"):
    MODELS["os." + _n] = m_exec("os." + _n)


@model("copy.copy")
def m_copy(ip, args, kw):
    v = args[0]
    o = ip.deref(v)
    if o is None:
        return v
    from .interp import OInst, ODict

    if o.kind == "list":
        return ip.as_list(v, o.typ)
    if o.kind == "dict":
        n = ODict([tuple(e) for e in o.entries], o.rest)
        return ip.alloc(n)
    if o.kind == "inst":
        n = OInst(o.cls, dict(o.attrs), o.open, o.name)
        return ip.alloc(n)
    return v


@model("copy.deepcopy")
def m_deepcopy(ip, args, kw, memo=None):
    memo = {} if memo is None else memo
    v = args[0]
    if v in memo:
        return memo[v]
    o = ip.deref(v)
    if o is None:
        if v[0] == "tuple":
            return ("tuple", tuple(m_deepcopy(ip, [x], {}, memo) for x in v[1]))
        return v
    from .interp import OInst, ODict, OList

    if o.kind == "list":
        n = OList((), o.typ)
        n.order = o.order
        memo[v] = r = ip.alloc(n)
        n.segs = [
            (s[0],) + ((m_deepcopy(ip, [s[1]], {}, memo),) if s[0] == "one" else s[1:])
            for s in o.segs
        ]
        return r
    if o.kind == "dict":
        n = ODict([], o.rest)
        memo[v] = r = ip.alloc(n)
        n.entries = [
            [m_deepcopy(ip, [a], {}, memo), m_deepcopy(ip, [b], {}, memo)]
            for a, b in o.entries
        ]
        return r
    if o.kind == "inst":
        n = OInst(o.cls, {}, o.open, o.name)
        memo[v] = r = ip.alloc(n)
        n.attrs = {k: m_deepcopy(ip, [x], {}, memo) for k, x in o.attrs.items()}
        return r
    return v


@model("random.shuffle")
def m_shuffle(ip, args, kw):
    o = ip.deref(args[0])
    if o is not None and o.kind == "list":
        if len(o.segs) > 1 and ip.data.get("shuffle"):
            k = ip.choose(len(o.segs))
            o.segs = o.segs[k:] + o.segs[:k]
        ip.data.setdefault("shuffled", set()).add(args[0])
    return NONE


@model("random.sample")
def m_sample(ip, args, kw):
    v = ip.as_list(args[0])
    o = ip.deref(v)
    n = args[1] if len(args) > 1 else kw.get("k")
    if n is not None and ip.eq_known(n, ip.length(args[0])):
        return v
    o.segs = [("many", "sample", s[1] if s[0] == "one" else ip.elem(s, 0)) for s in o.segs[:1]]
    return v


@model("random.choice")
def m_choice(ip, args, kw):
    segs = ip.segs(args[0])
    if not segs:
        ip.throw("IndexError", "choice")
    s = segs[ip.choose(len(segs))]
    return s[1] if s[0] == "one" else ip.elem(s, 0)


@model("binascii.crc32", "zlib.crc32", "zlib.adler32")
def m_crc(ip, args, kw):
    if args and (ip.is_strlike(args[0]) or ip.types_of(args[0]) == {"str"}) and not (is_const(args[0]) and isinstance(args[0][2], bytes)):
        ip.throw("TypeError", "a bytes-like object is required")
    if args and is_const(args[0]) and isinstance(args[0][2], bytes):
        import zlib
        return C(zlib.crc32(args[0][2]))
    return app("binascii.crc32", *args)


@model("random.randint", "random.randrange", "random.random", "random.uniform", "random.getrandbits")
def m_rand(ip, args, kw):
    e = ip.emit("random", args, kw)
    r = ip.fresh("random")
    ip.kinds[r] = "int"
    if len(args) == 2 and is_num(args[0]) and is_num(args[1]):
        ip.set_range(r, cval(args[0]), cval(args[1]))
    return r


@model("time.sleep")
def m_sleep(ip, args, kw):
    e = ip.emit("time.sleep", args, kw)
    return NONE


@model("functools.partial")
def m_partial(ip, args, kw):
    return app("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))


@model("contextlib.suppress")
def m_suppress(ip, args, kw):
    return app("suppress", *args)


@model("contextlib.closing")
def m_closing(ip, args, kw):
    return args[0]


@model("importlib.import_module")
def m_import_module(ip, args, kw):
    name = args[0] if args else kw.get("name", NONE)
    if not is_const(name):
        return ip.top("module of unknown name")
    name = name[2]
    if name.startswith("."):
        p = args[1] if len(args) > 1 else kw.get("package", NONE)
        if not is_const(p):
            return ip.top("module of unknown name")
        parts = p[2].split(".")
        n = len(name) - len(name.lstrip("."))
        name = ".".join(parts[:len(parts) - n + 1]) + "." + name.lstrip(".")
    ip.need(name)
    return ip.resolved(ip.repo.resolve_dotted(name), None, NONE, name)


@model("json.dumps")
def m_dumps(ip, args, kw):
    if args and is_const(kw.get("sort_keys", FALSE)) and kw.get("sort_keys", FALSE)[2] and unsortable(ip, args[0]):
        ip.throw("TypeError", "'<' not supported between keys")
    return NotImplemented


def unsortable(ip, v):
    """does this contain a dict whose keys cannot be ordered?"""
    if v[0] == "tuple":
        return any(unsortable(ip, x) for x in v[1])
    o = ip.deref(v)
    if o is None:
        return False
    if o.kind == "dict":
        kinds = {"n" if isinstance(k[2], (int, float)) else type(k[2]) for k, _ in o.entries if is_const(k)}
        return len(kinds) > 1 or any(unsortable(ip, x) for _, x in o.entries)
    return any(g[0] == "one" and unsortable(ip, g[1]) for g in getattr(o, "segs", ()) if len(g) > 1)


@model("importlib.util.find_spec")
def m_find_spec(ip, args, kw):
    name = args[0] if args else kw.get("name", NONE)
    if not is_const(name):
        return ip.top("module of unknown name")
    # without its imports
    a = ip.repo.absent
    if any(name[2] == n or name[2].startswith(n + ".") for n in a):
        return NONE
    v = S("spec of " + name[2])
    ip.facts[("truthy", v)] = True
    ip.facts[("eq", v, NONE)] = False
    return v


@model("logging.getLogger")
def m_logger(ip, args, kw):
    return S("logger")


@model("logging.info", "logging.debug", "logging.warning", "logging.error", "logging.exception",
       "warnings.warn", "sys.stdout.flush", "sys.stderr.write", "gc.collect", "sys.stderr.flush")
def m_none(ip, args, kw):
    return NONE


@model("collections.OrderedDict")
def m_odict(ip, args, kw):
    return b_dict(ip, args, kw)


@model("collections.defaultdict")
def m_ddict(ip, args, kw):
    v = b_dict(ip, args[1:], kw)
    if args and args[0] != NONE:
        ip.deref(v).default = args[0]
    return v


@model("collections.deque")
def m_deque(ip, args, kw):
    n = kw.get("maxlen", args[1] if len(args) > 1 else NONE)
    v = b_list(ip, args[:1], {})
    if n == NONE:
        return v
    if not is_const(n) or type(n[2]) is not int or n[2] < 1:
        return ip.top("deque")
    v = ip.getslice(v, app("slice", C(-n[2]), NONE, NONE))
    ip.deref(v).maxlen = n
    return v


@model("itertools.islice")
def m_islice(ip, args, kw):
    return ip.getslice(b_list(ip, args[:1], {}), app("slice", *([NONE] * (3 - len(args)) + [args[1], NONE] if len(args) == 2 else list(args[1:]) + [NONE] * (4 - len(args)))))


@model("heapq.nlargest")
def m_nlargest(ip, args, kw):
    return nextreme(ip, args, kw, TRUE)


@model("heapq.nsmallest")
def m_nsmallest(ip, args, kw):
    return nextreme(ip, args, kw, FALSE)


def nextreme(ip, args, kw, rev):
    k = args[2] if len(args) > 2 else kw.get("key", NONE)
    return ip.getslice(b_sorted(ip, args[1:2], {"key": k, "reverse": rev}), app("slice", NONE, args[0], NONE))




@model("itertools.chain")
def m_chain(ip, args, kw):
    segs = []
    for a in args:
        segs += ip.segs(a)
    from .interp import OList

    return ip.alloc(OList(segs))


@model("itertools.chain.from_iterable")
def m_chainfi(ip, args, kw):
    segs = []
    for x in ip.each(args[0]):
        segs += ip.segs(x)
    from .interp import OList

    return ip.alloc(OList(segs))


@model("operator.attrgetter")
def m_attrgetter(ip, args, kw):
    return app("attrgetter", *args)


@model("io.StringIO")
def m_stringio(ip, args, kw):
    from .interp import OList

    if kw or args and args[0] != C(""):
        return NotImplemented
    o = OList([])
    o.typ = "StringIO"
    return ip.alloc(o)


@model("operator.methodcaller")
def m_methodcaller(ip, args, kw):
    if not args or not is_const(args[0]):
        return NotImplemented
    return app("methodcaller", args[0][2], tuple(args[1:]), tuple(sorted(kw.items())))


@model("shlex.join")
def m_shlex_join(ip, args, kw):
    v = ip.as_list(arg(args, kw, 0, "split_command"))
    o = ip.deref(v)
    if o is None or o.kind != "list" or not all(s[0] == "one" for s in o.segs):
        return NotImplemented
    words = [ip.call_ext("shlex.quote", [s[1]], {}) for s in o.segs]
    return ip.call_method(C(" "), "join", [ip.new_list(words)], {})


@model("os.environ.get", "os.getenv")
def m_environ_get(ip, args, kw):
    d = arg(args, kw, 1, "default", NONE)
    env = ("ext", "os.environ")
    if ip._free(("in", args[0], env)):
        v = app("item", env, args[0])
        ip.kinds[v] = "str"
        return v
    return d


@model("os.environ.items", "os.environ.keys", "os.environ.values")
def m_environ_items(ip, args, kw):
    from .interp import OList

    return ip.alloc(OList([("many", "os.environ", app("item", ("ext", "os.environ"), S("anykey")))]))


@model("os.environ.copy")
def m_environ_copy(ip, args, kw):
    return ip.new_dict([], "os.environ")


@model("MySQLdb.connect")
def m_mysql_connect(ip, args, kw):
    ip.data["connection closes"] = True  # at the end of a with
    return m_connect(ip, args, kw)


@model("sqlite3.connect", "psycopg2.connect")
def m_connect(ip, args, kw):
    e = ip.emit("db.connect", args, kw)
    v = S("dbconn")
    return v


@model("uuid.uuid4")
def m_uuid4(ip, args, kw):
    return ip.fresh("uuid")


# -- builtins -----------------------------------------------------------


@builtin("len")
def b_len(ip, args, kw):
    v = ip.force(args[0])
    o = ip.deref(v)
    ip.data["len of list"] = o is not None and o.kind in ("list", "dict")
    return ip.length(v)


@builtin("bool")
def b_bool(ip, args, kw):
    return C(ip.truth(args[0])) if args else FALSE


@builtin("str")
def b_str(ip, args, kw):
    if not args:
        return C("")
    v = args[0]
    if len(args) > 1 or kw:
        return ip.call_method(v, "decode", list(args[1:]), kw)
    o = ip.deref(v)
    if o is not None and o.kind == "inst" and not isinstance(o.cls, tuple) and o.cls is not None:
        f = o.cls.find("__str__") or o.cls.find("__repr__")
        if f:
            return ip.call(("bound", v, f), [], {})
    return ip.tostr(v)


@builtin("bytes")
def b_bytes(ip, args, kw):
    if not args:
        return C(b"")
    if len(args) > 1 or kw:
        return ip.call_method(args[0], "encode", list(args[1:]), kw)
    if is_const(args[0]) and isinstance(args[0][2], bytes):
        return args[0]
    return app("bytes", *args)


@builtin("repr", "ascii")
def b_repr(ip, args, kw):
    if is_const(args[0]):
        return C(repr(args[0][2]))
    return ("str", (app("repr", args[0]),))


@builtin("int")
def b_int(ip, args, kw):
    if not args:
        return C(0)
    v = args[0]
    ip.maybe_raise("int", args)
    if is_const(v):
        try:
            if len(args) > 1:
                return C(int(v[2], args[1][2]))
            return C(int(v[2]))
        except (ValueError, TypeError) as e:
            ip.throw(type(e).__name__, str(e))
    if v[0] == "top":
        return v
    if v[0] == "lin" or ip.kinds.get(v) in ("int",):
        if ip.kinds.get(v) == "int" or all(
            ip.kinds.get(a) == "int" and isinstance(k, int) for a, k in v[2]
        ):
            return v
    r = app("int", *args)
    ip.kinds[r] = "int"
    return r


@builtin("float")
def b_float(ip, args, kw):
    if not args:
        return C(0.0)
    v = args[0]
    ip.maybe_raise("float", args)
    if is_const(v):
        try:
            return C(float(v[2]))
        except (ValueError, TypeError) as e:
            ip.throw(type(e).__name__, str(e))
    if ip.is_strlike(v):
        return app("float", v)
    return v


@builtin("list")
def b_list(ip, args, kw):
    if not args:
        return ip.new_list()
    return ip.as_list(ip.force(args[0]))


@builtin("tuple")
def b_tuple(ip, args, kw):
    if not args:
        return ("tuple", ())
    segs = ip.segs(args[0])
    if all(s[0] == "one" for s in segs):
        return ("tuple", tuple(s[1] for s in segs))
    return ip.as_list(args[0])


@builtin("set", "frozenset")
def b_set(ip, args, kw):
    if not args:
        return ip.new_list((), "set")
    segs = ip.segs(args[0])
    from .interp import OList

    out = []
    for s in segs:
        if s[0] == "one" and any(
            t[0] == "one" and ip.eq_known(t[1], s[1]) for t in out
        ):
            continue
        out.append(s)
    return ip.alloc(OList(out, "set"))


@builtin("dict")
def b_dict(ip, args, kw):
    v = ip.new_dict()
    if args:
        ip.call_method(v, "update", [args[0]], {})
    for k, x in kw.items():
        ip.deref(v).entries.append([C(k), x])
    return v


@builtin("sorted")
def b_sorted(ip, args, kw):
    v = ip.as_list(args[0])
    o = ip.deref(v)
    if o is not None:
        o.typ = "list"
        if not sort_now(ip, o, kw):
            o.order = (order_key(ip, kw.get("key"), o), kw.get("reverse", FALSE))
    return v


class Unordered(Exception):
    pass


def order_cmp(ip, a, b):
    if a == b:
        return 0
    if is_const(a) and is_const(b):
        try:
            return -1 if a[2] < b[2] else 1 if a[2] > b[2] else 0
        except TypeError:
            ip.throw("TypeError", "'<' not supported")
    if NONE in (a, b):
        x = a if b == NONE else b
        o = ip.deref(x)
        if x[0] == "tuple" or o is not None and (o.kind in ("list", "dict", "set") or o.kind == "inst" and hasattr(o.cls, "find") and o.cls.find("__gt__") is None):
            ip.throw("TypeError", "'<' not supported with None")
    if a[0] == "tuple" and b[0] == "tuple":
        for x, y in zip(a[1], b[1]):
            r = order_cmp(ip, x, y)
            if r:
                return r
        return len(a[1]) - len(b[1])
    if a[0] == "str" and b[0] == "str":
        x, y = list(a[1]), list(b[1])
        while x and y and x[0] == y[0]:
            x.pop(0)
            y.pop(0)
        if len(x) <= 1 and len(y) <= 1:
            return order_cmp(ip, x[0] if x else C(""), y[0] if y else C(""))
        raise Unordered
    ranks = ip.data.get("ranks")
    if ranks and a in ranks and b in ranks:
        return ranks[a] - ranks[b]
    if ip.numeric(a) and ip.numeric(b):
        if ip.cmp_known("<", a, b) is True:
            return -1
        if ip.cmp_known(">", a, b) is True:
            return 1
        if ip.cmp_known("==", a, b) is True:
            return 0
        if ip.data.get("fork_sorts"):
            return -1 if ip.compare_vals("<", a, b) else 1 if ip.compare_vals("<", b, a) else 0
    if a[0] == "obj" and b[0] == "obj":
        for x, y, r in ((a, b, -1), (b, a, 1)):
            if known_lt(ip, x, y):
                return r
        return 0
    raise Unordered


def known_lt(ip, a, b):
    """a < b for instances, if it does not depend on anything unknown"""
    o = ip.deref(a)
    f = o.cls.find("__lt__") if o.kind == "inst" and hasattr(o.cls, "find") else None
    if f is None:
        raise Unordered
    ch, n = ip.choose, len(ip.decisions)

    def no(*args, **kw):
        raise Unordered
    ip.choose = no
    try:
        return ip.truth(ip.call(("bound", a, f), [b], {}))
    finally:
        ip.choose = ch
        del ip.decisions[n:]


def sort_now(ip, o, kw):
    """sort if the order of all elements is known"""
    if not all(s[0] == "one" for s in o.segs):
        return False
    rev = kw.get("reverse", FALSE)
    if not is_const(rev):
        return False
    if len(o.segs) < 2:
        return True
    key = kw.get("key", NONE)
    try:
        n = len(ip.taken)
        if key == NONE:
            ks = [s[1] for s in o.segs]
        else:
            ks = [ip.force(ip.call(key, [s[1]], {})) for s in o.segs]
        import functools
        idx = sorted(range(len(ks)), key=functools.cmp_to_key(lambda i, j: order_cmp(ip, ks[i], ks[j])), reverse=bool(rev[2]))
    except Unordered:
        return False
    o.segs = [o.segs[i] for i in idx]
    o.order = None
    return True


def order_key(ip, key, o):
    """what a sort orders by, as a term over the symbol ELEM"""
    if key is None or key == NONE:
        return S("ELEM")
    probe = S("ELEM")
    if key[0] == "app" and key[1] == "attrgetter" and len(key) == 3 and is_const(key[2]):
        v = probe
        for p in str(key[2][2]).split("."):
            v = app("attr", v, p)
        return v
    n = len(ip.taken)
    try:
        r = ip.call(key, [probe], {})
        return ip.force(r)
    except Exception as e:
        from .interp import Stop

        if isinstance(e, Stop):
            raise
        return ip.top("sort key")


@builtin("reversed")
def b_reversed(ip, args, kw):
    v = ip.as_list(args[0])
    o = ip.deref(v)
    if o is not None:
        o.segs = o.segs[::-1]
        if o.order is not None:
            r = o.order[1]
            o.order = (o.order[0], C(not ip.truth(r)))
    return v


@builtin("enumerate")
def b_enumerate(ip, args, kw):
    from .interp import OList

    start = arg(args, kw, 1, "start", C(0))
    out, i = [], 0
    exact = True
    for s in ip.segs(args[0]):
        if s[0] == "one":
            idx = lin_add(start, C(i)) if exact else S("index")
            out.append(("one", ("tuple", (idx, s[1]))))
            i += 1
        else:
            exact = False
            out.append(("many", s[1], ("tuple", (S("index"), ip.elem(s, 0)))))
    return ip.alloc(OList(out))


@builtin("zip")
def b_zip(ip, args, kw):
    from .interp import OList

    ss = [ip.segs(a) for a in args]
    if all(s[0] == "one" for x in ss for s in x):
        return ip.alloc(OList([("one", ("tuple", tuple(s[1] for s in t))) for t in zip(*ss)]))
    if all(len(x) == 1 for x in ss):
        return ip.alloc(
            OList([("many", "zip:" + str(ss[0][0][1]), ("tuple", tuple(s[0][1] if s[0][0] == "one" else ip.elem(s[0], 0) for s in ss)))])
        )
    return ip.top("zip")


@builtin("range")
def b_range(ip, args, kw):
    from .interp import OList

    if all(is_num(a) for a in args):
        r = range(*[int(cval(a)) for a in args])
        if len(r) <= 200:
            return ip.new_list([C(x) for x in r])
    return ip.alloc(OList([("many", "range:" + ",".join(show(a) for a in args), S("i:" + ",".join(show(a) for a in args)))]))


def quant(ip, v, want):
    for s in ip.segs(v):
        if s[0] == "one":
            if ip.truth(s[1]) == want:
                return want
        else:
            x = ip.elem(s, 0)
            if x is not None and is_const(x) and bool(x[2]) != want:
                continue
            n = app("len", ("sym", str(s[1])))
            if ip.cmp_known(">", n, C(0)) is False:
                continue
            if is_const(x):
                # decided for the summary element: some element is like this
                if ip.compare_vals(">", n, C(0)):
                    return want
                continue
            if ip._free(("some", x, C(want))):
                return want
    return not want


@builtin("any")
def b_any(ip, args, kw):
    return C(quant(ip, ip.force(args[0]), True))


@builtin("all")
def b_all(ip, args, kw):
    return C(quant(ip, ip.force(args[0]), False))


@builtin("sum")
def b_sum(ip, args, kw):
    out = arg(args, kw, 1, "start", C(0))
    for s in ip.segs(args[0]):
        if s[0] == "one":
            out = ip.binop("+", out, s[1])
        else:
            x = ip.elem(s, 0)
            if x == C(0):
                continue
            n = app("len", ("sym", str(s[1])))
            if is_num(x) or x == TRUE:
                out = lin_add(out, lin_scale(n, cval(x) if x != TRUE else 1))
            elif x == FALSE:
                continue
            else:
                out = lin_add(out, app("sum", S(str(s[1])), x)) if out[0] != "top" else out
    return out


def minmax(ip, args, kw, op):
    if len(args) == 1:
        segs = ip.segs(args[0])
        vals = [s[1] if s[0] == "one" else ip.elem(s, 0) for s in segs]
        if any(s[0] == "many" for s in segs):
            many = [s for s in segs if s[0] == "many"]
            if len(segs) == 1 and "default" in kw:
                if not ip.compare_vals(">", app("len", S(str(many[0][1]))), C(0)):
                    return kw["default"]
            if len(segs) == 1:
                return app(op, S(str(many[0][1])), vals[0])
        if not vals:
            if "default" in kw:
                return kw["default"]
            ip.throw("ValueError", op + "() of empty")
    else:
        vals = list(args)
    key = kw.get("key")
    keys = vals
    if key is not None and key != NONE and len(vals) > 1:
        keys = [ip.force(ip.call(key, [v], {})) for v in vals]
        if any(k[0] in ("top", "obj") for k in keys):
            ip.taint.append("order unknown")
            return vals[ip.choose(len(vals))]
    best = 0
    for i in range(1, len(vals)):
        if ip.compare_vals("<" if op == "min" else ">", keys[i], keys[best]):
            best = i
    return vals[best]


@builtin("min")
def b_min(ip, args, kw):
    return minmax(ip, args, kw, "min")


@builtin("max")
def b_max(ip, args, kw):
    return minmax(ip, args, kw, "max")


@builtin("abs")
def b_abs(ip, args, kw):
    v = args[0]
    if is_num(v):
        return C(abs(cval(v)))
    r = ip.rng(v)
    if r[0] >= 0:
        return v
    if r[1] <= 0:
        return lin_scale(v, -1)
    return app("abs", v)


@builtin("round")
def b_round(ip, args, kw):
    if all(is_const(a) for a in args):
        return C(round(*[a[2] for a in args]))
    return app("round", *args)


@builtin("isinstance")
def b_isinstance(ip, args, kw):
    return C(ip.isinstance_(ip.force(args[0]), args[1]))


@builtin("issubclass")
def b_issubclass(ip, args, kw):
    return C(ip._free(("issubclass", args[0], args[1])))


@builtin("type")
def b_type(ip, args, kw):
    v = ip.force(args[0])
    if len(args) != 1:
        return ip.top("type()")
    if is_const(v):
        return ("bi", v[1]) if v[2] is not None else app("type", v)
    o = ip.deref(v)
    if o is not None:
        if o.kind == "list":
            return ("bi", o.typ)
        if o.kind == "dict":
            return ("bi", "dict")
        if o.kind == "inst" and o.cls is not None and not isinstance(o.cls, tuple):
            return ("cls", o.cls)
    if v[0] == "str":
        return ("bi", "str")
    if v[0] == "tuple":
        return ("bi", "tuple")
    return app("type", v)


@builtin("getattr")
def b_getattr(ip, args, kw):
    if not (is_const(args[1]) and isinstance(args[1][2], str)):
        if args[1][0] in ("str", "sym", "app") and args[0][0] in ("sym", "app"):
            return app("getattr", args[0], args[1])
        o = ip.deref(args[0])
        return ip.top("getattr")
    if len(args) > 2:
        b = args[0]
        if b[0] in ("sym", "app", "res"):
            return ip.force(ip.getattr_(b, args[1][2]))
        return ip.force(ip.getattr_(b, args[1][2], args[2]))
    return ip.force(ip.getattr_(args[0], args[1][2]))


@builtin("hasattr")
def b_hasattr(ip, args, kw):
    o = ip.deref(args[0])
    if o is not None and o.kind == "inst" and is_const(args[1]):
        n = args[1][2]
        if n in o.attrs:
            return TRUE
        if o.cls is not None and not isinstance(o.cls, tuple) and (o.cls.find(n) or o.cls.find_attr(n)):
            return TRUE
        if not o.open:
            return FALSE
    return C(ip._free(("hasattr", args[0], args[1])))


@builtin("setattr")
def b_setattr(ip, args, kw):
    if is_const(args[1]) and isinstance(args[1][2], str):
        ip.setattr_(args[0], args[1][2], args[2])
    else:
        ip.emit("setattr", [args[0], args[1], args[2]])
        o = ip.deref(args[0])
        if o is not None and o.kind == "inst":
            o.open = True
            o.name = o.name or "obj"
    return NONE


@builtin("print")
def b_print(ip, args, kw):
    f = kw.get("file", NONE)
    w = None
    o = ip.deref(f)
    if o is not None and o.kind == "inst":
        w = ip.getattr_(f, "write")
    elif f[0] == "ext" and f[1] in ("sys.stdout", "sys.__stdout__"):
        w = ("ext", f[1] + ".write")
    elif f[0] in ("res", "sym", "app") or o is not None and o.kind == "list" and o.typ == "StringIO":
        w = ("meth", f, "write")
    if w is None:
        ip.emit("print", args, kw)
        return NONE
    sep, end = kw.get("sep", NONE), kw.get("end", NONE)
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(C(" ") if sep == NONE else sep)
        parts.append(b_str(ip, [a], {}))
    t = make_str(parts)
    if t != C(""):
        ip.call(w, [t], {})
    e = C("\n") if end == NONE else end
    if e != C(""):
        ip.call(w, [e], {})
    return NONE


@builtin("open")
def b_open(ip, args, kw):
    ip.maybe_raise("open", args)
    e = ip.emit("open", args, kw)
    if e.res is None:
        e.res = ip.fresh("open")
    return e.res


@builtin("next")
def b_next(ip, args, kw):
    segs = ip.segs(args[0])
    for s in segs:
        if s[0] == "one":
            return s[1]
        n = app("len", ("sym", str(s[1])))
        if ip.compare_vals(">", n, C(0)):
            return ip.elem(s, 0)
    if len(args) > 1:
        return args[1]
    ip.throw("StopIteration")


@builtin("iter")
def b_iter(ip, args, kw):
    if len(args) == 2:
        # what a function returns until it returns the sentinel
        from .interp import Prune

        out = []
        while True:
            v = ip.call(args[0], [], {})
            if ip.eq(v, args[1]):
                return ip.new_list(out)
            out.append(v)
            if len(out) > 30:
                raise Prune("too many values")
    return args[0]


@builtin("map")
def b_map(ip, args, kw):
    from .interp import OList

    out = []
    if len(args) != 2:
        return ip.top("map")
    for s in ip.segs(args[1]):
        x = s[1] if s[0] == "one" else ip.elem(s, 0)
        v = ip.call(args[0], [x], {})
        out.append(("one", v) if s[0] == "one" else ("many", s[1], v))
    return ip.alloc(OList(out, "map"))


@builtin("filter")
def b_filter(ip, args, kw):
    from .interp import OList

    out = []
    for s in ip.segs(args[1]):
        x = s[1] if s[0] == "one" else ip.elem(s, 0)
        n = len(ip.taken)
        t = ip.truth(x if args[0] == NONE else ip.call(args[0], [x], {}))
        if t:
            out.append(s if s[0] == "one" else ("many", str(s[1]) + ("|f" if len(ip.taken) > n else ""), x))
    return ip.alloc(OList(out, "filter"))


@builtin("vars")
def b_vars(ip, args, kw):
    if len(args) == 1:
        return ip.getattr_(args[0], "__dict__")
    return app("vars", *args)


@builtin("callable")
def b_callable(ip, args, kw):
    return C(args[0][0] in ("fn", "bound", "cls", "bi", "meth", "ext"))


def _pure(name):
    def f(ip, args, kw):
        return app(name, *args)
    BUILTINS[name] = f


for _n in ("id", "hash", "ord", "chr", "hex", "oct", "bin", "pow", "dir", "format", "slice", "bytearray", "complex"):
    if _n not in BUILTINS:
        _pure(_n)


@builtin("divmod")
def b_divmod(ip, args, kw):
    return ("tuple", (ip.binop("//", args[0], args[1]), ip.binop("%", args[0], args[1])))


@builtin("object")
def b_object(ip, args, kw):
    from .interp import OInst

    return ip.alloc(OInst(None, {}, True, "object"))


@builtin("__import__")
def b_import(ip, args, kw):
    if not args or not is_const(args[0]) or len(args) > 3:
        return ip.top("__import__")
    ip.need(args[0][2])
    n = args[0][2].split(".")[0]
    return ip.resolved(ip.repo.resolve_dotted(n), None, NONE, n)


@builtin("globals", "locals", "eval", "exec", "compile")
def b_dynamic(ip, args, kw):
    ip.taint.append("dynamic code")
    return ip.top("dynamic code")


# -- methods ------------------------------------------------------------

TIME_ID = {"timestamp", "total_seconds", "astimezone"}


def method(ip, recv, name, args, kw):
    if ip.data.get("clock") and clock.parts(recv):
        r = clock.method(ip, recv, name, args, kw)
        if r is not NotImplemented:
            return r
    o = ip.deref(recv)
    if o is not None and o.kind == "list":
        return list_method(ip, recv, o, name, args, kw)
    if o is not None and o.kind == "dict":
        return dict_method(ip, recv, o, name, args, kw)
    if o is not None and o.kind == "inst":
        if isinstance(o.cls, tuple):
            if name in ("with_traceback",):
                return recv
            return NotImplemented
        return NotImplemented
    if ip.data.get("zones") and name not in ("astimezone", "replace"):
        recv = ip.unzone(recv)
    if name == "replace" and "fold" in kw and not args:
        kw = dict(kw)
        fold = kw.pop("fold")
        v = method(ip, recv, name, args, kw) if kw else recv
        return app("fold", v, fold) if ip.data.get("walls") else v
    if name in ("timestamp", "total_seconds"):
        if recv[0] == "const" and name == "timestamp":
            ip.throw("AttributeError", name)
        if ip.data.get("walls") and name == "timestamp":
            return clock.epoch(ip, recv)
        if recv[0] == "app" and recv[1] == "td":
            return recv[2]
        return recv
    if name == "astimezone":
        ip.maybe_raise(".astimezone", [recv] + args)
        if ip.data.get("zones"):
            z = args[0] if args else kw.get("tz", NONE)
            return app("tz", ip.unzone(recv), C("local") if z == NONE else z)
        if ip.data.get("tz"):
            return app("tz", recv, args[0] if args else C("local"))
        return recv
    if name == "replace" and ("tzinfo" in kw):
        if ip.data.get("tz") or ip.data.get("withtz") or ip.data.get("zones"):
            return app("withtz", recv, kw["tzinfo"])
        return recv
    if name == "replace" and recv[0] == "lin":
        return app(".replace", recv, *[app("kw:" + k, v) for k, v in sorted(kw.items())])
    if name in ("get_database", "get_collection") and recv[0] in ("sym", "app", "res") and len(args) == 1 and not kw:
        return app("item", recv, args[0])
    if name == "get" and recv == ("ext", "os.environ"):
        return m_environ_get(ip, args, kw)
    if recv[0] == "app" and recv[1] in ("re.compile",) and name in ("match", "search", "fullmatch", "sub", "findall", "split"):
        return ip.call_ext("re." + name, [recv[2]] + args, kw)
    if recv[0] == "app" and recv[1] == "match!" and name in ("group", "groups", "start", "end", "span", "groupdict"):
        m = getattr(re, recv[2][2])(recv[3][2], recv[4][2], flags=recv[5][2])
        if all(is_const(a) for a in args):
            try:
                return lift(ip, getattr(m, name)(*[a[2] for a in args]))
            except IndexError as e:
                ip.throw("IndexError", str(e))
    if name == "group" and recv[0] == "app" and recv[1].startswith("re."):
        v = app("group", recv, *(args or [C(0)]))
        ip.kinds[v] = "str"
        return v
    if recv[0] == "app" and recv[1] == "direntry":
        p = direntry(ip, recv, "path")
        if name in ("is_file", "is_dir", "exists", "is_symlink"):
            n = {"is_file": "os.path.isfile", "is_dir": "os.path.isdir", "is_symlink": "os.path.islink"}[name]
            return ip.call_ext(n, [p], {})
        if name == "__fspath__":
            return p
    if ip.data.get("pathlib") and (is_const(recv) and isinstance(recv[2], str) or recv[0] in ("str", "sym", "app")):
        if name == "iterdir" and not args:
            ns = names_in(ip, recv)
            if ns is not None:
                return ip.new_list([m_join(ip, [recv, n], {}) for n in ns])
        if name == "glob" and len(args) == 1:
            ns = matching(ip, recv, args[0])
            if ns is not None:
                return ip.new_list([m_join(ip, [recv, n], {}) for n in ns])
        if name == "with_suffix" and len(args) == 1:
            r = ip.call_ext("os.path.splitext", [recv], {})
            if r[0] == "tuple":
                return make_str([r[1][0], args[0]])
    if ip.data.get("pathlib") and name == "joinpath":
        return m_join(ip, [recv] + args, kw)
    n = FILE_METHODS.get(name)
    if n is not None and not args and (recv[0] in ("str", "sym", "app") or is_const(recv) and isinstance(recv[2], str) and ip.data.get("pathlib")):
        return ip.call_ext(n, [recv], {}) if n in ip.ext_overrides else app(n, recv)
    if is_const(recv) and isinstance(recv[2], str):
        return const_str_method(ip, recv, name, args, kw)
    if name == "format" and recv[0] == "str":
        return ip.top("format of non-constant")
    if name == "join" and ip.is_strlike(recv):
        return str_join(ip, recv, args)
    if recv[0] == "str" and name in ("startswith", "endswith") and is_const(args[0]):
        p = recv[1][0 if name == "startswith" else -1]
        if is_const(p) and isinstance(p[2], str) and len(p[2]) >= len(args[0][2]):
            return C(getattr(p[2], name)(args[0][2]))
    if recv[0] == "str" and name in ("startswith", "endswith") and args[0][0] == "tuple" and all(is_const(a) for a in args[0][1]):
        p = recv[1][0 if name == "startswith" else -1]
        if is_const(p) and isinstance(p[2], str) and all(len(p[2]) >= len(a[2]) for a in args[0][1]):
            return C(getattr(p[2], name)(tuple(a[2] for a in args[0][1])))
    if name in ("encode", "decode", "format") and recv[0] in ("app", "sym", "res", "str"):
        if name == "decode":
            enc = args[0] if args else kw.get("encoding", C("utf-8"))
            return app(".decode", recv, enc, args[1] if len(args) > 1 else kw.get("errors", C("strict")))
        return app("." + name, recv, *args)
    if name == "get" and recv[0] in ("sym", "app", "res") and args:
        t = ip.types_of(recv)
        if t is not None or recv in ip.data.get("dataroots", ()):
            if t is not None and not ip.require_type(recv, {"dict"}):
                ip.throw("AttributeError", "get")
            if ip._free(("in", args[0], recv)):
                items = ip.data.get("items", {})
                if (recv, args[0]) in items:
                    return items[(recv, args[0])]
                v = app("item", recv, args[0])
                ip.inherit_data(recv, v)
                return v
            return args[1] if len(args) > 1 else NONE
    if name in ("items", "values", "keys") and recv[0] in ("sym", "app", "res"):
        from .interp import OList

        t = ip.types_of(recv)
        if t is not None and not ip.require_type(recv, {"dict"}):
            ip.throw("AttributeError", name)
        k = app("elemkey", recv)
        v = app("elem", recv)
        ip.inherit_data(recv, v)
        if recv in ip.data.get("dataroots", ()) or t is not None:
            if ("types", k) not in ip.facts:
                ip.facts[("types", k)] = frozenset(["str", "int", "float", "bool", "NoneType"])
        x = {"items": ("tuple", (k, v)), "values": v, "keys": k}[name]
        return ip.alloc(OList([("many", show(recv), x)], "dict_" + name))
    return NotImplemented


FILE_METHODS = {"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir", "expanduser": "os.path.expanduser"}


def const_str_method(ip, recv, name, args, kw):
    s = recv[2]
    if name == "format":
        return str_format(ip, s, args, kw)
    if name == "join":
        return str_join(ip, recv, args)
    if name in ("encode",) and not args:
        return C(s.encode())
    if all(is_const(a) for a in args) and hasattr(s, name) and not kw:
        try:
            r = getattr(s, name)(*[a[2] for a in args])
        except Exception as e:
            ip.throw(type(e).__name__, str(e))
        if isinstance(r, list):
            return ip.new_list([C(x) for x in r])
        if isinstance(r, tuple):
            return ("tuple", tuple(C(x) for x in r))
        return C(r)
    if name in ("startswith", "endswith") and args and args[0][0] == "tuple":
        return C(any(getattr(s, name)(a[2]) for a in args[0][1] if is_const(a)))
    if not hasattr(s, name):
        if ip.data.get("pathlib"):
            ip.taint.append("method {} of a path".format(name))
            return NotImplemented
        ip.throw("AttributeError", name)
    return NotImplemented


def str_join(ip, recv, args):
    segs = ip.segs(ip.force(args[0]))
    parts = []
    for i, s in enumerate(segs):
        if i:
            parts.append(recv)
        if s[0] == "one":
            parts.append(s[1])
            if s[1][0] == "top":
                return ip.top("join")
        else:
            v = s[2] if len(s) > 2 and s[2] is not None else ip.elem(s, 0)
            parts.append(app("join", recv, S(str(s[1])), v))
    return make_str(parts)


def str_format(ip, s, args, kw):
    out = []
    auto = 0
    try:
        items = list(string.Formatter().parse(s))
    except ValueError as e:
        ip.throw("ValueError", str(e))
    for lit, field, spec, conv in items:
        out.append(C(lit))
        if field is None:
            continue
        base = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                base, rest = field[:i], field[i:]
                break
        if base == "":
            if auto >= len(args):
                if "**" in kw:
                    return ip.top("format")
                ip.throw("IndexError", "format arguments")
            v = args[auto]
            auto += 1
        elif base.isdigit():
            if int(base) >= len(args):
                ip.throw("IndexError", "format arguments")
            v = args[int(base)]
        else:
            if base not in kw:
                if "**" in kw:
                    return ip.top("format")
                ip.throw("KeyError", base)
            v = kw[base]
        while rest:
            if rest[0] == ".":
                j = next((i for i, ch in enumerate(rest[1:], 1) if ch in ".["), len(rest))
                v = ip.force(ip.getattr_(v, rest[1:j]))
                rest = rest[j:]
            else:
                j = rest.index("]")
                key = rest[1:j]
                v = ip.getitem(v, C(int(key) if key.isdigit() else key))
                rest = rest[j + 1:]
        if v[0] == "top":
            return v
        if conv == "r":
            out.append(C(repr(v[2])) if is_const(v) else app("repr", v))
        elif spec:
            out.append(app("format", v, C(spec)))
        else:
            out.append(b_str(ip, [v], {}))
    if any(x[0] == "top" for x in out):
        return ip.top("format")
    return make_str(out)


def list_method(ip, recv, o, name, args, kw):
    if o.typ == "StringIO":
        if name == "write":
            o.segs.append(("one", args[0]))
            return app("len", args[0])
        if name == "writelines":
            o.segs += [("one", x) for x in ip.each(args[0])]
            return NONE
        if name == "getvalue":
            from .interp import OList

            return ip.call_method(C(""), "join", [ip.alloc(OList(list(o.segs)))], {})
        if name in ("close", "flush"):
            return NONE
        return ip.top("StringIO")
    if name in ("append", "add", "appendleft"):
        v = args[0]
        if name == "add" and any(s[0] == "one" and ip.eq_known(s[1], v) for s in o.segs):
            return NONE
        o.order = None
        if name == "appendleft":
            o.segs.insert(0, ("one", v))
        else:
            o.segs.append(("one", v))
        n = getattr(o, "maxlen", None)
        if n is not None:
            n = ip.bound(n, len(o.segs) - 1)[2]
            o.segs = o.segs[:n] if name == "appendleft" else o.segs[-n:]
        ip.emit("list.append", [recv, v])
        return NONE
    if name == "insert":
        o.order = None
        if is_num(args[0]) and cval(args[0]) == 0:
            o.segs.insert(0, ("one", args[1]))
        else:
            o.segs.append(("one", args[1]))
        ip.emit("list.append", [recv, args[1]])
        return NONE
    if name in ("remove", "discard"):
        for i, s in enumerate(o.segs):
            if s[0] == "one" and ip.eq(s[1], args[0]):
                del o.segs[i]
                ip.emit("list.remove", [recv, args[0]])
                return NONE
        for s in o.segs:
            if s[0] == "many":
                if ip.many_contains(s, args[0]):
                    ip.emit("list.remove", [recv, args[0]])
                    return NONE
        for s in o.segs:
            if s[0] == "many" and args[0][0] == "obj":
                # an element materialised from this summary
                if any(k[0] == "elem" and k[1] == s[1] and x == args[0] for k, x in list(ip.data.items()) if isinstance(k, tuple)):
                    ip.emit("list.remove", [recv, args[0]])
                    return NONE
        if name == "remove":
            ip.throw("ValueError", "list.remove(x): x not in list")
        return NONE
    if name in ("extend", "update"):
        segs = ip.segs(ip.force(args[0]))
        o.order = None
        for s in segs:
            o.segs.append(s)
            if s[0] == "one":
                ip.emit("list.append", [recv, s[1]])
            else:
                ip.emit("list.extend", [recv, ip.elem(s, 0)])
        return NONE
    if name == "clear":
        o.segs = []
        ip.emit("list.clear", [recv])
        return NONE
    if name in ("pop", "popleft"):
        if not o.segs:
            ip.throw("IndexError" if o.typ == "list" else "KeyError", "pop from empty")
        i = -1
        if name == "popleft":
            i = 0
        elif args and is_num(args[0]):
            i = int(cval(args[0]))
        elif args:
            i = ip.choose(len(o.segs))
        if o.order is not None and len(o.segs) > 1 and not args:
            i = ip.choose(len(o.segs))
        try:
            s = o.segs[i]
        except IndexError:
            ip.throw("IndexError", "pop index")
        if s[0] == "one":
            del o.segs[i]
            ip.emit("list.remove", [recv, s[1]])
            return s[1]
        if ip.compare_vals(">", app("len", S(str(s[1]))), C(0)):
            return ip.elem(s, 0)
        ip.throw("IndexError", "pop from empty")
    if name == "copy":
        return ip.as_list(recv, o.typ)
    if name == "sort":
        if sort_now(ip, o, kw):
            return NONE
        o.order = (order_key(ip, kw.get("key"), o), kw.get("reverse", FALSE))
        return NONE
    if name == "reverse":
        o.segs.reverse()
        return NONE
    if name in ("index", "count"):
        if name == "index" and all(s[0] == "one" for s in o.segs):
            for i, s in enumerate(o.segs):
                if ip.eq(s[1], args[0]):
                    return C(i)
            ip.throw("ValueError", "not in list")
        if name == "count" and all(s[0] == "one" for s in o.segs):
            return C(sum(1 for s in o.segs if ip.eq(s[1], args[0])))
        return app(name, recv, args[0])
    if name in ("difference", "union", "intersection"):
        op = {"difference": "-", "union": "|", "intersection": "&"}[name]
        return ip.set_op(op, recv, args[0])
    if name == "isdisjoint":
        return C(not any(ip.contains(args[0], s[1]) for s in o.segs if s[0] == "one"))
    if name in ("issubset", "issuperset"):
        a, b = (recv, args[0]) if name == "issubset" else (args[0], recv)
        return C(all(ip.contains(b, x) for x in ip.each(a)))
    if name in ("close", "send", "throw", "__next__"):
        return NONE
    if not hasattr(list, name) and not hasattr(set, name):
        ip.throw("AttributeError", name)
    return ip.top("list." + name)


def dict_method(ip, recv, o, name, args, kw):
    from .interp import OList

    if o.name == "sqlite3.Row" and name != "keys":
        ip.throw("AttributeError", name)
    if name == "get":
        hit = ip.dict_find(o, args[0])
        if hit is not None:
            return hit
        if o.rest is not None:
            if ip.contains(recv, args[0]):
                return app("item", S(o.rest), args[0])
        return arg(args, kw, 1, "default", NONE)
    if name in ("items", "keys", "values"):
        f = {
            "items": lambda k, v: ("tuple", (k, v)),
            "keys": lambda k, v: k,
            "values": lambda k, v: v,
        }[name]
        segs = [("one", f(k, v)) for k, v in o.entries]
        if o.rest is not None:
            if o.rest in ip.elems:
                v = ip.elem(("many", o.rest), 0)
                k = ip.data.get(("elemkey", o.rest), app("elemkey", S(o.rest)))
                segs.append(("many", o.rest, f(k, v)))
            else:
                segs.append(("many", o.rest, f(app("elemkey", S(o.rest)), app("elem", S(o.rest)))))
        r = OList(segs, "dict_" + name)
        r.view = recv
        return ip.alloc(r)
    if name == "copy":
        return MODELS["copy.copy"](ip, [recv], {})
    if name == "update":
        if args:
            src = ip.force(args[0])
            so = ip.deref(src)
            if so is not None and so.kind == "dict":
                for k, v in list(so.entries):
                    ip.setitem(recv, k, v)
                if so.rest is not None:
                    ip.emit("dict.merge", [recv, src])
                    o.rest = so.rest if o.rest is None else o.rest + "+" + so.rest
            elif so is not None and so.kind == "list" or src[0] == "tuple":
                for s in ip.segs(src):
                    if s[0] == "one":
                        x = s[1]
                        if x[0] == "tuple" and len(x[1]) == 2:
                            ip.setitem(recv, x[1][0], x[1][1])
                        else:
                            ip.setitem(recv, ip.getitem(x, C(0)), ip.getitem(x, C(1)))
                    else:
                        x = ip.elem(s, 0)
                        if x[0] == "tuple" and len(x[1]) == 2 and ip.compare_vals(">", app("len", S(str(s[1]))), C(0)):
                            ip.setitem(recv, x[1][0], x[1][1])
                        else:
                            o.rest = str(s[1])
            else:
                ip.emit("dict.merge", [recv, src])
                t = show(src)
                o.rest = t if o.rest is None else o.rest + "+" + t
        for k, v in kw.items():
            ip.setitem(recv, C(k), v)
        return NONE
    if name == "setdefault":
        for k, v in o.entries:
            if ip.eq(k, args[0]):
                return v
        if o.rest is not None and ip.contains(recv, args[0]):
            return app("item", S(o.rest), args[0])
        v = arg(args, kw, 1, "default", NONE)
        o.entries.append([args[0], v])
        ip.emit("dict.set", [recv, args[0], v])
        return v
    if name == "pop":
        for e in list(o.entries):
            if ip.eq(e[0], args[0]):
                o.entries.remove(e)
                ip.emit("dict.del", [recv, args[0], e[1]])
                return e[1]
        if o.rest is not None and ip.contains(recv, args[0]):
            ip.emit("dict.del", [recv, args[0]])
            return app("item", S(o.rest), args[0])
        if len(args) > 1:
            return args[1]
        ip.throw("KeyError", "pop")
    if name == "popitem":
        if o.entries:
            e = o.entries.pop()
            return ("tuple", tuple(e))
        if o.rest is None:
            ip.throw("KeyError", "popitem")
        return ip.top("popitem")
    if name == "clear":
        o.entries, o.rest = [], None
        ip.emit("dict.clear", [recv])
        return NONE
    if not hasattr(dict, name):
        ip.throw("AttributeError", name)
    return ip.top("dict." + name)
