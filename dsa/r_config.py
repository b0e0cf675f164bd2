"""Rules over the configuration: what is accepted, and what it means."""
import itertools
import os

from . import lang
from .core import *  # noqa: F401,F403
from .fsmodel import Files, text, path
from .interp import Stop
from .scenario import NOW, Anchor
from .r_sched import next_time, eq3
from .values import KINDS

GET = "dsari.config.get_config"
REFUSED = "dsari.config.ConfigError"


def mk(ip, x):
    """the abstract value of nested Python data with abstract values in it"""
    if isinstance(x, tuple) and x and x[0] in KINDS:
        return x
    if isinstance(x, dict):
        return ip.new_dict([(mk(ip, k), mk(ip, v)) for k, v in x.items()])
    if isinstance(x, list):
        return ip.new_list([mk(ip, v) for v in x])
    return C(x)


def typed(st, name, *types):
    """any value of these types"""
    v = S(name)
    st.ip.facts[("types", v)] = frozenset(types)
    if len(types) == 1 and types[0] in ("int", "float", "str", "bool"):
        st.ip.kinds[v] = types[0]
    return v


def load(st, raw, files=None, d=(), schedule_raises=None, isdir=True, none=False, real=False):
    """the configuration is loaded from these files: dsari.json with the data
    raw, or the given files ({name: data}); d: the names in config.d"""
    ip = st.ip
    ip.overrides.pop("dsari.config.ConfigLoader.load_dir", None)
    if not real:
        next_time(st, none=none)
    st.dir = S("config_dir")
    ip.kinds[st.dir] = "str"
    content = {}
    for n, x in (files or {"dsari.json": raw}).items():
        content[path(st, st.dir, *[C(p) for p in n.split("/")])] = mk(ip, x)
    st.fs = Files(st, content)
    if hasattr(st, "unreadable"):
        st.fs.unreadable.add(text(path(st, st.dir, *[C(p) for p in st.unreadable.split("/")])))
    dd = path(st, st.dir, C("config.d"))
    ip.ext_overrides["os.path.isdir"] = lambda ip, a, k: C(text(a[0]) == text(dd) and bool(d) and isdir)
    ip.ext_overrides["os.listdir"] = lambda ip, a, k: ip.new_list([C(n) for n in d])
    if schedule_raises:
        q = "dsari.utils.get_next_schedule_time"
        f = ip.overrides[q]

        def g(ip, fi, args, kw):
            k = ip.choose(len(schedule_raises) + 1)
            if k:
                ip.data.setdefault("raised", []).append((q, schedule_raises[k - 1], ip.loc()))
                ip.throw(schedule_raises[k - 1], "schedule")
            return f(ip, fi, args, kw)
        ip.overrides[q] = g
    r = st.w.repo.funcs.get(GET)
    if r is None:
        raise Anchor(GET)
    return ip.call(("fn", r), [st.dir], {})


def exc(q):
    """qualified name of the exception the path ends with"""
    if q.outcome != "exc":
        return None
    o = q.ip.deref(q.val)
    if o is None:
        return "?"
    c = o.cls
    return c[1] if isinstance(c, tuple) else getattr(c, "qual", "?")


def is_refusal(q):
    """ConfigError or a class derived from it"""
    if q.outcome != "exc":
        return False
    o = q.ip.deref(q.val)
    c = o.cls if o is not None else None
    if c is None:
        return None
    chain = q.ip.exc_chain(c)
    return any((x[1] if isinstance(x, tuple) else getattr(x, "qual", x)) == REFUSED for x in chain)


def params(node):
    return [a.arg for a in node.args.posonlyargs + node.args.args]


def accepted(q):
    return q.outcome not in ("exc", "stop")


def entry_of(q, attr, key):
    """cfg.<attr>[key]"""
    d = q.ip.deref(q.attr(q.val, attr))
    if d is None or d.kind != "dict":
        return None
    for k, v in d.entries:
        if k == key:
            return v
    return None


# -- names ------------------------------------------------------------------

NAME = r"[- A-Za-z0-9_+.:@]{1,64}"
GOOD = ["a", "A", "z9", "0", "-", "_", " ", "a b", "...", ".a", "a.", "..a", "job+1", "host:1", "me@there", "a_b-c.d", "x" * 64, "-x", ".-", "Z" * 63]
BAD = ["", ".", "..", "a/b", "/", "../x", "a\n", "\n", "a\nb", "a\tb", "x" * 65, "x" * 200, "\u00e9", "a\x00", "a\\b", "a;b", "a\"b", "'", "<a>",
       "a,b", "a*", "~", "$x", "a\r", "\u0663", "a{", "a%", "a=b", "#", "a|b", "(", "\uff41", "/a", "a/", "..\n", ".\n", "x" * 64 + "\n"]
JOB = {"command": ["x"]}
POSITIONS = {
    "a job": lambda n: {"jobs": {n: dict(JOB)}},
    "a second job": lambda n: {"jobs": {"first": dict(JOB), n: dict(JOB)}},
    "a job group": lambda n: {"job_groups": {n: {"job_names": ["a"], "command": ["x"]}}},
    "a job of a job group": lambda n: {"job_groups": {"g": {"job_names": [n], "command": ["x"]}}},
    "the last job of a job group": lambda n: {"job_groups": {"g": {"job_names": ["first", n], "command": ["x"]}}},
    "a concurrency group": lambda n: {"concurrency_groups": {n: {}}},
    "a second concurrency group": lambda n: {"concurrency_groups": {"first": {"max": 2}, n: {"max": 3}}},
    "a concurrency group of a job": lambda n: {"jobs": {"a": {"command": ["x"], "concurrency_groups": [n]}}},
    "the last concurrency group of a job": lambda n: {"jobs": {"a": {"command": ["x"], "concurrency_groups": ["first", n]}}, "concurrency_groups": {"first": {}}},
    "a concurrency group of a job group": lambda n: {"job_groups": {"g": {"job_names": ["a"], "command": ["x"], "concurrency_groups": [n]}}},
}


def documented():
    return [(lang.nfa(NAME, "fullmatch"), True), (lang.literal(".", "eq"), False), (lang.literal("..", "eq"), False)]


def is_name(s):
    import re
    return isinstance(s, str) and re.fullmatch(NAME, s) is not None and s not in (".", "..")


class Union:
    """words of a conjunction of (language, wanted), negated"""

    def __init__(self, langs):
        self.langs = langs

    def initial(self):
        return tuple(a.initial() for a, w in self.langs)

    def step(self, s, ch):
        return tuple(a.step(x, ch) for (a, w), x in zip(self.langs, s))

    def accepts(self, s):
        return all(a.accepts(x) == w for (a, w), x in zip(self.langs, s))


def C01(rule):
    doc = Union(documented())
    for where, make in POSITIONS.items():
        def build(st, make=make):
            st.n = typed(st, "any-name", "str")
            return load(st, make(st.n))

        def check(q, where=where):
            if q.outcome == "stop":
                q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                return
            try:
                langs, complete = lang.of_path(q.p.decisions, q.st.n)
                complete = complete and q.st.n not in q.p.data.get("iterated", ())
                ok = accepted(q)
                if not ok:
                    r = is_refusal(q)
                    if r is not True:
                        w = lang.witness(langs)
                        if w is not None:
                            q.require(False if complete and r is False else None, q.last_loc(),
                                      "the name {!r} of {} ends in {}, not in a ConfigError".format(w, where, exc(q)))
                        return
                w = lang.witness(langs + [(doc, not ok)])
            except lang.Unknown as e:
                q.require(None, q.last_loc(), "condition on a name not understood: {}".format(e))
                return
            if w is None:
                q.require(True, q.last_loc(), "names of {}".format(where))
            else:
                q.require(False if complete else None, q.last_loc(),
                          "the name {!r} of {} is {}".format(w, where, "accepted" if ok else "refused"))
        rule.scenario("any name of {}".format(where), build, check)

        for t in ("int", "float", "bool", "NoneType", "tuple", "bytes"):
            def build(st, make=make, t=t):
                st.n = typed(st, "any-name", t)
                return load(st, make(st.n))

            def check(q, where=where, t=t):
                if q.outcome == "stop":
                    q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                    return
                q.require(is_refusal(q), q.last_loc(), "a name of {} which is no string but {} is refused with a ConfigError".format(where, t))
            rule.scenario("{} as the name of {}".format(t, where), build, check)

        for n in GOOD + BAD:
            def build(st, make=make, n=n):
                return load(st, make(n))

            def check(q, where=where, n=n):
                if q.outcome == "stop":
                    q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                    return
                if is_name(n):
                    q.require(accepted(q), q.last_loc(), "the name {!r} of {} is accepted".format(n, where))
                else:
                    q.require(is_refusal(q), q.last_loc(), "the name {!r} of {} is refused with a ConfigError".format(n, where))
            rule.scenario("name {!r} of {}".format(n, where), build, check)


# -- options ------------------------------------------------------------------

ENV = "environment"
MAIN = {
    "data_dir": ("str",), "template_dir": ("str",), "report_html_gz": ("bool",), "report_run_output_start": ("int",),
    "report_run_output_end": ("int",), "shutdown_kill_runs": ("bool",), "shutdown_kill_grace": ("int", "float"),
    "environment": ("dict",), "database": ("dict",),
}
JOBO = {
    "command": ("list", "str"), "schedule": ("str",), "schedule_timezone": ("str",), "max_execution": ("int", "float"),
    "max_execution_grace": ("int", "float"), "environment": ("dict",), "render_reports": ("bool",),
    "command_append_run": ("bool",), "jenkins_environment": ("bool",), "job_group": ("str",), "concurrent_runs": ("bool",),
}
GROUP = {"max": ("int",)}
SECONDS = {"shutdown_kill_grace", "max_execution", "max_execution_grace"}
DEFAULTS = {
    "main": {"template_dir": None, "report_html_gz": False, "report_run_output_start": 0, "report_run_output_end": 0,
             "shutdown_kill_runs": False, "shutdown_kill_grace": None, "environment": {},
             "database": {"type": "sqlite3", "file": None}},
    "job": {"schedule": None, "max_execution": None, "max_execution_grace": ("td", 60), "environment": {},
            "render_reports": True, "command_append_run": False, "jenkins_environment": False, "job_group": None,
            "concurrent_runs": False, "concurrency_groups": []},
    "group": {"max": 1},
}
SCALARS = ("bool", "int", "float", "str", "NoneType")
OPTIONS = [("main", o, t) for o, t in MAIN.items()] + [("job", o, t) for o, t in JOBO.items()] + \
    [("group job", o, t) for o, t in JOBO.items() if o != "job_group"] + [("group", o, t) for o, t in GROUP.items()]


def raw_with(level, options):
    """a configuration with these options of one job, group etc., and others
    which do not have them"""
    job = {"command": ["x"]}
    raw = {"jobs": {"j": dict(job), "k": dict(job)}, "concurrency_groups": {"g": {}, "h": {}}}
    if level == "main":
        raw.update(options)
    elif level == "job":
        raw["jobs"]["j"].update(options)
    elif level == "group job":
        del raw["jobs"]["j"]
        raw["job_groups"] = {"jg": dict(job, job_names=["j", "j2"], **options) if "command" not in options else dict(options, job_names=["j", "j2"])}
    else:
        raw["concurrency_groups"]["g"].update(options)
    return raw


def subject(q, level, name=None):
    """the object which has the options of this level"""
    if level == "main":
        return q.val
    if level in ("job", "group job"):
        return entry_of(q, "jobs", C(name or "j"))
    return entry_of(q, "concurrency_groups", C(name or "g"))


def same(q, v, x):
    """is the abstract value v the (nested) data x?"""
    ip = q.ip
    if v is None:
        return False
    if isinstance(x, tuple) and x and x[0] == "td":
        c = C(x[1]) if not isinstance(x[1], tuple) else x[1]
        if v[0] == "app" and v[1] == "td":
            if v[2][0] == "app" and v[2][1] in ("int", "round", "math.floor", "math.ceil", "abs") and v[2][2] == c:
                return False
            return eq3(q, v[2], c)
        return None if v[0] == "top" else False
    if isinstance(x, tuple) and x and x[0] == "strof":
        if v == x[1]:
            return False
        return True if text(v) == text(x[1]) else eq3(q, v, app("str", x[1]))
    if isinstance(x, tuple) and x and x[0] in KINDS:
        if text(v) == text(x):
            return True
        if v[0] == x[0] == "app" and v[1] == x[1] == "zone":
            return eq3(q, v[2], x[2])
        return eq3(q, v, x)
    o = ip.deref(v)
    if isinstance(x, dict):
        if o is None or o.kind != "dict":
            return None if v[0] in ("top", "app", "res") else False
        if o.rest is not None:
            return None
        d = {k: e for k, e in o.entries}
        want = {(k if isinstance(k, tuple) else C(k)): y for k, y in x.items()}
        if set(d) != set(want):
            return False if all(is_const(k) or k[0] == "sym" for k in d) else None
        rs = [same(q, d[k], y) for k, y in want.items()]
        return False if False in rs else None if None in rs else True
    if isinstance(x, list):
        ms, more = q.members(v)
        if ms is None or more:
            return None if v[0] != "const" else False
        if len(ms) != len(x):
            return False
        rs = [same(q, a, b) for a, b in zip(ms, x)]
        return False if False in rs else None if None in rs else True
    return eq3(q, text(v) if isinstance(x, str) else v, C(x)) if o is None else False


def td_model(st, fails=False):
    """timedelta(seconds=x), told from x itself; it may overflow"""
    def f(ip, a, k):
        r = ip.models["datetime.timedelta"](ip, a, k)
        if fails and not is_const(r) and ip.choose(2):
            ip.throw("OverflowError", "timedelta")
        ip.kinds[app("td", r)] = "object"
        return app("td", r)
    st.ip.ext_overrides["datetime.timedelta"] = f


def not_followed(q):
    if q.outcome == "stop":
        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
        return True
    return False


def known_zone(st):
    def f(ip, a, k):
        v = app("zone", *a) if a else S("local zone")
        ip.kinds[v] = "tzinfo"
        return v
    st.ip.ext_overrides["dateutil.tz.gettz"] = f
    st.ip.ext_overrides["zoneinfo.ZoneInfo"] = st.ip.ext_overrides["dateutil.tz.gettz"]


def option_value(st, o, t):
    if t == "NoneType":
        return None
    if t == "list":
        return ["x", "y"]
    if t == "dict":
        return {"K": "v"}
    return typed(st, "value", t)


def C02(rule):
    for level, o, types in OPTIONS:
        for t in SCALARS + ("list", "dict"):
            ok = t in types or (t == "NoneType" and o != "command")

            def build(st, level=level, o=o, t=t):
                known_zone(st)
                return load(st, raw_with(level, {o: option_value(st, o, t)}))

            def check(q, level=level, o=o, t=t, ok=ok):
                if not_followed(q):
                    return
                if ok and not (o == "command" and t == "str"):
                    q.require(accepted(q), q.last_loc(), "option {} ({}) is accepted with a value of type {}".format(o, level, t))
                elif ok:
                    q.require(accepted(q) or is_refusal(q), q.last_loc(), "a command which is a string is accepted, or refused with a ConfigError")
                else:
                    q.require(is_refusal(q), q.last_loc(), "option {} ({}) is refused with a value of type {}".format(o, level, t))
            rule.scenario("{} {}: {}".format(level, o, t), build, check)

        if o in SECONDS:
            def build(st, level=level, o=o):
                td_model(st, fails=True)
                known_zone(st)
                return load(st, raw_with(level, {o: typed(st, "value", "float")}))

            def check(q, o=o):
                if not_followed(q):
                    return
                q.require(accepted(q) or is_refusal(q), q.last_loc(),
                          "a value of {} which is no usable time is refused with a ConfigError".format(o))
            rule.scenario("{} {}: out of range".format(level, o), build, check)

        if o == ENV:
            cases = [({k: v}, kok and vok) for k, kok in (("str", True), ("int", False), ("NoneType", False), ("bool", False))
                     for v, vok in (("str", True), ("int", True), ("float", True), ("bool", False), ("NoneType", False), ("list", False), ("dict", False))]
            for case, ok in cases:
                (kt, vt), = case.items()
                for second in (False, True):
                    def build(st, level=level, kt=kt, vt=vt, second=second):
                        known_zone(st)
                        k = typed(st, "key", kt) if kt != "NoneType" else NONE
                        e = {"FIRST": "1"} if second else {}
                        e[k] = option_value(st, ENV, vt) if vt in ("NoneType", "list", "dict") else typed(st, "value", vt)
                        return load(st, raw_with(level, {ENV: e}))

                    def check(q, level=level, kt=kt, vt=vt, ok=ok):
                        if not_followed(q):
                            return
                        q.require(accepted(q) if ok else is_refusal(q), q.last_loc(),
                                  "environment ({}) with a name of type {} and a value of type {} is {}".format(level, kt, vt, "accepted" if ok else "refused"))
                    rule.scenario("{} environment {} {}: {}".format(level, "second" if second else "first", kt, vt), build, check)

    for what, ok, cmd in (
        ("an empty list", False, []), ("an empty string", False, ""), ("an argument which is null", False, ["x", None]),
        ("an argument which is a number", False, ["x", 1]), ("a program which is a number", False, [1, "x"]),
        ("an argument which is a list", False, ["x", ["y"]]), ("an argument which is a boolean", False, ["x", True]),
        ("an argument which is a number, between others", False, ["x", 1.5, "y"]),
        ("a list of one string", True, ["x"]), ("a list of strings", True, ["x", "", "y z"]),
        ("a string", True, "x 'y z'"), ("a string with an open quote", False, "x 'y"),
    ):
        for level in ("job", "group job"):
            def build(st, cmd=cmd, level=level):
                return load(st, raw_with(level, {"command": cmd}))

            def check(q, what=what, ok=ok):
                if not_followed(q):
                    return
                q.require(accepted(q) if ok else is_refusal(q), q.last_loc(), "a command which is {} is {}".format(what, "accepted" if ok else "refused with a ConfigError"))
            rule.scenario("command of a {}: {}".format(level, what), build, check)

    for what, raw in (
        ("a job without a command", {"jobs": {"a": {"command": ["x"]}, "j": {"schedule": "* * * * *"}}}),
        ("an empty job", {"jobs": {"j": {}}}),
        ("a job group without job_names", {"job_groups": {"jg": {"command": ["x"]}}}),
        ("a job group without a command", {"job_groups": {"jg": {"job_names": ["j"]}}}),
    ):
        def build(st, raw=raw):
            return load(st, raw)

        def check(q, what=what):
            if not_followed(q):
                return
            q.require(is_refusal(q), q.last_loc(), "{} is refused with a ConfigError".format(what))
        rule.scenario(what, build, check)


# -- values ---------------------------------------------------------------------


def C03(rule):
    def obj(q, level, o, name=None):
        x = subject(q, level, name)
        return None if x is None else q.attr(x, o)

    def check_defaults(q, level, name=None, but=()):
        for a, d in DEFAULTS[level.split()[-1]].items():
            if a in but:
                continue
            if a == "job_group" and level == "group job":
                d = "jg"
            v = obj(q, level, a, name)
            q.require(None if v is None else same(q, v, d), q.last_loc(), "{} of {} has its default".format(a, name or level))

    def build(st):
        td_model(st)
        return load(st, {"jobs": {"j": {"command": ["x"]}}, "concurrency_groups": {"g": {}}})

    def check(q):
        if not_followed(q):
            return
        if not accepted(q):
            q.require(False, q.last_loc(), "a job with nothing but a command is accepted")
            return
        for level in ("main", "job", "group"):
            check_defaults(q, level)
        q.require(same(q, obj(q, "job", "name"), "j"), q.last_loc(), "the job has its name")
        q.require(same(q, obj(q, "group", "name"), "g"), q.last_loc(), "the concurrency group has its name")
        jobs = q.ip.deref(q.attr(q.val, "jobs"))
        q.require(len(jobs.entries) == 1, q.last_loc(), "there are no other jobs")
    rule.scenario("defaults", build, check)

    def build(st):
        td_model(st)
        return load(st, {})

    def check(q):
        if not_followed(q):
            return
        q.require(accepted(q), q.last_loc(), "an empty configuration is accepted")
        if accepted(q):
            for a in ("jobs", "concurrency_groups"):
                d = q.ip.deref(q.attr(q.val, a))
                q.require(None if d is None else not d.entries, q.last_loc(), "an empty configuration has no {}".format(a))
            check_defaults(q, "main")
    rule.scenario("an empty configuration", build, check)

    # jobs which differ in one option only
    for o, types in JOBO.items():
        if o == "job_group":
            continue

        def build(st, o=o):
            td_model(st)
            known_zone(st)
            st.opts = {}
            for p, ts in JOBO.items():
                if p == "job_group":
                    continue
                t = [x for x in ts if x != "NoneType"][0]
                st.opts[p] = ["x", "y"] if p == "command" else {"K": typed(st, "value " + p, "str")} if p == "environment" else typed(st, "value " + p, "int" if p in SECONDS else t)
            t = [x for x in types if x != "NoneType"][0]
            st.others = [["z"] if o == "command" else {"K": typed(st, "other {}".format(i), "str")} if o == "environment" else typed(st, "other {}".format(i), "int" if o in SECONDS else t) for i in range(2)]
            st.ip.data.setdefault("distinct", set()).update([S("value " + o), S("other 0"), S("other 1")] if o in ("schedule", "schedule_timezone") else ())
            st.jobs4 = {n: dict(st.opts, **({o: st.others[i]} if i is not None else {})) for n, i in (("a", None), ("b", 0), ("c", None), ("d", 1))}
            return load(st, {"jobs": {n: dict(x) for n, x in st.jobs4.items()}})

        def check(q, o=o):
            if not_followed(q):
                return
            if not accepted(q):
                q.require(None, q.last_loc(), "not accepted")
                return
            for n, opts in q.st.jobs4.items():
                j = entry_of(q, "jobs", C(n))
                for p, v in opts.items():
                    w = ("td", v) if p in SECONDS else app("zone", v) if p == "schedule_timezone" else v
                    x = None if j is None else q.attr(j, p)
                    q.require(None if x is None else same(q, x, w), q.last_loc(), "a job has its own {}, whatever options other jobs share with it".format(p))
        rule.scenario("jobs which differ in {}".format(o), build, check)

    for level, o, types in OPTIONS:
        for t in types + ("NoneType",):
            if o == "command" and t == "NoneType":
                continue

            def build(st, level=level, o=o, t=t):
                td_model(st)
                known_zone(st)
                st.value = option_value(st, o, t)
                if o == "command" and t == "str":
                    st.value = "x 'a b' c\\ d \"\" e"
                if o == "environment" and t == "dict":
                    st.value = {"K": "v", "L": typed(st, "text", "str"), "M": typed(st, "number", "int"), "N": typed(st, "fraction", "float"), "O": 5, "P": 1.5}
                if o == "database" and t == "dict":
                    st.value = {"type": "sqlite3", "file": typed(st, "file", "str"), "x": 1}
                return load(st, raw_with(level, {o: st.value}))

            def check(q, level=level, o=o, t=t):
                if not_followed(q):
                    return
                if not accepted(q):
                    q.require(None, q.last_loc(), "{} is not accepted".format(o))
                    return
                want = q.st.value
                d = DEFAULTS[level.split()[-1]]
                if t == "NoneType":
                    want = d.get(o)
                    if o == "job_group" and level == "group job":
                        want = "jg"
                    if o not in d:
                        want = "?"
                elif o in SECONDS:
                    want = ("td", want)
                elif o == "command" and t == "str":
                    want = ["x", "a b", "c d", "", "e"]
                elif o == "environment":
                    want = {k: (v if v in ("v", S("text")) else ("strof", v) if isinstance(v, tuple) else str(v)) for k, v in want.items()}
                elif o == "schedule_timezone":
                    want = app("zone", want)
                elif o == "job_group" and level == "group job":
                    want = "jg"
                names = ("j", "j2") if level == "group job" else ("g",) if level == "group" else ("j",)
                for n in names:
                    v = obj(q, level, o, n)
                    if want != "?":
                        q.require(None if v is None else same(q, v, want), q.last_loc(),
                                  "option {} ({}) of {} has the configured value (a {})".format(o, level, n, t))
                    check_defaults(q, level, n, but=(o,))
                if level != "main":
                    other = "h" if level == "group" else "k"
                    check_defaults(q, level.split()[-1], other)
                    if level != "group":
                        q.require(same(q, obj(q, "job", "command", other), ["x"]), q.last_loc(), "the other job has its own command")
                    check_defaults(q, "main")
                else:
                    check_defaults(q, "job")
                    check_defaults(q, "group")
            rule.scenario("{} {}: value, {}".format(level, o, t), build, check)


# -- schedules -------------------------------------------------------------------

SCHEDULE_ERR = ["ValueError", "KeyError", "TypeError", "AttributeError", "OverflowError", "IndexError", "RecursionError", "RuntimeError",
                "croniter.CroniterBadCronError", "ZeroDivisionError"]


def C04(rule):
    def computed(q, schedule, name):
        # get_next_schedule_time(schedule, job name, start time)
        ps = params(q.st.w.repo.funcs["dsari.utils.get_next_schedule_time"].node)
        for args, kw, loc in q.st.next_calls:
            b = dict(zip(ps, args))
            b.update(kw)
            if same(q, b.get(ps[0]), schedule) is True and same(q, b.get(ps[1]), name) is True:
                return True
        return False

    for level in ("job", "group job"):
        def build(st, level=level):
            known_zone(st)
            return load(st, raw_with(level, {"schedule": typed(st, "schedule", "str"), "schedule_timezone": typed(st, "zone", "str")}), schedule_raises=SCHEDULE_ERR)

        def check(q, level=level):
            if not_followed(q):
                return
            if q.ip.data.get("raised"):
                q.require(is_refusal(q), q.last_loc(), "a schedule of a {} which cannot be understood is refused with a ConfigError".format(level))
                return
            q.require(accepted(q), q.last_loc(), "a schedule which can be understood is accepted")
            if accepted(q):
                for n in ("j",) if level == "job" else ("j", "j2"):
                    q.require(computed(q, S("schedule"), n), q.last_loc(), "the schedule of {} is tried before it is accepted".format(n))
                    q.require(same(q, q.attr(subject(q, level, n), "schedule"), S("schedule")), q.last_loc(), "the job has its schedule")
        rule.scenario("schedule of a {}".format(level), build, check)

        def build(st, level=level):
            # which timezones there are
            def gettz(ip, a, k):
                i = ip.choose(4)
                if i == 0:
                    v = app("zone", *a)
                    ip.kinds[v] = "tzinfo"
                    return v
                ip.data.setdefault("raised", []).append(("gettz", i, ip.loc()))
                if i == 1:
                    return NONE
                ip.throw(["ValueError", "TypeError"][i - 2], "gettz")

            def zoneinfo(ip, a, k):
                if ip.choose(2):
                    ip.data.setdefault("raised", []).append(("ZoneInfo", 1, ip.loc()))
                    ip.throw("zoneinfo.ZoneInfoNotFoundError", "ZoneInfo")
                v = app("zone", *a)
                ip.kinds[v] = "tzinfo"
                return v
            st.ip.ext_overrides["dateutil.tz.gettz"] = gettz
            st.ip.ext_overrides["zoneinfo.ZoneInfo"] = zoneinfo
            return load(st, raw_with(level, {"schedule": "* * * * *", "schedule_timezone": typed(st, "zone", "str")}))

        def check(q, level=level):
            if not_followed(q):
                return
            if q.ip.data.get("raised"):
                q.require(is_refusal(q), q.last_loc(), "a timezone of a {} which is not known is refused with a ConfigError".format(level))
                return
            q.require(accepted(q), q.last_loc(), "a timezone which is known is accepted")
            if accepted(q):
                v = q.attr(subject(q, level), "schedule_timezone")
                q.require(same(q, v, app("zone", S("zone"))), q.last_loc(), "the job has its timezone")
        rule.scenario("timezone of a {}".format(level), build, check)

    def build(st):
        return load(st, {"jobs": {"a": {"command": ["x"]}, "b": {"command": ["x"], "schedule": "* * * * *"}, "c": {"command": ["x"], "schedule": "bad"}}},
                    schedule_raises=["ValueError"])

    def check(q):
        if not_followed(q):
            return
        if q.ip.data.get("raised"):
            q.require(is_refusal(q), q.last_loc(), "a schedule which cannot be understood is refused with a ConfigError, whatever the other jobs")
        else:
            q.require(accepted(q), q.last_loc(), "schedules which can be understood are accepted")
            if accepted(q):
                for s, n in (("* * * * *", "b"), ("bad", "c")):
                    q.require(computed(q, s, n), q.last_loc(), "the schedule of {} is tried".format(n))
    rule.scenario("several schedules", build, check)

    def build2(st):
        return load(st, {"jobs": {"j": {"command": ["x"], "schedule": "* * * * *"}}}, none=True)

    def check(q):
        if not_followed(q):
            return
        q.require(accepted(q), q.last_loc(), "a schedule without further times is accepted")
    rule.scenario("a schedule which is over", build2, check)


# -- files --------------------------------------------------------------------------

CONFIG_FILES = ["dsari.yaml", "dsari.json", "config.d/a.yaml", "config.d/b.yaml", "config.d/a.json", "config.d/b.json"]


def C05(rule):
    def files(names, order):
        """each sets what no other sets, and for each other what both set"""
        out = {}
        for f in names:
            env = {"only " + f: f, "all": f}
            for g in names:
                if f != g:
                    env["both " + " ".join(sorted((f, g)))] = f
            out[f] = {"environment": env, "template_dir": f, "shutdown_kill_runs": f == order[-1],
                      "jobs": {"all": {"command": [f], "environment": dict(env)}, "job " + f.split("/")[-1]: {"command": ["x"]}}}
        return out

    def want_env(names, order):
        w = {"only " + f: f for f in names}
        w["all"] = [f for f in order if f in names][-1]
        for f in names:
            for g in names:
                if f != g:
                    w["both " + " ".join(sorted((f, g)))] = max(f, g, key=order.index)
        return w

    def judge(q, names, order, what):
        if not_followed(q):
            return
        if not accepted(q):
            q.require(False if is_refusal(q) is not None else None, q.last_loc(), "a valid configuration is accepted ({})".format(what))
            return
        for e in q.events:
            q.require(e.name not in ("os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "shutil.rmtree"), e.loc, "loading changes no file")
        w = want_env(names, order)
        q.require(same(q, q.attr(q.val, "environment"), w), q.last_loc(), "the files are merged recursively in the documented order ({})".format(what))
        q.require(same(q, q.attr(q.val, "template_dir"), w["all"]), q.last_loc(), "an option has the value from the last file with it ({})".format(what))
        j = entry_of(q, "jobs", C("all"))
        q.require(None if j is None else same(q, q.attr(j, "environment"), w), q.last_loc(), "a job of several files is merged in the documented order ({})".format(what))
        q.require(None if j is None else same(q, q.attr(j, "command"), [w["all"]]), q.last_loc(), "a list is that of the last file with it ({})".format(what))
        jobs = q.ip.deref(q.attr(q.val, "jobs"))
        have = {k[2] for k, v in jobs.entries if is_const(k)}
        q.require(have == {"all"} | {"job " + f.split("/")[-1] for f in names}, q.last_loc(), "the jobs of all files are there, and no others ({})".format(what))
        for e in q.evs("load!"):
            p = e.data
            n = str(p[2]) if is_const(p) else show(p)
            lib = e.args[0][2].split(".")[0]
            if n.endswith(".yaml"):
                q.require(lib == "yaml", e.loc, "a .yaml file is read as YAML")
            elif n.endswith(".json"):
                q.require(lib in ("json", "yaml"), e.loc, "a .json file is read as JSON")

    listings = [["b.json", "a.json", "b.yaml", "a.yaml"], ["a.yaml", "a.json", "b.yaml", "b.json"], ["b.yaml", "b.json", "a.yaml", "a.json"]]
    import itertools
    subsets = [CONFIG_FILES] + [list(c) for n in (1, 2) for c in itertools.combinations(CONFIG_FILES, n)] + [[f for f in CONFIG_FILES if f != g] for g in CONFIG_FILES]
    for names in subsets:
        for i, listing in enumerate(listings):
            if i and len(names) < 5:
                continue
            d = [x for x in listing if "config.d/" + x in names]

            def build(st, names=names, d=d):
                return load(st, None, files=files(names, CONFIG_FILES), d=d + ["README", "z.txt", "yaml", "x.json.bak"] if d else ())
            rule.scenario("files {} listed as {}".format(", ".join(names), ", ".join(d)), build,
                          lambda q, names=names: judge(q, names, CONFIG_FILES, ", ".join(names)))

    # many files
    order = ["dsari.yaml", "dsari.json"] + ["config.d/{}.yaml".format(n) for n in ("00", "1", "10", "2", "a", "b")] + ["config.d/{}.json".format(n) for n in ("0", "1", "10", "2", "a", "z")]

    def build(st):
        d = [f.split("/")[1] for f in order if "/" in f]
        return load(st, None, files=files(order, order), d=d[::-1])
    rule.scenario("many files", build, lambda q: judge(q, order, order, "many files"))

    # another config.d
    for first in ("dsari.yaml", "dsari.json"):
        def build(st, first=first):
            st.other = typed(st, "other dir", "str")
            st.ip.facts[("truthy", st.other)] = True
            r = files([first], [first])
            r[first]["config_d"] = st.other
            x = load_files(st, r, {(st.other, "a.yaml"): {"template_dir": "other"}, (S("config_dir"), "config.d", "a.yaml"): {"template_dir": "default"}},
                           {(st.other,): ["a.yaml"], (S("config_dir"), "config.d"): ["a.yaml"]})
            return x

        def check(q):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "config_d is accepted")
            if accepted(q):
                q.require(same(q, q.attr(q.val, "template_dir"), "other"), q.last_loc(), "the files of the configured config_d are read, and those of the default one not")
        rule.scenario("config_d in {}".format(first), build, check)

    # no config.d
    for what, cd in (("config.d does not exist", 0), ("the configured config_d does not exist", S("other dir")), ("no config_d", None)):
        def build(st, cd=cd):
            data = {"template_dir": "x", "jobs": {"a": {"command": ["x"]}}}
            if cd != 0:
                data["config_d"] = typed(st, "other dir", "str") if cd is not None else None
                st.ip.facts[("truthy", S("other dir"))] = True
            dirs = {(S("config_dir"), "config.d"): ["a.yaml"]} if cd != 0 else {}
            return load_files(st, {"dsari.json": data}, {(S("config_dir"), "config.d", "a.yaml"): {"template_dir": "default"}}, dirs)

        def check(q, what=what):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "a configuration without further files is accepted ({})".format(what))
            if accepted(q):
                q.require(same(q, q.attr(q.val, "template_dir"), "x"), q.last_loc(), "no other file is read ({})".format(what))
        rule.scenario(what, build, check)

    def build(st):
        return load_files(st, {"dsari.json": {"template_dir": "x", "jobs": {"a": {"command": ["x"]}}}}, {},
                          {(S("config_dir"), "config.d"): ["a.yaml", "b.json"], (S("config_dir"), "config.d", "a.yaml"): [], (S("config_dir"), "config.d", "b.json"): []})

    def check(q):
        if not_followed(q):
            return
        q.require(accepted(q), q.last_loc(), "what is no file in config.d is ignored")
    rule.scenario("directories in config.d", build, check)

    # files which cannot be read
    for f, name in (("dsari.yaml", "yaml.safe_load"), ("dsari.json", "json.load"), ("config.d/a.yaml", "yaml.safe_load"), ("config.d/a.json", "json.load")):
        errs = ["ValueError", "UnicodeDecodeError"] + (["yaml.YAMLError", "yaml.scanner.ScannerError"] if "yaml" in name else ["json.JSONDecodeError"])

        def build(st, f=f):
            d = [f.split("/")[1]] if "/" in f else []
            return load(st, None, files={"dsari.json" if f != "dsari.json" else "dsari.yaml": {}, f: {}}, d=d)

        def check(q, f=f):
            if not_followed(q):
                return
            if q.ip.data.get("raised"):
                q.require(is_refusal(q), q.last_loc(), "a file which cannot be parsed ({}) is refused with a ConfigError".format(f))
            else:
                q.require(accepted(q), q.last_loc(), "an empty configuration is accepted")
        rule.scenario("{} cannot be parsed".format(f), build, check, raises={name: errs, "yaml.load": errs, "json.loads": errs})
        errs = ["PermissionError", "IsADirectoryError", "FileNotFoundError"]

        def check(q, f=f):
            if not_followed(q):
                return
            if q.ip.data.get("raised"):
                q.require(not accepted(q), q.last_loc(), "a file which cannot be read ({}) is not ignored".format(f))
        rule.scenario("{} cannot be opened".format(f), build, check, raises={"open": errs})
        rule.scenario("{} cannot be read".format(f), build, check, raises={name: ["RecursionError", "OSError"], "yaml.load": ["RecursionError"], "json.loads": ["RecursionError"]})

    for f in CONFIG_FILES:
        def build(st, f=f):
            st.unreadable = f
            files = {g: {"jobs": {"j " + g.split("/")[-1]: {"command": ["x"]}}} for g in CONFIG_FILES}
            return load(st, None, files=files, d=[g.split("/")[1] for g in files if "/" in g])

        def check(q, f=f):
            if not_followed(q):
                return
            if "/" not in f:
                q.require(not accepted(q), q.last_loc(), "a file which may not be read ({}) is not ignored".format(f))
                return
            q.require(accepted(q), q.last_loc(), "a file in config.d which may not be read is left out")
            if accepted(q):
                d = q.ip.deref(q.attr(q.val, "jobs"))
                q.require({k for k, v in d.entries} == {C("j " + g.split("/")[-1]) for g in CONFIG_FILES if g != f}, q.last_loc(), "all other files are read")
        rule.scenario("{} may not be read".format(f), build, check)

    # other names in config.d
    NAMES = {"x.yaml.json": "json", "x.json.yaml": "yaml", "a.b.c.json": "json", "a b.yaml": "yaml", "x.json.bak": None, "x.yaml~": None,
             "x.yaml.dpkg-old": None, "json": None, "yaml": None, "xjson": None, "README": None, "x.yml": None, "x.JSON": None, "json.txt": None, "#x.json#": None, "x.json ": None}

    def build(st):
        files = {"dsari.yaml": {"jobs": {"main": {"command": ["x"]}}}}
        files.update({"config.d/" + n: {"jobs": {"j " + n.replace("#", "").strip(): {"command": ["x"]}}} for n in list(NAMES) + [".yaml", ".x.json"]})
        return load(st, None, files=files, d=list(NAMES) + [".yaml", ".x.json"])

    def check(q):
        if not_followed(q):
            return
        q.require(accepted(q), q.last_loc(), "files of other names are ignored, and files of any name with .yaml and .json read")
        if accepted(q):
            d = q.ip.deref(q.attr(q.val, "jobs"))
            # what becomes of hidden files is not documented
            q.require({k for k, v in d.entries if k not in (C("j .yaml"), C("j .x.json"))} == {C("main")} | {C("j " + n) for n, t in NAMES.items() if t}, q.last_loc(), "exactly the files whose names end in .yaml and .json are read")
            for e in q.evs("load!"):
                n = show(e.data).rsplit("/", 1)[-1].strip("'")
                if NAMES.get(n) == "json":
                    q.require(e.args[0][2].split(".")[0] in ("json", "yaml"), e.loc, "a .json file is read as JSON")
                elif NAMES.get(n) == "yaml":
                    q.require(e.args[0][2].split(".")[0] == "yaml", e.loc, "a .yaml file is read as YAML")
    rule.scenario("names in config.d", build, check)

    def build(st):
        e = {"a": "1"}
        return load(st, None, files={"dsari.yaml": {"environment": e, "jobs": {"j": {"command": ["x"], "environment": e}}}, "dsari.json": {"environment": typed(st, "text", "str")}})

    def check(q):
        if not_followed(q):
            return
        q.require(is_refusal(q), q.last_loc(), "a later value of a wrong type is refused, as if it were the only one")
    rule.scenario("replacing a dictionary by a string", build, check)

    # values of other types replace, and are replaced
    E1, E2, E3 = {"a": "1", "c": "1"}, {"b": "2"}, {"a": "3", "d": "3"}
    for what, vs, want in (
        ("a dictionary by null", [E1, None], {}),
        ("null by a dictionary", [None, E2], E2),
        ("a dictionary by null by a dictionary", [E1, None, E2], E2),
        ("null by dictionaries", [None, E1, E3], {"a": "3", "c": "1", "d": "3"}),
        ("a dictionary by an empty one", [E1, {}], E1),
    ):
        def build(st, vs=vs):
            fs = {f: {"jobs": {"j": {"command": ["x"], "environment": v}}, "environment": v} for f, v in zip(CONFIG_FILES, vs)}
            return load(st, None, files=fs, d=[f.split("/")[1] for f in fs if "/" in f])

        def check(q, what=what, want=want):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "a valid configuration is accepted ({})".format(what))
            if not accepted(q):
                return
            j = entry_of(q, "jobs", C("j"))
            for o in (q.val, j):
                e = None if o is None else q.attr(o, "environment")
                if e == NONE and not want:
                    continue
                q.require(None if o is None else same(q, e, want), q.last_loc(), "later values replace earlier ones of other types ({})".format(what))
        rule.scenario("replacing {}".format(what), build, check)
    for what, vs, want in (("a list by a string", [["a", "b"], "c d"], ["c", "d"]), ("a string by a list", ["c d", ["a", "b"]], ["a", "b"]), ("a list by a list", [["a", "b"], ["c"]], ["c"])):
        def build(st, vs=vs):
            return load(st, None, files={f: {"jobs": {"j": {"command": v}}} for f, v in zip(CONFIG_FILES, vs)})

        def check(q, what=what, want=want):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "a valid configuration is accepted ({})".format(what))
            j = entry_of(q, "jobs", C("j")) if accepted(q) else None
            if j is not None:
                q.require(same(q, q.attr(j, "command"), want), q.last_loc(), "later values replace earlier ones of other types ({})".format(what))
        rule.scenario("replacing {}".format(what), build, check)


def load_files(st, files, more, dirs):
    """more: {parts of the path: data}; dirs: {parts of the path: names}"""
    ip = st.ip
    ip.overrides.pop("dsari.config.ConfigLoader.load_dir", None)
    next_time(st)
    st.dir = S("config_dir")
    ip.kinds[st.dir] = "str"

    def p(parts):
        parts = [x if isinstance(x, tuple) else C(x) for x in parts]
        return path(st, *parts) if len(parts) > 1 else parts[0]
    content = {path(st, st.dir, C(n)): mk(ip, x) for n, x in files.items()}
    content.update({p(k): mk(ip, x) for k, x in more.items()})
    st.fs = Files(st, content)
    known = {text(p(k)): v for k, v in dirs.items()}

    def isdir(ip, a, k):
        if a[0] == NONE:
            ip.throw("TypeError", "os.path.isdir")
        return C(text(a[0]) in known)

    def listdir(ip, a, k):
        if a[0] != NONE and text(a[0]) not in known:
            ip.throw("FileNotFoundError", "os.listdir")
        return ip.new_list([C(n) for n in known.get(text(a[0]), ())])
    ip.ext_overrides["os.path.isdir"] = isdir
    ip.ext_overrides["os.listdir"] = listdir
    for n in ("os.access", "os.path.exists", "os.path.lexists"):
        ip.ext_overrides[n] = lambda ip, a, k: C(text(a[0]) in known or st.fs.exists(ip, a, k) == TRUE)
    r = st.w.repo.funcs.get(GET)
    if r is None:
        raise Anchor(GET)
    return ip.call(("fn", r), [st.dir], {})


# -- dump ------------------------------------------------------------------------------


def jsonable(q, v, raw=False):
    """can the value be written as JSON / YAML and read back: True/False/None"""
    ip = q.ip
    if is_const(v):
        return v[2] is None or isinstance(v[2], (bool, int, float, str))
    o = ip.deref(v)
    if o is not None and o.kind == "dict":
        rs = [jsonable(q, x) for kv in o.entries for x in kv]
        return False if False in rs else None if None in rs or o.rest is not None else True
    if (o is not None and o.kind == "list") or v[0] == "tuple":
        if o is not None and o.typ == "set":
            return False
        ms, more = q.members(v)
        rs = [jsonable(q, x) for x in ms]
        return False if False in rs else None if None in rs or more else True
    if o is not None:
        return False
    if v[0] in ("str", "lin") or (v[0] == "app" and str(v[1]).lstrip(".") in ("isoformat", "strftime", "format", "str", "timestamp", "total_seconds")):
        return True
    if v[0] == "app" and v[1] in ("td", "zone") or q.ip.kinds.get(v) in ("datetime", "tzinfo", "object"):
        return False
    t = ip.types_of(v)
    if t is not None and t <= {"int", "float", "str", "bool", "NoneType"}:
        return True
    return None


FULL = lambda st: {  # noqa: E731
    "data_dir": typed(st, "data", "str"), "template_dir": typed(st, "template", "str"), "report_html_gz": typed(st, "gz", "bool"),
    "report_run_output_start": typed(st, "start", "int"), "report_run_output_end": typed(st, "end", "int"),
    "shutdown_kill_runs": typed(st, "kill", "bool"), "shutdown_kill_grace": typed(st, "grace", "float"),
    "environment": {"A": "b", "N": 5}, "database": {"type": "sqlite3", "file": typed(st, "file", "str")},
    "jobs": {
        "full": {
            "command": ["x", "a b"], "schedule": typed(st, "schedule1", "str"), "schedule_timezone": typed(st, "zone1", "str"),
            "max_execution": typed(st, "max1", "float"), "max_execution_grace": typed(st, "maxgrace1", "float"), "environment": {"J": "k", "M": 1.5},
            "render_reports": typed(st, "render1", "bool"), "command_append_run": typed(st, "append1", "bool"),
            "jenkins_environment": typed(st, "jenkins1", "bool"), "job_group": typed(st, "jg1", "str"),
            "concurrent_runs": typed(st, "conc1", "bool"), "concurrency_groups": ["g", "implicit"],
        },
        "string": {"command": "x 'a b'"},
        "empty": {"command": ["x"]},
        "no tz": {"command": ["x"], "schedule": typed(st, "schedule2", "str"), "concurrency_groups": ["h"]},
    },
    "job_groups": {"jg": {"job_names": ["a", "b"], "command": ["y"], "schedule": "H * * * *", "concurrency_groups": ["g"], "max_execution": 5}},
    "concurrency_groups": {"g": {"max": typed(st, "gmax", "int")}, "h": {}},
}


def C06(rule):
    from .interp import OInst

    for fmt in ("json", "yaml"):
        for raw in (False, True):
            for which in ("full", "empty"):
                def build(st, fmt=fmt, raw=raw, which=which):
                    ip = st.ip
                    td_model(st)
                    known_zone(st)
                    data = FULL(st) if which == "full" else {}
                    captured = []

                    def dump(ip, a, k):
                        captured.append(a[0])
                        return ip.fresh("dumped")
                    for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
                        ip.ext_overrides[n] = dump

                    def dump_to(ip, a, k):
                        captured.append(a[0])
                        ip.emit("print", a)
                        return NONE
                    ip.ext_overrides["json.dump"] = dump_to
                    ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
                    st.captured = captured
                    st.source = data
                    ip.kinds[("sym", "global:dsari.config.DEFAULT_DATA_DIR")] = "str"
                    ip.facts[("types", ("sym", "global:dsari.config.DEFAULT_DATA_DIR"))] = frozenset({"str"})
                    cfg = load(st, data)
                    args = ip.alloc(OInst(("ext", "argparse.Namespace"), {
                        "config_dir": st.dir, "command": C("config"), "command_config": C("dump"), "raw": C(raw), "format": C(fmt),
                    }))
                    cls = st.w.repo.resolve_dotted("dsari.info.Info")
                    if not cls or cls[0] != "class":
                        raise Anchor("dsari.info.Info")
                    info = ip.instantiate(cls[1], [args], {})
                    ip.call(("bound", info, cls[1].find("main")), [], {})
                    if len(captured) != 1:
                        raise Stop("dumps {} times".format(len(captured)))
                    st.first, st.dumped = cfg, captured[0]
                    return load_files(st, {"dsari.json": st.dumped}, {}, {})

                def check(q, fmt=fmt, raw=raw):
                    if q.outcome == "stop":
                        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                        return
                    what = "config dump{} --format {}".format(" --raw" if raw else "", fmt)
                    if q.outcome == "exc":
                        q.require(False, q.last_loc(), "what {} prints can be loaded again".format(what))
                        return
                    q.require(jsonable(q, q.st.dumped), q.last_loc(), "what {} prints can be written as JSON or YAML".format(what))
                    if raw:
                        q.require(same(q, q.st.dumped, q.st.source), q.last_loc(), "{} prints the configuration as it was read".format(what))
                    a, b = q.st.first, q.val
                    for attr in MAIN:
                        if attr == "database":
                            x, y = (dict((k, v) for k, v in (q.ip.deref(q.attr(z, attr)) or q.ip.deref(q.ip.new_dict())).entries) for z in (a, b))
                            if x.get(C("file")) == NONE and y.get(C("file")) is not None and text(y[C("file")]) == text(path(q.st, q.attr(a, "data_dir"), C("dsari.sqlite3"))):
                                continue
                        q.require(alike(q, q.attr(a, attr), q.attr(b, attr)), q.last_loc(), "{} keeps {}".format(what, attr))
                    ja, jb = (q.ip.deref(q.attr(x, "jobs")) for x in (a, b))
                    names = {k for k, v in ja.entries}
                    q.require(names == {k for k, v in jb.entries}, q.last_loc(), "{} keeps the jobs".format(what))
                    for attr in list(JOBO) + ["schedule_timezone_name", "name"]:
                        for n in names:
                            x, y = (next((v for k, v in j.entries if k == n), None) for j in (ja, jb))
                            if x and y and q.attr(x, attr) is not None:
                                q.require(alike(q, q.attr(x, attr), q.attr(y, attr)), q.last_loc(), "{} keeps {} of job {}".format(what, attr, n[2]))
                    for n in names:
                        x, y = (next((v for k, v in j.entries if k == n), None) for j in (ja, jb))
                        if x and y:
                            gx, gy = ([q.attr(g, "name") for g in q.members(q.attr(j, "concurrency_groups"))[0] or []] for j in (x, y))
                            q.require(sorted(map(repr, gx)) == sorted(map(repr, gy)), q.last_loc(), "{} keeps the concurrency groups of job {}".format(what, n[2]))
                    ga, gb = (q.ip.deref(q.attr(x, "concurrency_groups")) for x in (a, b))
                    q.require({k for k, v in ga.entries} == {k for k, v in gb.entries}, q.last_loc(), "{} keeps the concurrency groups".format(what))
                    for k, v in ga.entries:
                        w = next((w for l, w in gb.entries if l == k), None)
                        if w is not None:
                            q.require(alike(q, q.attr(v, "max"), q.attr(w, "max")), q.last_loc(), "{} keeps the maximum of a concurrency group".format(what))
                rule.scenario("dump {} {} {}".format(which, fmt, "raw" if raw else "compiled"), build, check)


def alike(q, a, b):
    """two abstract values, structurally"""
    if a is None or b is None:
        return None
    if a == b or text(a) == text(b):
        return True
    oa, ob = q.ip.deref(a), q.ip.deref(b)
    if oa is not None and ob is not None:
        if oa.kind != ob.kind:
            return False
        if oa.kind == "dict":
            if {k for k, v in oa.entries} != {k for k, v in ob.entries}:
                return False
            d = {k: v for k, v in ob.entries}
            rs = [alike(q, v, d[k]) for k, v in oa.entries]
        elif oa.kind == "list":
            x, y = q.members(a)[0], q.members(b)[0]
            if len(x) != len(y):
                return False
            rs = [alike(q, v, w) for v, w in zip(x, y)]
        else:
            return None
        return False if False in rs else None if None in rs else True
    za, zb = ((v[0] == "app" and v[1] in ("zone", "td")) for v in (a, b))
    if za or zb:
        # a timezone or duration made from the configured value
        if za and zb and a[1] == b[1]:
            return eq3(q, a[2], b[2])
        return None if "top" in (a[0], b[0]) else False
    return eq3(q, a, b)


# -- groups ---------------------------------------------------------------------------


def C07(rule):
    raw = {
        "jobs": {"one": {"command": ["o"], "concurrency_groups": ["g", "implicit", "h", "H"]}, "two": {"command": ["t"], "concurrency_groups": ["implicit"]},
                 "three": {"command": ["u"]}},
        "job_groups": {"jg": {"job_names": ["a", "b", "c"], "command": ["y"], "concurrency_groups": ["h", "other"]},
                       "jg2": {"job_names": ["d"], "job_group": "jg", "command": ["z"], "concurrency_groups": ["implicit"]},
                       "jg3": {"job_names": [], "command": ["z"]}},
        "concurrency_groups": {"g": {"max": S("max-g")}, "h": {"max": 7}, "unused": {"max": 3}, "plain": {}, "H": {"max": 2}, "G": {"max": 4}},
    }
    want = {"one": (["o"], None, ["g", "implicit", "h", "H"]), "two": (["t"], None, ["implicit"]), "three": (["u"], None, []),
            "a": (["y"], "jg", ["h", "other"]), "b": (["y"], "jg", ["h", "other"]), "c": (["y"], "jg", ["h", "other"]),
            "d": (["z"], "jg2", ["implicit"])}
    maxes = {"g": S("max-g"), "h": 7, "H": 2, "G": 4, "unused": 3, "plain": 1, "implicit": 1, "other": 1}

    def build(st):
        typed(st, "max-g", "int")
        return load(st, raw)

    def check(q):
        if not_followed(q):
            return
        if not accepted(q):
            q.require(False, q.last_loc(), "jobs, job groups and concurrency groups are accepted")
            return
        jobs = q.ip.deref(q.attr(q.val, "jobs"))
        q.require({k for k, v in jobs.entries} == {C(n) for n in want}, q.last_loc(), "the jobs are those configured and those of the job groups")
        groups = {k: v for k, v in q.ip.deref(q.attr(q.val, "concurrency_groups")).entries}
        q.require(set(groups) == {C(n) for n in maxes}, q.last_loc(), "the concurrency groups are those configured and those which jobs have")
        for n, m in maxes.items():
            if C(n) in groups:
                q.require(same(q, q.attr(groups[C(n)], "max"), m), q.last_loc(), "concurrency group {} has its maximum".format(n))
                q.require(same(q, q.attr(groups[C(n)], "name"), n), q.last_loc(), "a concurrency group has its name")
        for n, (cmd, jg, cg) in want.items():
            j = entry_of(q, "jobs", C(n))
            if j is None:
                continue
            q.require(same(q, q.attr(j, "command"), cmd), q.last_loc(), "{} has the command of its group".format(n))
            q.require(same(q, q.attr(j, "job_group"), jg), q.last_loc(), "{} has its job group".format(n))
            ms, more = q.members(q.attr(j, "concurrency_groups"))
            q.require(None if ms is None or more else [q.attr(g, "name") for g in ms] == [C(c) for c in cg], q.last_loc(), "{} has its concurrency groups".format(n))
            for g in ms or ():
                q.require(g == groups.get(q.attr(g, "name")), q.last_loc(), "jobs with the same concurrency group share it")
    rule.scenario("jobs and groups", build, check)

    # a job group is the same as its jobs
    for o, types in list(JOBO.items()) + [("concurrency_groups", ("list",))]:
        if o == "job_group":
            continue
        for t in types:
            def build(st, o=o, t=t):
                td_model(st)
                known_zone(st)
                v = option_value(st, o, t)
                if o == "command" and t == "str":
                    v = "x 'a b'"
                job = {"command": ["x"], o: v}
                st.one = load(st, {"jobs": {n: dict(job, job_group="jg") for n in ("a", "b")}})
                return load(st, {"job_groups": {"jg": dict(job, job_names=["a", "b"])}})

            def check(q, o=o):
                if not_followed(q):
                    return
                if not accepted(q):
                    q.require(None, q.last_loc(), "not accepted")
                    return
                for n in ("a", "b"):
                    x, y = (next((v for k, v in q.ip.deref(q.attr(c, "jobs")).entries if k == C(n)), None) for c in (q.st.one, q.val))
                    if x is None or y is None:
                        q.require(False, q.last_loc(), "a job group gives its jobs")
                        continue
                    for a in q.ip.deref(x).attrs:
                        if a == "concurrency_groups":
                            gx, gy = ([q.attr(g, "name") for g in q.members(q.attr(j, a))[0] or []] for j in (x, y))
                            q.require(gx == gy, q.last_loc(), "a job of a job group has its concurrency groups")
                        else:
                            q.require(alike(q, q.attr(x, a), q.attr(y, a)), q.last_loc(), "a job of a job group with {} is the same as the job itself".format(o))
            rule.scenario("job group with {} ({})".format(o, t), build, check)


# -- the structure ----------------------------------------------------------------

STRUCTURE = [  # where, [wrong types], does null stand for nothing?
    ("jobs", ("list", "str", "int", "float", "bool"), True),
    ("job_groups", ("list", "str", "int", "float", "bool"), True),
    ("concurrency_groups", ("list", "str", "int", "float", "bool"), True),
    ("a job", ("list", "str", "int", "float", "bool", "NoneType"), False),
    ("a job group", ("list", "str", "int", "float", "bool", "NoneType"), False),
    ("a concurrency group", ("list", "str", "int", "float", "bool"), True),
    ("job_names", ("dict", "str", "int", "float", "bool", "NoneType"), False),
    ("a name of job_names", ("list", "dict", "int", "float", "bool", "NoneType"), False),
    ("concurrency_groups of a job", ("dict", "str", "int", "float", "bool"), True),
    ("concurrency_groups of a job group", ("dict", "str", "int", "float", "bool"), True),
    ("a name of concurrency_groups", ("list", "dict", "int", "float", "bool", "NoneType"), False),
    ("a name of a job group's concurrency_groups", ("list", "dict", "int", "float", "bool", "NoneType"), False),
]


def C08(rule):
    """What has another structure is refused, with a ConfigError."""
    def config(where, v):
        raw = {
            "jobs": {"j": {"command": ["x"], "concurrency_groups": ["g", "h"]}, "k": {"command": ["x"]}},
            "job_groups": {"t": {"command": ["x"], "job_names": ["a", "b"], "concurrency_groups": ["g"]}},
            "concurrency_groups": {"g": {"max": 3}, "h": {}},
        }
        if where in raw:
            raw[where] = v
        elif where == "a job":
            raw["jobs"]["j"] = v
        elif where == "a job group":
            raw["job_groups"]["t"] = v
        elif where == "a concurrency group":
            raw["concurrency_groups"]["g"] = v
        elif where == "job_names":
            raw["job_groups"]["t"]["job_names"] = v
        elif where == "a name of job_names":
            raw["job_groups"]["t"]["job_names"] = ["a", v]
        elif where == "concurrency_groups of a job":
            raw["jobs"]["j"]["concurrency_groups"] = v
        elif where == "concurrency_groups of a job group":
            raw["job_groups"]["t"]["concurrency_groups"] = v
        elif where == "a name of concurrency_groups":
            raw["jobs"]["j"]["concurrency_groups"] = ["g", v]
        else:
            raw["job_groups"]["t"]["concurrency_groups"] = ["g", v]
        return raw

    def value(st, t, where):
        if t == "list":
            return ["j"] if "name" not in where else ["x"]
        return option_value(st, where, t)

    def refused(q, what):
        if not not_followed(q):
            q.require(is_refusal(q), q.last_loc(), "{} is refused with a ConfigError".format(what))

    def jobs_of(q):
        d = q.ip.deref(q.attr(q.val, "jobs"))
        return None if d is None or d.kind != "dict" or d.rest is not None else {k[2] for k, v in d.entries if is_const(k)}

    for where, wrong, null in STRUCTURE:
        for t in wrong:
            def build(st, where=where, t=t):
                return load(st, config(where, value(st, t, where)))
            rule.scenario("{}: {}".format(where, t), build, lambda q, where=where, t=t: refused(q, "{} of type {}".format(where, t)))
            if t in ("list", "str", "dict"):  # empty, too
                def build(st, where=where, t=t):
                    return load(st, config(where, {"list": [], "str": "", "dict": {}}[t]))
                rule.scenario("{}: empty {}".format(where, t), build, lambda q, where=where, t=t: refused(q, "{} which is an empty {}".format(where, t)))
        if not null:
            continue

        def build(st, where=where):
            return load(st, config(where, None))

        def nothing(q, where=where):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "{} which is null is accepted".format(where))
            if not accepted(q):
                return
            want = {"jobs": {"a", "b"}, "job_groups": {"j", "k"}}.get(where, {"j", "k", "a", "b"})
            q.require(jobs_of(q) == want, q.last_loc(), "only {} are without content if null".format(where))
            g = entry_of(q, "concurrency_groups", C("g"))
            mx = 1 if where in ("concurrency_groups", "a concurrency group") else 3
            q.require(None if g is None else eq3(q, q.attr(g, "max"), C(mx)), q.last_loc(), "a concurrency group has its configured maximum, or 1 ({} is null)".format(where))
            for j, n in (("j", 2), ("a", 1), ("k", 0)):
                if j not in want:
                    continue
                n = 0 if where == "concurrency_groups of a job" and j == "j" or where == "concurrency_groups of a job group" and j == "a" else n
                o = entry_of(q, "jobs", C(j))
                ms, more = q.members(q.attr(o, "concurrency_groups")) if o is not None else (None, None)
                q.require(None if ms is None else len(ms) == n and not more, q.last_loc(), "jobs have their configured concurrency groups ({} is null)".format(where))
        rule.scenario("{}: null".format(where), build, nothing)

    # files
    for f in CONFIG_FILES:
        for t in ("list", "str", "int", "float", "bool"):
            for others in (False, True):
                def build(st, f=f, t=t, others=others):
                    files = {g: {"jobs": {"j": {"command": ["x"]}}} for g in CONFIG_FILES} if others else {}
                    files[f] = value(st, t, "file")
                    return load(st, None, files=files, d=[g.split("/")[1] for g in files if "/" in g])
                rule.scenario("{} is a {}{}".format(f, t, ", with others" if others else ""), build, lambda q, t=t: refused(q, "a file with a {}".format(t)))

        def build(st, f=f):
            files = {g: {"jobs": {"j " + g.split("/")[-1]: {"command": ["x"]}}} for g in CONFIG_FILES if g != f}
            files[f] = None
            return load(st, None, files=files, d=[g.split("/")[1] for g in files if "/" in g])

        def rest(q, f=f):
            if not_followed(q):
                return
            q.require(accepted(q), q.last_loc(), "an empty file is accepted")
            if accepted(q):
                q.require(jobs_of(q) == {"j " + g.split("/")[-1] for g in CONFIG_FILES if g != f}, q.last_loc(), "an empty file leaves the configuration of the others as it is")
        rule.scenario("{} is empty".format(f), build, rest)

    for t in ("list", "dict", "int", "float", "bool"):
        def build(st, t=t):
            return load(st, {"config_d": value(st, t, "config_d"), "jobs": {"j": {"command": ["x"]}}})
        rule.scenario("config_d: {}".format(t), build, lambda q, t=t: refused(q, "config_d of type {}".format(t)))


# -- C09: where things are -----------------------------------------------------------

# what is looked for, in this order, and where the data are then
PLACES = (
    ("~/.dsari/etc", "~/.dsari/var"),
    ("/usr/local/etc/dsari", "/usr/local/lib/dsari"),
    ("/etc/dsari", "/var/lib/dsari"),
)
CONFIGS = ("dsari.json", "dsari.yaml", "config.d")
NOT_CONFIGS = ("dsari.conf", "config.json", "dsari.yml", "dsari.yaml~")


def situations(thorough):
    """(DSARI_HOME is set, what is in each of the places)"""
    some = (None,) + CONFIGS
    for home in (False, True):
        for n, has in enumerate(itertools.product(some, repeat=3)):
            if thorough or not home or n % 9 == 0:
                yield home, has
    for x in NOT_CONFIGS:
        for has in ((x, None, None), (None, x, None), (None, None, x), (x, "dsari.yaml", None), (x, None, "dsari.json")):
            yield False, has
    yield False, ("", "", "")
    yield False, ("", "config.d", "")


def surroundings(st, home, has):
    """the environment and files outside of the configuration directory given"""
    ip = st.ip
    ip.data["exec_modules"] = True
    var = S("DSARI_HOME")
    ip.kinds[var] = "str"
    ip.data["environ"] = ip.new_dict([(C("HOME"), C("/home/u")), (C("PATH"), C("/bin"))] + ([(C("DSARI_HOME"), var)] if home else []))
    st.there = {"/", "/home/u", "/etc", "/usr/local/etc", "/usr/local/lib", "/var/lib"}
    for (c, d), x in zip(PLACES, has):
        c = c.replace("~", "/home/u")
        if x is not None:
            st.there.add(c)
            st.there.add(c.rsplit("/", 1)[0])
            if x:
                st.there.add(c + "/" + x)

    def exists(kind):
        def f(ip, a, k):
            p = text(a[0])
            if not is_const(p):
                return C(p in (text(var), text(path(st, var, C("etc")))) and kind != "isfile")
            p = p[2].rstrip("/") or "/"
            isdir = p.rsplit("/", 1)[-1].find(".") < 1 or p.endswith("/config.d")
            return C(p in st.there and (kind == "exists" or (kind == "isdir") == isdir))
        return f
    for n, kind in (("path.exists", "exists"), ("path.lexists", "exists"), ("access", "exists"), ("path.isfile", "isfile"), ("path.isdir", "isdir")):
        ip.ext_overrides["os." + n] = exists(kind)

    def listdir(ip, a, k):
        p = text(a[0])
        if not is_const(p) or p[2].rstrip("/") not in st.there:
            ip.throw("FileNotFoundError", "os.listdir")
        p = p[2].rstrip("/") + "/"
        return ip.new_list([C(x[len(p):]) for x in sorted(st.there) if x.startswith(p) and "/" not in x[len(p):]])
    ip.ext_overrides["os.listdir"] = listdir

    def expanduser(ip, a, k):
        p = text(a[0])
        if is_const(p) and (p[2] == "~" or p[2].startswith("~/")):
            return C("/home/u" + p[2][1:])
        return a[0]
    ip.ext_overrides["os.path.expanduser"] = expanduser
    ip.ext_overrides["os.getenv"] = lambda ip, a, k: ip.call_method(ip.data["environ"], "get", list(a) + list(k.values()), {})
    if home:
        return path(st, var, C("etc")), path(st, var, C("var"))
    for (c, d), x in zip(PLACES, has):
        if x in CONFIGS:
            break
    else:
        c, d = PLACES[0]
    return C(c.replace("~", "/home/u")), C(d.replace("~", "/home/u"))


def located(q, got, want, what):
    if got is not None and got[0] == "str":
        got = text(got)
    ok = got is not None and norm(text(got)) == norm(text(want))
    if not ok and (got is None or not is_const(got) and any(t[0] in ("top", "res") for t in subterms(got))):
        ok = None
    q.require(ok, q.last_loc(), "{} is {}{}".format(what, show(want), "" if ok else ", not " + (show(got) if got is not None else "?")))


def norm(v):
    return C(os.path.normpath(v[2])) if is_const(v) else v


def C09(rule):
    """Where the configuration and the data are."""
    from . import r_look

    cases = list(situations(rule.tier != "quick"))
    for home, has in cases:
        about = "DSARI_HOME {}, {}".format("set" if home else "not set", ", ".join("{}: {}".format(c, "does not exist" if x is None else x or "empty") for (c, d), x in zip(PLACES, has)))

        def build(st, home=home, has=has):
            ip = st.ip
            ip.overrides.pop("dsari.config.ConfigLoader.load_dir", None)
            next_time(st)
            want = surroundings(st, home, has)
            others = {n: ip.ext_overrides[n] for n in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.access", "os.path.lexists")}
            st.fs = Files(st, {path(st, want[0], C(x)): ip.new_dict([]) for x in CONFIGS[:2] if x in has or home})
            for n, f in others.items():
                g = ip.ext_overrides[n]
                ip.ext_overrides[n] = lambda ip, a, k, f=f, g=g: C(f(ip, a, k) == TRUE or g(ip, a, k) == TRUE and is_const(st.want[0]) is False)
            st.want = want
            f = st.w.repo.funcs.get(GET)
            if f is None:
                raise Anchor(GET)
            return ip.call(("fn", f), [], {})

        def check(q, about=about, home=home, has=has):
            if q.outcome != "ret":
                q.require(None if q.outcome == "stop" else False, q.last_loc(), "the configuration is loaded without a given directory ({}: {})".format(about, q.val if q.outcome == "stop" else exc(q)))
                return
            at, data = q.st.want
            located(q, q.attr(q.val, "data_dir"), data, "the default data directory")
            located(q, q.attr(q.val, "config_d"), path(q.st, at, C("config.d")), "the directory of further configuration")
            opened = [text(e.args[0]) for e in q.events if e.name in ("open", "io.open") and e.args]
            for x in CONFIGS[:2]:
                f = text(path(q.st, at, C(x)))
                if f in q.st.fs.files and (home or f[2] in q.st.there):
                    q.require(f in opened, q.last_loc(), "{} is read".format(show(f)))
            for e in q.events:
                if e.name in ("open", "io.open") and e.args:
                    q.require(text(e.args[0]) in q.st.fs.files, e.loc, "only the configuration in {} is read, not {}".format(show(at), show(e.args[0])))
            q.rule.count("situations")
        rule.scenario(about, build, check)

    few = [x for n, x in enumerate(cases) if n % 16 == 5 or n < 2] + [(True, (None, "dsari.json", None)), (False, (None, "dsari.yaml", "dsari.json")), (False, (None, None, "config.d"))]
    for mod in ("daemon", "info", "prometheus_exporter", "render"):
        for home, has in few:
            def build(st, mod=mod, home=home, has=has):
                r_look.look(st)
                st.want = surroundings(st, home, has)

                def load(ip, cfg):
                    raise Stop("loaded")
                st.load_config = load
                r_look.main_of(st, mod, *{"info": ("job", "list")}.get(mod, ()))
                return NONE

            def check(q, mod=mod):
                if not any(e.name == "load_config" for e in q.events):
                    q.require(None, q.last_loc(), "dsari-{} loads the configuration".format(mod))
                    return
                for d in r_look.dirs_loaded(q):
                    located(q, d, q.st.want[0], "without -c, the configuration directory of dsari-{}".format(mod))
            rule.scenario("dsari-{}; DSARI_HOME {}, {}".format(mod, "set" if home else "not set", has), build, check)


RULES = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C05": C05, "C06": C06, "C07": C07, "C08": C08, "C09": C09}
