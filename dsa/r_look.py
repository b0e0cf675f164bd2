"""Rules over the reporting programs: they change nothing, they list jobs as
configured, and they understand their documented command lines."""
import ast

from . import jinja, r_prom, r_render
from .argmodel import Args
from .core import *  # noqa: F401,F403
from .dbmodel import Store
from .fsmodel import text, path
from .interp import Frame, OInst, PyExc, Stop
from .r_config import mk
from .r_db import json_loads
from .r_info import (DONE, RUNNING, database, fields, finished, has, info, judge_list, lines, printed, records, scene, shows, flatten)
from .r_sched import next_time, no_files, reload_with
from .scenario import Anchor, NOW
from .values import lin_add, make_str, subterms

REMOVES = {"os.remove", "os.unlink", "os.rmdir", "os.removedirs", "shutil.rmtree", "os.truncate", "os.ftruncate", ".unlink", ".rmdir", ".truncate", "shutil.move"}
CHANGES = {"os.chmod", "os.chown", "os.utime", "os.link", "os.symlink", "os.mkfifo", "shutil.copy", "shutil.copyfile", "shutil.copy2", ".write_text", ".write_bytes", ".touch"}
MOVES = {"os.rename", "os.replace"}
CHANGING = ("INSERT", "REPLACE", "DELETE", "UPDATE", "DROP", "ALTER", "TRUNCATE", "MERGE")
KILLS = {"os.kill", "os.killpg", "os.fork", "os.forkpty", "pty.fork", "signal.pidfd_send_signal", "os.abort"}
OPENS = {"open", "io.open", "gzip.open", "lzma.open", "bz2.open", "gzip.GzipFile", "codecs.open", "os.open", "os.fdopen"}
DIRS = {"os.mkdir", "os.makedirs", ".mkdir"}


def below(p, d):
    p, d = text(p), text(d)
    if p == d:
        return True
    if p[0] != "str":
        return is_const(p) and is_const(d) and str(p[2]).startswith(str(d[2]) + "/")
    a, b = list(p[1]), list(d[1]) if d[0] == "str" else [d]
    for x in b:
        if not a:
            return False
        y = a.pop(0)
        if x == y:
            continue
        if is_const(x) and is_const(y) and str(y[2]).startswith(str(x[2])):
            rest = str(y[2])[len(str(x[2])):]
            if rest:
                a.insert(0, C(rest))
            continue
        return False
    return not a or (is_const(a[0]) and str(a[0][2]).startswith("/"))


def writes(e):
    """True, False, or None if it is not known whether e opens for writing"""
    if e.name == "os.open":
        m = e.args[1] if len(e.args) > 1 else e.kw.get("flags", C(0))
        return None if not is_const(m) else bool(m[2] & 0o3 or m[2] & 0o1000)
    m = e.args[1] if len(e.args) > 1 else e.kw.get("mode", C("r"))
    if not is_const(m):
        return None
    return any(c in str(m[2]) for c in "wxa+")


def not_followed(q, what):
    """whether the path ends where it is not followed: what it wrote until then is known"""
    if q.outcome != "stop":
        return False
    wrote = [(e, k) for e, k, t in q.st.store.log if k.rstrip("?").startswith(CHANGING)]
    for e, k in wrote:
        q.require(False, e.loc, "{} changes no record".format(what))
    if not wrote:
        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
    return True


def judge_quiet(q, what, before, outdir=None):
    """nothing was changed; files were written below outdir only"""
    st = q.st
    for e, kind, table in st.store.log:
        q.require(kind in ("SELECT", "find", "CREATE"), e.loc, "{} changes no record".format(what))
    for t, rows in before.items():
        q.require(st.store.tables.get(t) == rows, q.last_loc(), "{} leaves the records as they are".format(what))
    for e in q.events:
        if e.name in KILLS:
            q.require(False, e.loc, "{} neither signals nor starts anything".format(what))
        elif e.name in STARTS or e.name.startswith(("os.exec", "os.spawn")):
            cmd = any(any(show(t).startswith("command ") for t in subterms(a)) for a in e.args if isinstance(a, tuple))
            q.require(not cmd, e.loc, "{} starts no job".format(what))
        elif e.name in REMOVES or e.name in CHANGES or e.name in MOVES:
            v = ([e.recv] if e.name[0] == "." else []) + [a for a in e.args[:2 if e.name in MOVES or "copy" in e.name or "move" in e.name else 1]]
            ok = outdir is not None and all(below(a, outdir) for a in v)
            if not ok and any(a[0] in ("res", "top") for a in v):
                ok = None
            q.require(ok, e.loc, "{} touches no file{}".format(what, "" if outdir is None else " but reports"))
        elif e.name in OPENS and e.args:
            w = writes(e)
            if w is False:
                continue
            q.require(w if w is None else outdir is not None and below(e.args[0], outdir), e.loc, "{} writes no file{}".format(what, "" if outdir is None else " but reports"))
        elif e.name in DIRS and e.args:
            ok = (outdir is not None and below(e.args[0], outdir)) or e.args[0] == app("os.path.dirname", S("dbfile"))
            q.require(ok, e.loc, "{} makes no directory".format(what))
    q.rule.count("events judged", len(q.events))


COMMANDS = [
    (("run", "list"), {"job": None, "run": None, "format": "pretty"}),
    (("run", "list"), {"job": ["job j"], "run": ["x0 run_id", "y0 run_id"], "format": "json"}),
    (("run", "list"), {"job": None, "run": None, "format": "tabular"}),
    (("run", "output"), {"run": "x0 run_id"}),
    (("run", "output"), {"run": "y0 run_id"}),
    (("run", "output"), {"run": "id nowhere"}),
    (("run", "tail"), {"run": []}),
    (("run", "tail"), {"run": ["x0 run_id"]}),
    (("job", "list"), {"job": None, "format": "pretty"}),
    (("job", "list"), {"job": ["job k"], "format": "json"}),
    (("job", "list"), {"job": None, "format": "tabular"}),
    (("config", "dump"), {"raw": False, "format": "json"}),
    (("config", "dump"), {"raw": True, "format": "json"}),
    (("config", "check"), {}),
]


def sym(x):
    if isinstance(x, str) and x.split()[-1] in ("j", "k", "run_id", "nowhere") and " " in x:
        return S(x)
    if isinstance(x, list):
        return [sym(y) for y in x]
    return x


def plain_job(st, *jobs):
    """jobs whose attributes have values of their documented kinds"""
    ip = st.ip
    for j in jobs:
        ip.deref(j).attrs.setdefault("command", S("command"))


def commands(st, n):
    """a job's command: two words"""
    a, b = S("command {} 0".format(n)), S("command {} 1".format(n))
    for x in (a, b):
        st.ip.kinds[x] = "str"
        st.ip.facts[("types", x)] = frozenset({"str"})
        for y in (app("shlex.quote", x),):
            st.ip.kinds[y] = "str"
    return st.ip.new_list([a, b])


def terminal(st):
    """standard output is a terminal of unknown width, colors are there"""
    ip = st.ip
    ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: TRUE
    ip.ext_overrides["termcolor.COLORS.keys"] = lambda ip, a, k: ip.new_list([C(c) for c in ("grey", "red", "green", "blue")])
    ip.ext_overrides["termcolor.colored"] = lambda ip, a, k: app("colored", a[0])

    def wide(ip, a, k):
        ip.throw("OSError", "no terminal")
    ip.ext_overrides["subprocess.check_output"] = wide
    old = st.hook

    def hook(e):
        if e.name == ".wait":
            return C(0)
        return old(e) if old else None
    st.hook = hook


def look(st, typ="sqlite3", tty=False, missing=(), nofiles=False):
    scene(st, typ)
    ip = st.ip
    for j, n in ((st.j, "j"), (st.k, "k")):
        ip.deref(j).attrs["command"] = commands(st, n)
    ip.data.setdefault("distinct", set()).add(S("id nowhere"))
    if tty:
        terminal(st)
    there = {text(path(st, S("data_dir"), C("runs"), S(j), S(n + " run_id"), C("output.txt"))) for n, j, *_ in DONE + RUNNING}
    if nofiles:
        there.clear()
    for f in ("isfile", "exists"):
        ip.ext_overrides["os.path." + f] = lambda ip, a, k: C(text(a[0]) in there)
    st.store.missing = set(missing)
    st.before = st.store.snapshot()


def I01(rule):
    """The reporting programs change nothing."""
    for typ in ("sqlite3", "mongodb"):
        for cmd, opts in COMMANDS:
            for tty in (False, True):
                if tty and (typ == "mongodb" or cmd[0] == "config"):
                    continue
                for missing in ((), ("runs",), ("runs", "runs_running"), ("files",)):
                    if missing == ("files",):
                        if tty or cmd[0] != "run" or cmd[1] == "list":
                            continue
                    elif missing and (typ == "mongodb" or tty or cmd not in (("run", "list"), ("config", "check"))):
                        continue

                    def build(st, typ=typ, cmd=cmd, opts=opts, tty=tty, missing=missing):
                        look(st, typ, tty, missing, missing == ("files",))
                        if opts.get("format") == "pretty":
                            for n in ("PAGER", "LESS"):
                                st.ip.facts[("in", C(n), ("ext", "os.environ"))] = False
                        info(st, *cmd, **{k: sym(v) for k, v in opts.items()})
                        return NONE

                    def check(q, cmd=cmd):
                        if q.val not in ("wait", "exec") and not_followed(q, "dsari-info"):
                            return
                        judge_quiet(q, "dsari-info " + " ".join(cmd), q.st.before)
                    rule.scenario("dsari-info {} {}, {}{}{}".format(" ".join(cmd), opts, typ, ", terminal" if tty else "", ", no output" if missing == ("files",) else ", new database" if missing else ""), build, check)

        for regen in (False, True):
            def build(st, typ=typ, regen=regen):
                r_render.scene(st, typ, regenerate=regen, css="?", rev=None, maybe=("x0", "j"))
                st.before = st.store.snapshot()
                return r_render.render(st)

            def check(q):
                if not_followed(q, "dsari-render"):
                    return
                judge_quiet(q, "dsari-render", q.st.before, path(q.st, S("data_dir"), C("html")))
            rule.scenario("dsari-render{}, {}".format(" --regenerate" if regen else "", typ), build, check, MAX_STEPS=200000, WHILE_CAP=8)

        def build(st, typ=typ):
            r_prom.world(st, typ, r_prom.HISTORIES["several runs"])
            st.store.rev = False
            st.before = st.store.snapshot()
            r_prom.handler(st)
            r_prom.request(st)
            r_prom.hup(st)
            r_prom.request(st)
            r_prom.request(st, "/elsewhere")
            return NONE

        def check(q):
            if not_followed(q, "the exporter"):
                return
            judge_quiet(q, "the exporter", q.st.before)
        rule.scenario("exporter, {}".format(typ), build, check)


# -- jobs ---------------------------------------------------------------------------

FORMATS = ("json", "yaml", "tabular", "pretty")
JOBS = {
    # name: schedule, command words, limit
    "all jobs": (None, ("j", "k", "l")),
    "a job": (["job k"], ("k",)),
    "two jobs": (["job l", "job j"], ("j", "l")),
    "an unknown job": (["job nowhere"], ()),
    "a known and an unknown job": (["job nowhere", "job j"], ("j",)),
}


def job_scene(st):
    ip = st.ip
    no_files(st)
    ip.data.setdefault("distinct", set()).update((S("job nowhere"), S("job gone")))
    ip.data["ranks"] = {S("job " + n): i for i, n in enumerate("jkl")}
    st.jobs = {}
    for n in "kjl":
        a = {"command": commands(st, n)}
        if n != "k":
            sch = S("schedule " + n)
            ip.kinds[sch] = "str"
            ip.facts[("types", sch)] = frozenset({"str"})
            ip.facts[("truthy", sch)] = True
            a["schedule"] = sch
            ip.set_range(app("len", sch), 12, 12)
        if n == "l":
            a["schedule_timezone"] = NONE
        ip.kinds[S("tz " + n)] = "tzinfo"
        j = st.job(n, **a)
        ip.facts[("truthy", S("command {} 0".format(n)))] = True
        for i in (0, 1):
            ip.set_range(app("len", app("shlex.quote", S("command {} {}".format(n, i)))), 6, 6)
        ip.set_range(app("len", S("job " + n)), 8, 8)
        st.jobs[n] = j
    d = ip.deref(st.jobs["j"]).attrs
    d["max_execution"], d["max_execution_grace"] = st.param("limit", 1), st.param("grace", 1)
    for v in (S("limit"), S("grace")):
        ip.facts[("eq", v, NONE)] = False
    d["job_group"] = S("group of j")
    for v in (S("group of j"),):
        ip.kinds[v] = "str"
    d["environment"] = mk(ip, {"VAR": S("value of j")})
    d["concurrent_runs"] = TRUE
    d["command_append_run"] = TRUE
    for n in "jkl":
        words = [app("shlex.quote", S("command {} {}".format(n, i))) for i in (0, 1)]
        ip.set_range(app("len", make_str([words[0], C(" "), words[1]])), 13, 13)
    d["schedule_timezone_name"] = S("zone name of j")
    ip.kinds[S("zone name of j")] = "str"
    for n in "jl":
        v = S("next of " + n)
        ip.facts[("truthy", app(".isoformat", v))] = True
        ip.kinds[v] = "datetime"
        ip.facts[("types", v)] = frozenset({"datetime"})
        ip.set_range(app("len", app(".isoformat", v)), 32, 32)

    def nxt(ip, fi, args, kw):
        ip.emit("next_schedule_time", args, kw)
        for n in "jl":
            if S("schedule " + n) in args or S("schedule " + n) in kw.values():
                names = [a for a in list(args[:3]) + list(kw.values()) if a in [S("job " + m) for m in "jkl"]]
                if names == [S("job " + n)]:
                    return S("next of " + n)
        return ip.fresh("next of something")
    q = "dsari.utils.get_next_schedule_time"
    if q not in st.w.repo.funcs:
        raise Anchor(q)
    ip.overrides[q] = nxt
    ip.data["zones"] = True
    ip.ext_overrides["dateutil.tz.gettz"] = lambda ip, a, k: app("zone", *a) if a else C("local")
    ip.facts[("in", C("COLUMNS"), ("ext", "os.environ"))] = False
    ip.facts[("eq", app("item", app("locale.getlocale"), C(1)), C("UTF-8"))] = False
    ip.facts[("truthy", app("os.path.dirname", S("dbfile")))] = True
    json_loads(st)
    st.store = Store(st, "sqlite3")
    st.groups = [st.group("g1", st.param("max1", 1)), st.group("g2", st.param("max2", 1))] if hasattr(st, "group") else []
    if st.groups:
        st.ip.deref(st.jobs["j"]).attrs["concurrency_groups"] = st.concurrency(st.groups) if hasattr(st, "concurrency") else ip.new_list(st.groups)
    reload_with(st, list(st.jobs.values()), database=database(st))


def same_value(q, a, b):
    if a == b:
        return True
    oa, ob = q.ip.deref(a), q.ip.deref(b)
    if oa is not None and ob is not None and oa.kind == ob.kind == "dict":
        return list(oa.entries) == list(ob.entries)
    if oa is not None and ob is not None and oa.kind == ob.kind == "list":
        return oa.segs == ob.segs
    if a[0] == "top" or b[0] == "top":
        return None
    return poly_eq(q, a, b)


def poly_eq(q, a, b):
    if a[0] in ("lin", "sym", "const") and b[0] in ("lin", "sym", "const"):
        return q.cmp("<=", a, b) and q.cmp(">=", a, b) or False
    return False


def judge_job(q, n, show_line, what, loc):
    """a line of a job"""
    l = show_line
    q.require(has(l, S("job " + n)), loc, "{} shows the name of a job".format(what))
    for i in (0, 1):
        q.require(has(l, app("shlex.quote", S("command {} {}".format(n, i)))), loc, "{} shows the command of a job, quoted for a shell".format(what))
    for m in "jl":
        for v, t in ((S("schedule " + m), "schedule"), (S("next of " + m), "next scheduled time")):
            q.require(has(l, v) == (m == n), loc, "{} shows the {} of each job which has one".format(what, t))


def I04(rule):
    """Listing jobs, checking the configuration."""
    for fmt in FORMATS:
        for sel, (names, want) in JOBS.items():
            for tty in (False, True):
                if tty and (sel != "all jobs" or fmt == "yaml"):
                    continue

                def build(st, fmt=fmt, names=names, tty=tty):
                    job_scene(st)
                    if tty:
                        terminal(st)
                    info(st, "job", "list", job=None if names is None else [S(x) for x in names], format=fmt)
                    return NONE

                def check(q, fmt=fmt, sel=sel, want=want):
                    what = "job list --format {}".format(fmt)
                    if not finished(q, what):
                        return
                    st = q.st
                    loc = next((e.loc for e in reversed(q.events) if "write" in e.name or e.name == "print"), q.last_loc())
                    for e in q.evs("next_schedule_time"):
                        t = e.args[2] if len(e.args) > 2 else e.kw.get("start_time")
                        n = next((n for n in "jkl" if S("schedule " + n) in e.args or S("schedule " + n) in e.kw.values()), None)
                        if t is None or n is None:
                            q.require(None, e.loc, "{}: the next time is not understood".format(what))
                            continue
                        z = t[3] if t[:2] == ("app", "tz") else None
                        q.require(z == (C("local") if n == "l" else S("tz " + n)) or (None if n == "l" and z is None else False), e.loc, "{} shows the next time in the timezone of the job".format(what))
                    if fmt in ("json", "yaml"):
                        if len(st.dumped) != 1:
                            q.require(None if st.dumped else False, loc, "{} prints one document".format(what))
                            return
                        q.require(S("dumped 1") in printed(q), loc, "{} prints the document".format(what))
                        o = q.ip.deref(st.dumped[0])
                        if o is None or o.kind != "dict" or o.rest is not None:
                            q.require(None, loc, "document not understood")
                            return
                        d = dict(o.entries)
                        q.require(sorted(map(show, d)) == sorted(show(S("job " + n)) for n in want), loc, "{} prints exactly the jobs asked for".format(what))
                        for n in want:
                            e = q.ip.deref(d.get(S("job " + n), NONE))
                            if e is None or e.kind != "dict":
                                continue
                            f = {k[2]: v for k, v in e.entries if is_const(k)}
                            job = q.ip.deref(st.jobs[n]).attrs
                            for c in ("command", "command_append_run", "schedule", "environment", "max_execution", "max_execution_grace", "render_reports", "jenkins_environment", "job_group", "concurrent_runs"):
                                if c not in f:
                                    q.require(False, loc, "{} prints {}".format(what, c))
                                    continue
                                q.require(same_value(q, f[c], job[c]), loc, "{} prints {} of a job as it is in effect".format(what, c))
                            q.require(f.get("schedule_timezone", NONE) == job.get("schedule_timezone_name", NONE) or None if n != "j" else f.get("schedule_timezone", NONE) == S("zone name of j"), loc, "{} prints the timezone of a job".format(what))
                            nx = f.get("next_scheduled_run", NONE)
                            if n == "k":
                                q.require(nx == NONE, loc, "{} gives no next time of a job without a schedule".format(what))
                            else:
                                q.require(shows(nx, S("next of " + n)), loc, "{} prints the next time of a job's schedule".format(what))
                        return
                    ls = lines(printed(q))
                    mine = {n: [l for l in ls if has(l, S("job " + n))] for n in "jkl"}
                    for n in "jkl":
                        q.require(len(mine[n]) == (n in want), loc, "{} prints a line for each job asked for, and no other".format(what))
                    for n in want:
                        if len(mine[n]) == 1:
                            judge_job(q, n, mine[n][0], what, loc)
                    if fmt == "tabular":
                        q.require(len(ls) == len(want), loc, "{} prints nothing but lines of jobs".format(what))
                        for n in want:
                            fs = fields(mine[n][0]) if mine[n] else []
                            q.require(len(fs) == 4, loc, "{} prints four columns".format(what))
                            if len(fs) == 4:
                                q.require(has(fs[0], S("job " + n)), loc, "{} prints the name of a job first".format(what))
                                if n == "k":
                                    q.require(not [t for f in (fs[1], fs[3]) for t in f if t != ""], loc, "{} prints nothing for a schedule or next time which a job does not have".format(what))
                    else:
                        q.require(len(ls) == len(want) + 2 or len(ls) == len(want) + 1, loc, "{} prints the titles and a line for each job".format(what))
                rule.scenario("job list {}, {}{}".format(fmt, sel, ", terminal" if tty else ""), build, check)

    def build(st):
        job_scene(st)
        info(st, "config", "check")
        return NONE

    def check(q):
        if finished(q, "config check of a valid configuration"):
            q.require(True, q.last_loc(), "config check of a valid configuration ends normally")
    rule.scenario("config check, valid", build, check)

    def build(st):
        job_scene(st)
        invalid(st)
        info(st, "config", "check")
        return NONE
    rule.scenario("config check, invalid", build, lambda q: judge_check(q, False))


def invalid(st):
    """loading the configuration fails"""
    def bad(ip, loader):
        cls = st.w.repo.resolve_dotted("dsari.config.ConfigError")
        if not cls or cls[0] != "class":
            raise Anchor("dsari.config.ConfigError")
        raise PyExc(ip.instantiate(cls[1], [C("wrong")], {}))
    st.load_config = bad


def judge_check(q, valid):
    if q.outcome == "stop":
        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
        return
    code = 1 if q.outcome == "exc" else 0
    if q.outcome == "exc" and "SystemExit" in exc_name(q.ip, q.val):
        a = q.ip.deref(q.val).attrs.get("args")
        code = 0 if a is None or not a[1] or a[1][0] in (C(0), NONE) else 1
    elif q.outcome != "exc" and q.val is not None and is_const(q.val) and q.val not in (NONE, C(0)):
        code = 1
    q.require(code == 0 if valid else code != 0, q.last_loc(), "config check of {} configuration ends with {}".format("a valid" if valid else "an invalid", "0" if valid else "a non-zero status"))


# -- command lines -------------------------------------------------------------------


def known_dir(st):
    st.ip.kinds[S("directory")] = "str"
    st.ip.facts[("types", S("directory"))] = frozenset({"str"})


def main_of(st, mod, *argv):
    """runs the program's main function with this command line"""
    f = st.w.repo.funcs.get("dsari.{}.main".format(mod))
    if f is None:
        raise Anchor("dsari.{}.main".format(mod))
    known_dir(st)
    st.args_ = Args(st, "dsari-" + mod, *argv)
    st.n0 = len(st.ip.events)
    return st.ip.call(("fn", f), [], {})


def dirs_loaded(q):
    """the directories the configuration was loaded from"""
    out = []
    for e in q.events:
        if e.name == "load_config":
            out.append(e.args[1] if len(e.args) > 1 else next(iter(e.kw.values()), None))
    return out


def default_dir(st):
    r = st.w.repo.resolve_dotted("dsari.config.DEFAULT_CONFIG_DIR")
    return None if r is None else st.ip.resolved(r, None, NONE, "DEFAULT_CONFIG_DIR")


def judge_dir(q, what, given):
    want = S("directory") if given else default_dir(q.st)
    ds = dirs_loaded(q)
    q.require(bool(ds), q.last_loc(), "{} loads the configuration".format(what))
    for e in q.events:
        if e.name == "load_config":
            d = e.args[1] if len(e.args) > 1 else next(iter(e.kw.values()), None)
            q.require(d == want or (None if d is None or d[0] == "top" else False), e.loc,
                      "{} uses the configuration directory {}".format(what, "which was given" if given else "which is the default"))


GIVEN = (("-c", S("directory")), ("--config-dir", S("directory")), (["--config-dir=", S("directory")],), ())


def stopped(q, what, *ok):
    """did the path end otherwise than the rule expects"""
    if q.outcome == "stop" and q.val in ok:
        return False
    return not finished(q, what)


def I05(rule):
    """Documented command lines."""
    # dsari-info
    J, K, X = S("job j"), S("job k"), S("x1 run_id")
    lists = [
        (("run", "list"), "pretty", {}, ("x0", "x1", "x2", "x3", "y0", "y1")),
        (("run", "list", "--format", "tabular"), "tabular", {}, ("x0", "x1", "x2", "x3", "y0", "y1")),
        (("run", "list", "--format=tabular", "--job", J, "--job", K), "tabular", {}, ("x0", "x1", "x2", "y0")),
        (("run", "list", ["--job=", K], "--format=json"), "json", {}, ("x1",)),
        (("run", "list", "--run", X, ["--run=", S("y1 run_id")], "--format", "json"), "json", {}, ("x1", "y1")),
        (("run", "list", "--format=yaml", "--job", J, "--run", S("x2 run_id")), "yaml", {}, ("x2",)),
        (("run", "list", "--run", X, "--format=pretty"), "pretty", {}, ("x1",)),
    ]
    for cmd, fmt, opts, want in lists:
        for given in GIVEN[:1] if cmd[2:] else GIVEN:
            def build(st, cmd=cmd, given=given):
                look(st)
                st.ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
                st.dumped = []

                def dump(ip, a, k):
                    st.dumped.append(a[0])
                    return S("dumped {}".format(len(st.dumped)))
                for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
                    st.ip.ext_overrides[n] = dump
                main_of(st, "info", *given, *cmd)
                return NONE

            def check(q, fmt=fmt, want=want, given=given):
                if not finished(q, "dsari-info run list"):
                    return
                judge_dir(q, "dsari-info", bool(given))
                judge_list(q, fmt, want, "run list")
                if fmt == "pretty":
                    q.require(len(lines(printed(q))) > len(want), q.last_loc(), "run list prints a table with titles by default")
            rule.scenario("dsari-info {} {}".format(label(given), label(cmd)), build, check)

    jobs = [
        (("job", "list", "--format=json"), "json", "jkl"), (("job", "list", "--format=yaml", "--job", K), "yaml", "k"), (("job", "list"), None, "jkl"),
        (("job", "list", "--job", J, ["--job=", S("job l")], "--format", "tabular"), None, "jl"), (("job", "list", "--job", J, "--format", "pretty"), None, "j"),
    ]
    for cmd, fmt, want in jobs:
        def build(st, cmd=cmd):
            job_scene(st)
            st.ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
            st.dumped = []

            def dump(name):
                def f(ip, a, k):
                    st.dumped.append(a[0])
                    st.dumper = name
                    return S("dumped")
                return f
            for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
                st.ip.ext_overrides[n] = dump(n[:4])
            main_of(st, "info", "-c", S("directory"), *cmd)
            return NONE

        def check(q, cmd=cmd, fmt=fmt, want=want):
            if not finished(q, "dsari-info job list"):
                return
            judge_dir(q, "dsari-info", True)
            if fmt:
                q.require(len(q.st.dumped) == 1 and q.st.dumper == fmt, q.last_loc(), "dsari-info --format={} prints {}".format(fmt, fmt))
                o = q.ip.deref(q.st.dumped[0]) if q.st.dumped else None
                if o is not None and o.kind == "dict":
                    q.require({k for k, v in o.entries} == {S("job " + n) for n in want}, q.last_loc(), "job list prints the jobs given by --job")
                return
            q.require(not q.st.dumped, q.last_loc(), "job list prints text by default")
            ls = lines(printed(q))
            q.require({n for n in "jkl" if any(has(l, S("job " + n)) for l in ls)} == set(want), q.last_loc(), "job list prints the jobs given by --job")
        rule.scenario("dsari-info {}".format(label(cmd)), build, check)

    for cmd, raw, fmt in ((("config", "dump"), False, "json"), (("config", "dump", "--raw"), True, "json"), (("config", "dump", "--format=yaml"), False, "yaml"), (("config", "dump", "--raw", "--format", "yaml"), True, "yaml")):
        def build(st, cmd=cmd):
            job_scene(st)
            st.ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
            st.raw = mk(st.ip, {"raw": S("raw data")})
            reload_with(st, list(st.jobs.values()), database=database(st), raw_config=st.raw)
            st.dumped = []

            def dump(name):
                def f(ip, a, k):
                    st.dumped.append((name, a[0]))
                    return S("dumped")
                return f
            for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
                st.ip.ext_overrides[n] = dump(n[:4])
            main_of(st, "info", "-c", S("directory"), *cmd)
            return NONE

        def check(q, raw=raw, fmt=fmt):
            if not finished(q, "dsari-info config dump"):
                return
            judge_dir(q, "dsari-info", True)
            d = q.st.dumped
            q.require(len(d) == 1 and d[0][0] == fmt and S("dumped") in printed(q), q.last_loc(), "config dump prints one {} document".format(fmt))
            if len(d) == 1:
                o = q.ip.deref(d[0][1])
                israw = o is not None and o.kind == "dict" and [k for k, v in o.entries] == [C("raw")]
                q.require(israw == raw, q.last_loc(), "config dump prints the raw configuration with --raw only")
        rule.scenario("dsari-info {}".format(label(cmd)), build, check)

    for cmd in (("run", "output", X), ("run", "tail"), ("run", "tail", S("y0 run_id")), ("run", "tail", S("y0 run_id"), S("y1 run_id"))):
        def build(st, cmd=cmd):
            look(st)
            st.ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
            main_of(st, "info", "-c", S("directory"), *cmd)
            return NONE

        def check(q, cmd=cmd):
            if q.outcome == "stop" and q.val in ("wait", "exec"):
                pass
            elif not finished(q, "dsari-info " + label(cmd)):
                return
            judge_dir(q, "dsari-info", True)
            if cmd[1] == "tail":
                want = [n for n in ("y0", "y1") if not cmd[2:] or S(n + " run_id") in cmd]
                ex = [e for e in q.events if e.name.startswith("os.exec") or e.name in ("subprocess.call", "subprocess.run", "subprocess.Popen")]
                q.require(bool(ex), q.last_loc(), "run tail shows the output of running runs")
                if ex:
                    q.require({n for n in ("y0", "y1") if any(mentions_path(q, a, S(n + " run_id")) for a in ex[0].args)} == set(want), ex[0].loc, "run tail shows the runs given, or all")
            else:
                q.require(any(e.name in OPENS and any(mentions_path(q, a, X) for a in e.args) for e in q.events), q.last_loc(), "run output reads the output of the run given")
        rule.scenario("dsari-info {}".format(label(cmd)), build, check)

    for given in GIVEN[:2]:
        for valid in (True, False):
            def build(st, given=given, valid=valid):
                job_scene(st)
                if not valid:
                    invalid(st)
                return main_of(st, "info", *given, "config", "check")

            def check(q, valid=valid):
                judge_check(q, valid)
                judge_dir(q, "dsari-info", True)
            rule.scenario("dsari-info config check, {}".format("valid" if valid else "invalid"), build, check)

    for cmd in ((), ("run",), ("job",), ("config",), ("runs",), ("run", "list", "--format=xml"), ("run", "output"), ("config", "dump", "--format=pretty"), ("run", "list", "--nothing"), ("job", "list", "extra")):
        def build(st, cmd=cmd):
            look(st)
            st.ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: FALSE
            main_of(st, "info", "-c", S("directory"), *cmd)
            return NONE

        def check(q, cmd=cmd):
            usage(q, "dsari-info " + label(cmd))
        rule.scenario("dsari-info {}: not understood".format(label(cmd)), build, check)

    # dsari-render
    for given in GIVEN:
        for opt, regen in (((), False), (("-r",), True), (("--regenerate",), True), (("--debug",), False), (("--debug", "-r"), True)):
            if given != GIVEN[0] and opt:
                continue
            def build(st, given=given, opt=opt):
                r_render.scene(st, done=[("x1", "job k", 2000, 1)], running=[], jobs="k", there=("x1", "k", "index"), css=True, rev=None)
                main_of(st, "render", *given, *opt)
                return NONE

            def check(q, given=given, regen=regen):
                if not finished(q, "dsari-render"):
                    return
                judge_dir(q, "dsari-render", bool(given))
                q.require(bool(q.st.tree.opened) == regen, q.last_loc(), "dsari-render writes existing reports again if --regenerate is given, and only then")
            rule.scenario("dsari-render {} {}".format(label(given), label(opt)), build, check, MAX_STEPS=200000, WHILE_CAP=8)
    for cmd in (("--nothing",), ("extra",)):
        def build(st, cmd=cmd):
            r_render.scene(st, done=[], running=[], jobs="k", css=True)
            main_of(st, "render", "-c", S("directory"), *cmd)
            return NONE
        rule.scenario("dsari-render {}: not understood".format(label(cmd)), build, lambda q, cmd=cmd: usage(q, "dsari-render " + label(cmd)))

    # dsari-prometheus-exporter
    for given in GIVEN:
        for dump in (True, False):
            def build(st, given=given, dump=dump):
                r_prom.world(st, "sqlite3", ("x1", "x2", "y2"))
                st.store.rev = False
                serve(st)
                main_of(st, "prometheus_exporter", *given, *(("--dump",) if dump else ()))
                return NONE

            def check(q, given=given, dump=dump):
                if stopped(q, "the exporter", "serving"):
                    return
                judge_dir(q, "the exporter", bool(given))
                mine = [e for e in q.events if e.name == "make_server"]
                if dump:
                    q.require(not mine, q.last_loc(), "the exporter with --dump does not serve")
                    out = [make_str([x if isinstance(x, tuple) else C(x) for x in printed(q)])]
                    r_prom.judge(q, out[0], ("x1", "x2", "y2"), ("j", "k", "l"), r_prom.QS, "--dump")
                    return
                q.require(len(mine) == 1 and q.outcome == "stop", q.last_loc(), "the exporter serves until it is interrupted")
                if mine:
                    q.require(tuple(mine[0].args[:2]) == (C("0.0.0.0"), C(50575)), mine[0].loc, "the exporter serves at the default address and port")
                q.require(not printed(q), q.last_loc(), "the exporter prints metrics with --dump only")
            rule.scenario("dsari-prometheus-exporter {}{}".format(label(given), " --dump" if dump else ""), build, check)

    servers = [
        (("--listen-address", S("address"), "--listen-port=9100"), (S("address"), C(9100)), {}),
        (("--listen-port", "9100", "--metrics-path=/m"), (C("0.0.0.0"), C(9100)), {"path": "/m"}),
        (("--no-running",), (C("0.0.0.0"), C(50575)), {"running": False}),
        (("--quantiles=0.5,0.75",), (C("0.0.0.0"), C(50575)), {"quantiles": [0.5, 0.75]}),
        (("--job-cache-time=30", "--debug"), (C("0.0.0.0"), C(50575)), {"cache": 30}),
        (("--job-cache-time", "0.5"), (C("0.0.0.0"), C(50575)), {"cache": 0.5}),
        ((), (C("0.0.0.0"), C(50575)), {"cache": 120}),
    ]
    for opt, at, o in servers:
        def build(st, opt=opt, o=o):
            r_prom.world(st, "sqlite3", r_prom.FIRST)
            st.store.rev = False
            serve(st)
            try:
                main_of(st, "prometheus_exporter", "-c", S("directory"), *opt)
            except Stop as e:
                if str(e) != "serving":
                    raise
            st.app = st.served
            if st.app is None:
                st.ip.throw("LookupError", "nothing is served")
            p = o.get("path", "/metrics")
            a, calls = r_prom.request(st, p)
            b, calls2 = r_prom.request(st, "/elsewhere")
            c = None
            if "cache" in o:
                r_prom.change(st, "sqlite3", r_prom.SECOND)
                st.ip.now = lin_add(NOW, C(o["cache"] * 0.9))
                c, _ = r_prom.request(st, p)
                st.ip.now = lin_add(NOW, C(o["cache"] * 1.1))
                d, _ = r_prom.request(st, p)
                c = ("tuple", (c, d))
            return ("tuple", (a, ("tuple", tuple(e.args[0] for e in calls + calls2)), c or NONE))

        def check(q, opt=opt, at=at, o=o):
            if stopped(q, "the exporter"):
                return
            mine = [e for e in q.events if e.name == "make_server"]
            q.require(len(mine) == 1 and tuple(mine[0].args[:2]) == at, mine[0].loc if mine else q.last_loc(), "the exporter serves at the given address and port")
            a, codes, c = q.val[1]
            cs = [str(x[2])[:3] if is_const(x) else None for x in codes[1]]
            q.require(cs == ["200", "404"], q.last_loc(), "the exporter serves metrics at the given path only")
            b = r_prom.body_of(q, a)
            if b is None:
                q.require(None, q.last_loc(), "response not understood")
                return
            r_prom.judge(q, b, [n for n in r_prom.FIRST if n[0] == "x" or o.get("running", True)], ("j", "k", "l"), o.get("quantiles", r_prom.QS), "metrics", o.get("running", True))
            if c != NONE:
                for r, done in zip(c[1], (r_prom.FIRST, r_prom.SECOND)):
                    b = r_prom.body_of(q, r)
                    if b is None:
                        q.require(None, q.last_loc(), "response not understood")
                    else:
                        r_prom.judge2(q, b, done, r_prom.SECOND, "a request {} the job cache time".format("within" if done is r_prom.FIRST else "after"))
        rule.scenario("dsari-prometheus-exporter {}".format(label(opt)), build, check)
    for cmd in (("--listen-port=x",), ("--job-cache-time=x",), ("--nothing",), ("extra",)):
        def build(st, cmd=cmd):
            r_prom.world(st, "sqlite3", ())
            serve(st)
            main_of(st, "prometheus_exporter", "-c", S("directory"), *cmd)
            return NONE
        rule.scenario("dsari-prometheus-exporter {}: not understood".format(label(cmd)), build, lambda q, cmd=cmd: usage(q, "dsari-prometheus-exporter " + label(cmd)))

    # as a WSGI application
    for argv in (None, [], ["--config-dir", S("directory")], ["-c", S("directory"), "--metrics-path=/m", "--no-running"]):
        def build(st, argv=argv):
            r_prom.world(st, "sqlite3", r_prom.FIRST)
            st.store.rev = False
            imported(st, argv)
            if argv is None:
                return NONE
            p = "/m" if "--metrics-path=/m" in argv else "/metrics"
            return ("tuple", tuple(r_prom.request(st, x)[0] for x in (p, "/elsewhere")))

        def check(q, argv=argv):
            if not finished(q, "the WSGI application"):
                return
            if argv is None:
                loads = [e for e in q.events if e.name in ("load_config", "sqlite3.connect")]
                q.require(not loads, loads[0].loc if loads else q.last_loc(), "the installed dsari-prometheus-exporter loads no other configuration when it is imported")
                return
            judge_dir(q, "the WSGI application", bool(argv))
            b = r_prom.body_of(q, q.val[1][0])
            if b is None:
                q.require(None, q.last_loc(), "response not understood")
                return
            run = "--no-running" not in argv
            r_prom.judge(q, b, [n for n in r_prom.FIRST if n[0] == "x" or run], ("j", "k", "l"), r_prom.QS, "metrics of the WSGI application", run)
        rule.scenario("WSGI_ARGS {}".format("not set, import by the installed program" if argv is None else label(argv)), build, check)

    # dsari-daemon
    for given in GIVEN:
        for opt in ((), ("--debug",), ("--fork",), ("--fork", "--debug")):
            for parent in (True, False):
                if parent and "--fork" not in opt or given != GIVEN[0] and opt:
                    continue

                def build(st, given=given, opt=opt, parent=parent):
                    scene(st)
                    st.ip.deref(st.j).attrs["schedule"] = NONE

                    def hook(e, old=st.hook):
                        if e.name == "os.fork":
                            return st.param("pid of the daemon", 2) if parent else C(0)
                        return old(e) if old else None
                    st.hook = hook
                    return main_of(st, "daemon", *given, *opt)

                def check(q, given=given, opt=opt, parent=parent):
                    if stopped(q, "the daemon", "wait"):
                        return
                    forks = [e for e in q.events if e.name == "os.fork"]
                    q.require(len(forks) == ("--fork" in opt), q.last_loc(), "the daemon forks if --fork is given, and only then")
                    if parent:
                        q.require(q.outcome != "stop", q.last_loc(), "the parent of the daemon ends")
                        q.require(q.outcome == "stop" or q.val in (NONE, C(0), None), q.last_loc(), "the parent of the daemon ends with success")
                        n = q.events.index(forks[0]) if forks else 0
                        bad = [e for e in q.events[n + 1:] if e.name in (".execute", ".commit", "load_config", "os.kill", "os.killpg")]
                        q.require(not bad, bad[0].loc if bad else q.last_loc(), "the parent of the daemon only ends")
                        return
                    q.require(q.outcome == "stop", q.last_loc(), "the daemon goes on until it is stopped")
                    if forks:
                        n = q.events.index(forks[0])
                        bad = [e for e in q.events[:n] if e.name in ("sqlite3.connect", ".execute", ".commit", ".connect")]
                        q.require(not bad, bad[0].loc if bad else forks[0].loc, "the daemon connects to its database after it forked")
                    judge_dir(q, "the daemon", bool(given))
                    lv = [e for e in q.events if e.name == ".setLevel" and e.args]
                    if lv:
                        dbg = any(a == C(10) or "DEBUG" in show(a) for e in lv[-1:] for a in e.args)
                        q.require(dbg == ("--debug" in opt), lv[-1].loc, "the daemon prints debugging information if --debug is given, and only then")
                rule.scenario("dsari-daemon {} {}{}".format(label(given), label(opt), ", parent" if parent else ""), build, check)
    for cmd in (("--nothing",), ("extra",)):
        def build(st, cmd=cmd):
            scene(st)
            main_of(st, "daemon", "-c", S("directory"), *cmd)
            return NONE
        rule.scenario("dsari-daemon {}: not understood".format(label(cmd)), build, lambda q, cmd=cmd: usage(q, "dsari-daemon " + label(cmd)))


def imported(st, argv):
    """what importing the exporter does, with WSGI_ARGS set to argv"""
    ip = st.ip
    m = st.w.repo.modules.get("dsari.prometheus_exporter")
    if m is None:
        raise Anchor("dsari.prometheus_exporter")
    known_dir(st)
    st.args_ = Args(st, "wsgi")
    env, name = ("ext", "os.environ"), C("WSGI_ARGS")
    raw = app("item", env, name)
    ip.facts[("in", name, env)] = bool(argv)
    ip.facts[("truthy", raw)] = True
    ip.kinds[raw] = "str"
    old = ip.ext_overrides.get("json.loads")

    def loads(ip, a, k):
        if a[0] == raw:
            return ip.new_list([C(x if isinstance(x, str) else st.args_.stand_in(x)) for x in argv])
        return old(ip, a, k) if old else ip.fresh("json")
    ip.ext_overrides["json.loads"] = loads
    fr = Frame(m)
    st.n0 = len(ip.events)
    for s in m.tree.body:
        if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test):
            ip.block(s.orelse, fr)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Call) for x in ast.walk(s)):
            ip.block([s], fr)
    st.app = fr.env.get("wsgi_application")
    if st.app is None:
        r = st.w.repo.resolve_dotted("dsari.prometheus_exporter.wsgi_application")
        if r is None:
            raise Anchor("dsari.prometheus_exporter.wsgi_application")
        st.app = ip.resolved(r, None, NONE, "wsgi_application")


def serve(st):
    """the server of wsgiref: keeps the application"""
    st.served = None

    def make(ip, a, k):
        ip.emit("make_server", a, k)
        st.served = a[2]
        return ("ext", "the server")
    for n in ("wsgiref.simple_server.make_server",):
        st.ip.ext_overrides[n] = make

    def forever(ip, a, k):
        raise Stop("serving")
    st.ip.ext_overrides["the server.serve_forever"] = forever
    st.ip.ext_overrides["the server.handle_request"] = forever


def mentions_path(q, a, v):
    if v in subterms(a):
        return True
    ms, more = q.members(a)
    return any(v in subterms(m) for m in ms or ())


def label(argv):
    return " ".join("".join(p if isinstance(p, str) else show(p) for p in (a if isinstance(a, list) else [a])) for a in argv)


def usage(q, what):
    if q.outcome == "stop":
        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
        return
    ok = q.outcome == "exc"
    if ok and "SystemExit" in exc_name(q.ip, q.val):
        ok = getattr(q.st, "usage", 2) != 0
    q.require(ok, q.last_loc(), "{} is not accepted".format(what))
    bad = [e for e in q.events if e.name in (".execute", "load_config", "os.fork", "make_server")]
    q.require(not bad, bad[0].loc if bad else q.last_loc(), "{} does nothing".format(what))


RULES = {"I05": I05, "I01": I01, "I04": I04}
