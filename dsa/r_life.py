"""Rules over the life of the scheduler: startup, reload, status signals."""
import signal

from . import sql
from .core import *  # noqa: F401,F403
from .dbmodel import Store
from .interp import PyExc, Stop
from .r_sched import deliver, next_time, no_files, reload_with, inserts, unknown_sql, eq3
from .scenario import NOW

WATCHED = ("shutdown", "config", "jobs", "scheduled_runs", "running_runs", "running_groups", "db", "args")


def frozen(ip, v, seen=None):
    """the structure of a value: what can be reached from it"""
    seen = {} if seen is None else seen
    o = ip.deref(v)
    if o is None:
        return tuple(frozen(ip, x, seen) for x in v[1]) if v[0] == "tuple" else v
    if v in seen:
        return ("ref", v)
    seen[v] = True
    if o.kind == "dict":
        return ("dict", v, tuple((frozen(ip, k, seen), frozen(ip, x, seen)) for k, x in o.entries), o.rest)
    if o.kind == "list":
        return ("list", v, tuple((s[0], frozen(ip, s[1], seen) if s[0] == "one" else s[1:]) for s in o.segs))
    if o.kind == "inst":
        return ("inst", v, tuple(sorted(((k, frozen(ip, x, seen)) for k, x in o.attrs.items()), key=lambda kv: kv[0])))
    return v


def flat(x):
    """without the identities of lists and dicts, which may be copied"""
    if isinstance(x, tuple) and x and x[0] in ("dict", "list"):
        return (x[0],) + tuple(flat(y) for y in x[2:])
    if isinstance(x, tuple):
        return tuple(flat(y) for y in x)
    return x


def watch(st):
    st.before = {k: flat(frozen(st.ip, st.field(k))) for k in WATCHED}


def unchanged(q, loc, what, but=()):
    for k in WATCHED:
        if k in but:
            continue
        now = flat(frozen(q.ip, q.field(k)))
        q.require(now == q.st.before[k], loc, "{} leaves the scheduler's {} as they were".format(what, k))


def crowd(st):
    """several queued and running runs of a job, as a reload may leave them:
    started with and without a group, with one which is now full"""
    ip = st.ip
    g = st.group("g", max=C(2))
    j, k = st.job("j", schedule=S("schedule j"), concurrent_runs=TRUE, concurrency_groups=ip.new_list([g])), st.job("k", concurrent_runs=TRUE)
    old = st.job("k")
    ip.facts[("truthy", S("schedule j"))] = True
    st.a = st.running(j, "a", age=st.param("age a", 0), respawn=FALSE, concurrency_group=g)
    st.b = st.running(j, "b", age=st.param("age b", 0), respawn=FALSE, concurrency_group=NONE)
    rest = [
        st.running(j, "c", age=st.param("age c", 0), respawn=FALSE, concurrency_group=g),
        st.running(k, "d", age=st.param("age d", 0), respawn=FALSE, concurrency_group=NONE),
        st.running(old, "e", age=st.param("age e", 0), respawn=FALSE, concurrency_group=NONE),
    ]
    st.x = st.run(j, "x", schedule_time=S("tx"), respawn=TRUE)
    st.y = st.run(j, "y", schedule_time=S("ty"), respawn=FALSE, concurrency_group=g)
    z = st.run(j, "z", schedule_time=S("tz"), respawn=FALSE, trigger_type=C("file"))
    for t in ("tx", "ty", "tz"):
        ip.kinds[S(t)] = "datetime"
    st.j, st.k, st.g = j, k, g
    st.scheduler(st.config([j, k], [g]), scheduled_runs=[st.x, st.y, z], running_runs=[st.a, st.b] + rest, running_groups={g: [st.a, rest[0]]})


def busy(st, **kw):
    """queued and running runs, one of them in a group"""
    g = st.group("g", max=C(3))
    j, k = st.job("j", schedule=S("schedule j"), concurrency_groups=st.ip.new_list([g])), st.job("k")
    st.ip.facts[("truthy", S("schedule j"))] = True
    st.a = st.running(j, "a", age=st.param("age a", 0), respawn=TRUE, concurrency_group=g)
    st.b = st.running(k, "b", age=st.param("age b", 0), respawn=FALSE)
    st.x = st.run(j, "x", schedule_time=S("tx"), respawn=TRUE)
    st.y = st.run(k, "y", schedule_time=S("ty"), respawn=FALSE)
    for t in ("tx", "ty"):
        st.ip.kinds[S(t)] = "datetime"
    st.j, st.k, st.g = j, k, g
    st.scheduler(st.config([j, k], [g], **kw), scheduled_runs=[st.x, st.y], running_runs=[st.a, st.b], running_groups={g: [st.a]})


ERRORS = ["dsari.config.ConfigError", "ValueError", "KeyError", "TypeError", "AttributeError", "FileNotFoundError", "PermissionError",
          "ImportError", "UnicodeDecodeError", "json.JSONDecodeError", "yaml.YAMLError", "RecursionError", "OverflowError", "zoneinfo.ZoneInfoNotFoundError"]


def thrower(st, err, partial):
    """loading the configuration fails, maybe in the middle"""
    ip = st.ip

    def load(ip, loader):
        if partial:
            cfg = st.config([st.job("new", schedule=S("schedule new"))], data_dir=S("other data_dir"))
            ip.deref(ip.getattr_(loader, "config")).attrs.update(ip.deref(cfg).attrs)
        st.failed = True
        r = st.w.repo.resolve_dotted(err)
        if r and r[0] == "class":
            raise PyExc(ip.make_exc(r[1], [C("configuration")]))
        ip.throw(err, "configuration")
    st.load_config = load


def S13(rule):
    """A failed reload."""
    for err in ERRORS:
        for partial in (False, True):
            for down in (False, True):
                if (partial or down) and err not in ERRORS[:3]:
                    continue

                def build(st, err=err, partial=partial, down=down):
                    no_files(st)
                    next_time(st)
                    busy(st)
                    if down:
                        deliver(st, signal.SIGTERM)
                    watch(st)
                    n = len(st.ip.events)
                    thrower(st, err, partial)
                    deliver(st, signal.SIGHUP)
                    st.n0 = n
                    return NONE

                def check(q, err=err):
                    if q.outcome == "stop":
                        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                        return
                    q.require(q.outcome != "exc", q.last_loc(), "a reload which fails ({}) does not end the scheduler".format(err))
                    if q.outcome == "exc":
                        return
                    q.require(getattr(q.st, "failed", False), q.last_loc(), "a SIGHUP loads the configuration")
                    unchanged(q, q.last_loc(), "a reload which fails ({})".format(err))
                    ev = q.events[q.st.n0:]
                    bad = [e for e in ev if e.name in STARTS or e.name in ("os.kill", "os.killpg", "os.remove", "os.unlink", "os.rename", "os._exit", "sys.exit", ".execute", ".commit")]
                    q.require(not bad, bad[0].loc if bad else q.last_loc(), "a reload which fails does nothing else")
                rule.scenario("SIGHUP, {}{}{}".format(err, ", half loaded" if partial else "", ", during shutdown" if down else ""), build, check)

    # and the next one succeeds
    def build(st):
        no_files(st)
        next_time(st)
        busy(st)
        thrower(st, "ValueError", True)
        deliver(st, signal.SIGHUP)
        st.jobs_ = [st.job("j", schedule=S("schedule j")), st.job("n", schedule=S("schedule n"))]
        st.ip.facts[("truthy", S("schedule n"))] = True
        reload_with(st, st.jobs_)
        deliver(st, signal.SIGHUP)
        return NONE

    def check(q):
        q.require(q.outcome != "exc", q.last_loc(), "a reload after one which failed works")
        if q.outcome in ("exc", "stop"):
            return
        ms, more = q.members(q.field("scheduled_runs"))
        q.require(None if ms is None else sorted(q.attr(m, "job") for m in ms) == sorted(q.st.jobs_), q.last_loc(), "a reload after one which failed has its full effect")
    rule.scenario("SIGHUP after a failed one", build, check)

    # a SIGHUP during shutdown
    def build(st):
        no_files(st)
        next_time(st)
        busy(st)
        deliver(st, signal.SIGTERM)
        watch(st)
        st.jobs_ = [st.job("j", schedule=S("schedule j")), st.job("n", schedule=S("schedule n"))]
        st.ip.facts[("truthy", S("schedule n"))] = True
        reload_with(st, st.jobs_)
        deliver(st, signal.SIGHUP)
        return NONE

    def check(q):
        q.require(q.outcome != "exc", q.last_loc(), "a reload during shutdown does not end the scheduler")
        if q.outcome in ("exc", "stop"):
            return
        for k in ("shutdown", "scheduled_runs", "running_runs", "running_groups", "db"):
            q.require(flat(frozen(q.ip, q.field(k))) == q.st.before[k], q.last_loc(), "a reload during shutdown leaves the {} as they were".format(k))
    rule.scenario("SIGHUP during shutdown", build, check)

    # the configuration cannot be loaded at startup
    for err in ERRORS:
        def build(st, err=err):
            no_files(st)
            next_time(st)
            thrower(st, err, False)
            s = st.ip.instantiate(st.w.sched, [S("args")], {})
            return s

        def check(q, err=err):
            if q.outcome == "stop":
                q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                return
            q.require(q.outcome == "exc", q.last_loc(), "the scheduler does not start with a configuration which cannot be loaded ({})".format(err))
            w = [e for e in q.events if e.name in STARTS or e.name in (".execute", ".commit", ".connect", "sqlite3.connect", "os.kill", ".delete_many", ".insert_one")]
            q.require(not w, w[0].loc if w else q.last_loc(), "nothing is done before the configuration is loaded")
        rule.scenario("startup, {}".format(err), build, check)


def destructive(t):
    """does the statement delete from or change the table of ended runs?"""
    s = sql.parse(t)
    if s is None:
        return None
    if s.kind in ("DELETE", "UPDATE", "REPLACE", "DROP", "TRUNCATE", "ALTER"):
        return s.table == "runs"
    return False


def S15(rule):
    """Records of runs which were running when an earlier scheduler ended."""
    def rows(st):
        st.old = {"job_name": S("old job"), "run_id": S("old id"), "schedule_time": S("old s"), "start_time": S("old t"), "trigger_type": S("tt"), "trigger_data": S("td")}
        st.done = dict(st.old, run_id=S("done id"), stop_time=S("old e"), exit_code=S("code"), run_data=S("rd"))
        st.ip.data.setdefault("distinct", set()).update((S("old id"), S("done id")))

    def build(st):
        no_files(st)
        st.ip.ext_overrides["os.path.isdir"] = lambda ip, a, k: TRUE
        next_time(st, later=0)
        st.ip.facts[("truthy", S("schedule s1"))] = True
        jobs = [st.job("s1", schedule=S("schedule s1")), st.job("m")]
        rows(st)
        st.store = Store(st, "sqlite3", {"runs": [st.done], "runs_running": [st.old]})
        reload_with(st, jobs, database=st.ip.new_dict([(C("type"), C("sqlite3")), (C("file"), S("dbfile"))]))
        st.s = st.ip.instantiate(st.w.sched, [S("args")], {})
        st.n1 = len(st.ip.events)
        return st.loop()

    def check(q):
        if q.outcome == "stop" and q.val not in ("wait", "child", "exec"):
            q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
            return
        if q.outcome == "exc":
            return
        st = q.st
        commits = st.store.commits
        ss = q.starts()
        upto = ss[0].n if ss else len(q.events)
        first = [snap for e, snap in commits if e.n <= upto and not any(r.get("run_id") == S("old id") for r in snap["runs_running"])]
        q.require(bool(first), q.last_loc(), "records of runs which an earlier scheduler left as running are removed, for good, before the first start")
        q.require(any(r.get("run_id") == S("done id") for r in st.store.tables["runs"]), q.last_loc(), "records of ended runs stay when the scheduler starts")
        mine = [e for e in ss]
        if mine:
            q.require(any(r.get("run_id") != S("old id") for r in commits[-1][1]["runs_running"]), q.last_loc(), "the records of this scheduler's runs stay")
    rule.scenario("startup with records of an earlier scheduler", build, check)

    # afterwards: a reload keeps the records of running runs
    def build(st):
        no_files(st)
        next_time(st)
        rows(st)
        busy(st, database=st.ip.new_dict([(C("type"), C("sqlite3")), (C("file"), S("dbfile"))]))
        mine = [dict(st.old, run_id=S("id a"), job_name=S("job j")), dict(st.old, run_id=S("id b"), job_name=S("job k"))]
        st.store = Store(st, "sqlite3", {"runs": [st.done], "runs_running": mine})
        reload_with(st, [st.job("j", schedule=S("schedule j"))], database=st.ip.new_dict([(C("type"), C("sqlite3")), (C("file"), S("dbfile"))]))
        for sig in (signal.SIGHUP, signal.SIGUSR1, signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP):
            deliver(st, sig)
        return NONE

    def check(q):
        if q.outcome in ("exc", "stop"):
            q.require(None, q.last_loc(), "path not followed: {}".format(q.val if q.outcome == "stop" else "an exception"))
            return
        t = q.st.store.tables
        q.require(len(t["runs_running"]) == 2, q.last_loc(), "no signal removes the records of running runs")
        q.require(len(t["runs"]) == 1, q.last_loc(), "no signal removes records of ended runs")
    rule.scenario("signals while runs are running", build, check)

    # no statement anywhere deletes ended runs
    import ast
    n = 0
    for f in rule.w.repo.funcs.values():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and " " in x.value:
                s = sql.parse(x.value) if x.value.strip().split(" ")[0].upper() in ("DELETE", "UPDATE", "DROP", "TRUNCATE", "REPLACE", "ALTER") else False
                if s is False:
                    continue
                n += 1
                rule.require(None if s is None or s.table is None else s.table != "runs" or s.kind not in ("DELETE", "UPDATE", "DROP", "TRUNCATE", "REPLACE"),
                             "{}:{}".format(f.module.path if hasattr(f.module, "path") else f.qual, x.lineno), "no statement changes or removes records of ended runs")
    rule.count("statements which change tables", n)


def S16(rule):
    """Status signals change nothing."""
    for sig in (signal.SIGQUIT, signal.SIGUSR1):
        for down, world in ((False, busy), (True, busy), (False, crowd), (True, crowd)):
            def build(st, sig=sig, down=down, world=world):
                no_files(st)
                next_time(st)
                world(st)
                if down:
                    deliver(st, signal.SIGTERM)
                watch(st)
                st.n0 = len(st.ip.events)
                deliver(st, sig)
                return NONE

            def check(q, sig=sig):
                if q.outcome == "stop":
                    q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                    return
                q.require(q.outcome != "exc", q.last_loc(), "{} does not end the scheduler".format(sig.name))
                if q.outcome == "exc":
                    return
                unchanged(q, q.last_loc(), sig.name)
                ev = q.events[q.st.n0:]
                bad = [e for e in ev if e.name in STARTS or e.name in ("os.kill", "os.killpg", "os.remove", "os.unlink", "os.rename", "os._exit", "sys.exit", ".execute", ".commit", "load_config")]
                q.require(not bad, bad[0].loc if bad else q.last_loc(), "{} has no other effect".format(sig.name))
                nw = q.field("next_wakeup")
                if sig == signal.SIGUSR1:
                    q.require(q.cmp("<=", nw, NOW), q.last_loc(), "SIGUSR1 makes the scheduler look for triggers at once")
            rule.scenario("{}{}{}".format(sig.name, " during shutdown" if down else "", ", several runs of a job" if world is crowd else ""), build, check)


# -- S17 -------------------------------------------------------------------------


def S17(rule):
    """A reload leaves the runs in progress alone."""
    OLD = {"limited": (100, 50), "unlimited": None}
    NEW = {"shorter": (10, 5), "longer": (1000, 500), "unlimited": None, "another grace": (100, 1), "gone": "gone", "the same": (100, 50)}
    for old, lim in OLD.items():
        for new, lim2 in NEW.items():
            for grp, when in ((False, (0,)), (True, (0,)), ("no more", (0,)), ("no more", (2, 4)), (True, (2, 4)), (True, (0, 2, 4)), ("removed", (0,)), ("removed", (2, 4))):
                if len(when) > 1 and (new not in ("shorter", "gone", "the same") or not lim):
                    continue

                def build(st, lim=lim, lim2=lim2, grp=grp, when=when):
                    ip = st.ip
                    no_files(st)
                    next_time(st)

                    def limits(lim, n):
                        if lim is None or lim == "gone":
                            return dict(max_execution=NONE)
                        out = {}
                        for a, x in zip(("max_execution", "max_execution_grace"), lim):
                            v = st.param("{} {}".format(a, n), x, x + 2)
                            ip.kinds[v] = "timedelta"
                            ip.facts[("truthy", v)] = True
                            out[a] = v
                        return out
                    g = st.group("g", max=C(1))
                    j = st.job("j", concurrency_groups=ip.new_list([g] if grp else []), **limits(lim, "old"))
                    k = st.job("k")
                    x = st.run(j, "x", schedule_time=lin_add(NOW, C(-1)), respawn=FALSE)
                    st.x = x
                    st.scheduler(st.config([j, k], [g]), scheduled_runs=[x])
                    st.marks = []
                    script = [0, 20, 120, 130, 200, 210]

                    def wait(ev):
                        n = len(st.marks)
                        o = ip.deref(st.field("running_runs"))
                        st.marks.append((len(ip.events), [s[1] for s in o.segs] if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs) else None))
                        if n in when:
                            g2 = st.group("g", max=C(1))
                            js = [st.job("k")]
                            if lim2 != "gone":
                                js.append(st.job("j", concurrency_groups=ip.new_list([g2] if grp is True else []), **limits(lim2, "new{}".format(n or ""))))
                            reload_with(st, js, [] if grp == "removed" else [g2])
                            deliver(st, signal.SIGHUP)
                        if n > len(script):
                            raise Stop("wait")
                        ip.now = lin_add(NOW, C((script + [220, 300, 400])[n + 1]))
                        if n + 1 == len(script):
                            st.end = (ip.now, len(ip.events))
                            return ("tuple", (ip.deref(x).attrs["pid"], C(0), S("rusage")))
                        return ("tuple", (C(0), C(0), S("rusage")))
                    st.on_wait = wait
                    return st.loop()

                def check(q, lim=lim, grp=grp):
                    st = q.st
                    if q.outcome == "exc":
                        q.require(None if q.p.taint else False, q.last_loc(), "the scheduler goes on after a reload")
                        return
                    if not (q.outcome == "stop" and q.val in ("wait", "exec")):
                        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                        return
                    if q.val == "exec" or any(k[0] == "eq" and "fork" in key_str(k) and C(0) in k[1:] and b for k, b, l in q.p.decisions):
                        return  # the child
                    if len(st.marks) < 6:
                        q.require(None, q.last_loc(), "path not followed")
                        return
                    pid = q.attr(st.x, "pid")
                    want = {2: signal.SIGTERM, 4: signal.SIGKILL} if lim else {}
                    for n in range(1, 6):
                        ev = q.events[st.marks[n - 1][0]:st.marks[n][0]]
                        ks = [e for e in ev if e.name in ("os.kill", "os.killpg")]
                        w = want.get(n)
                        loc = ks[0].loc if ks else q.last_loc()
                        got = [(e.args[0] == pid, e.args[1]) for e in ks]
                        q.require(got == ([(True, C(int(w)))] if w else []), loc, "a run in progress keeps the limits it was started with when the configuration is reloaded")
                        ms = st.marks[n][1]
                        q.require(None if ms is None else st.x in ms and ms.count(st.x) == 1, q.last_loc(), "a run in progress is still known after a reload")
                    ends = [(e, v) for e, v in inserts(q, "runs") if v is None or v.get("run_id") == q.attr(st.x, "id")]
                    q.require(len(ends) == 1 and ends[0][0].n >= st.end[1] or (None if unknown_sql(q) else False), q.last_loc(), "the end of a run in progress is recorded after a reload")
                    for e, v in ends:
                        q.require(None if v is None else eq3(q, v.get("job_name"), S("job j")) and eq3(q, v.get("start_time"), NOW) and eq3(q, v.get("schedule_time"), lin_add(NOW, C(-1))), e.loc, "a run in progress during a reload is recorded as it was started")
                    for m in st.marks[6:7]:
                        q.require(None if m[1] is None else st.x not in m[1], q.last_loc(), "a run in progress during a reload is not running any more when it has ended")
                    if grp == "removed":
                        return
                    c = q.attr(st.x, "concurrency_group")
                    q.require((c != NONE) == bool(grp), q.last_loc(), "a run in progress keeps its place in its concurrency group")
                rule.scenario("{} run, the reloaded job is {}{}".format(old, new, {False: "", True: ", group", "removed": ", its group is removed"}.get(grp, ", its group is not its job's any more") + (", reloaded {} times, after signals too".format(len(when)) if len(when) > 1 else "")), build, check, WHILE_CAP=40, MAX_STEPS=500000)


RULES = {"S13": S13, "S15": S15, "S16": S16, "S17": S17}
