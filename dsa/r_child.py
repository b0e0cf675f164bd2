"""Rules over the child process of a run, from fork to exec."""
import os
import signal

from . import sql
from .core import *  # noqa: F401,F403
from .core import EXECS
from .scenario import NOW, Anchor, WAITS
from .interp import Stop
from .dbmodel import Store
from .r_sched import set_groups, no_files, next_time, mask_steps, final_mask, sigset, eq3, WRITES, distinct_pids, reload_with, deliver

ENDS = {"exec", "exit"}
FORBIDDEN = {
    "os.kill": "signals other processes",
    "os.fork": "starts another process",
    "os.remove": "removes files", "os.unlink": "removes files", "os.rename": "renames files",
    "os.replace": "renames files", "shutil.rmtree": "removes files", "os.rmdir": "removes files",
}


def child_part(q):
    """events from the fork on, None if the path has none"""
    for e in q.events:
        if e.name in ("os.fork", "os.forkpty"):
            return q.events[e.n + 1:], e
    return None, None


def due(st, j, **kw):
    st.r1 = st.run(j, "r1", schedule_time=S("st"), **kw)
    st.ip.kinds[S("st")] = "datetime"
    st.ip.assume_cmp("<=", S("st"), NOW)
    return st.r1


def q_members(ip, v):
    o = ip.deref(v)
    if o is None or o.kind != "list" or not all(s[0] == "one" for s in o.segs):
        return None
    return [s[1] for s in o.segs]


FAILS = {
    "builtins.open": ["OSError", "FileNotFoundError", "PermissionError"], "open": ["OSError"],
    "os.chdir": ["OSError"], "os.dup2": ["OSError"], "os.setpgid": ["OSError"], "os.closerange": ["OSError"],
    "os.setsid": ["OSError"], "signal.signal": ["OSError", "ValueError"],
}
for _x in sorted(EXECS):
    FAILS[_x] = ["OSError", "FileNotFoundError", "PermissionError", "TypeError", "ValueError", "IndexError"]


def S09(rule):
    def make(trig, groups, resp):
        def build(st):
            no_files(st)
            next_time(st)
            g = st.group("g", max=C(2))
            j = st.job("j", concurrent_runs=TRUE, command=st.ip.new_list([S("cmd0"), S("cmd1")]))
            if groups:
                st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list([g])
            k = st.job("k", max_execution=st.param("max", 1))
            st.ip.kinds[S("max")] = "timedelta"
            st.ip.facts[("truthy", S("max"))] = True
            a = st.running(k, "a", age=st.param("age_a", 0))
            r1 = due(st, j, respawn=resp)
            r2 = st.run(k, "r2", schedule_time=lin_add(NOW, st.param("ahead", 0, None, lo_open=True)))
            st.ip.deref(r1).attrs["trigger_data"] = st.ip.new_dict([(C("environment"), st.ip.new_dict([(C("K"), S("v"))]))] if trig else [])
            st.scheduler(st.config([j, k], [g]), scheduled_runs=[r1, r2], running_runs=[a])
            return st.loop()
        return build

    def check(q):
        evs, f = child_part(q)
        if evs is None:
            return
        bad = None
        for e in evs:
            if e.name in FORBIDDEN:
                bad = (e, FORBIDDEN[e.name])
            elif e.name in WAITS:
                bad = (e, "waits for the scheduler's processes")
            elif e.name == "time.sleep" and e.args != [C(0)]:
                bad = (e, "goes on as a second scheduler")
            elif e.name in WRITES - {".execute", ".executemany"}:
                bad = (e, "writes to the scheduler's database")
            elif e.name in (".execute", ".executemany"):
                t = e.args[0] if e.args else NONE
                s = sql.parse(t[2]) if is_const(t) and isinstance(t[2], str) else None
                if s is None or s.kind != "SELECT":
                    bad = (e, "writes to the scheduler's database")
            if bad:
                break
        q.require(bad is None, bad[0].loc if bad else f.loc, "the process of a run {}".format(bad[1] if bad else ""))
        ok = (q.outcome == "stop" and q.val in ENDS) or q.outcome in ("exc", "ret")
        q.require(ok, q.last_loc(), "the process of a run does not end when its command cannot be executed")
    for trig in (False, True):
        for groups in (False, True):
            for resp in (TRUE, FALSE):
                rule.scenario("child of a run{}{}, respawn {}".format(", by trigger" if trig else "", ", in a group" if groups else "", resp[2]),
                              make(trig, groups, resp), check, fork="child", raises=dict(FAILS))

    # the scheduler is not the child
    def par(q):
        evs, f = child_part(q)
        if evs is None:
            return
        ex = [e for e in evs if e.name in EXECS or e.name in ("os.dup2", "os.chdir", "os.closerange", "os.setsid")]
        q.require(not ex, ex[0].loc if ex else f.loc, "the scheduler itself does what its child should")
    rule.scenario("the scheduler after the fork", make(False, True, TRUE), par, fork="parent")


# -- S10: environment -------------------------------------------------------------


def text(v):
    """strings and str() of something, alike"""
    while True:
        if v[0] == "str" and len(v[1]) == 1:
            v = v[1][0]
        elif v[0] == "app" and v[1] == "str" and len(v) == 3:
            v = v[2]
        else:
            break
    if v[0] == "str":
        out = []
        for p in v[1]:
            p = text(p)
            out.extend(p[1] if p[0] == "str" else [p])
        v = make_str(out)
    if is_const(v):
        return C(str(v[2]))
    return v


def path(st, *parts):
    return st.ip.models["os.path.join"](st.ip, list(parts), {})


def rundir(st, job="job j", rid="id r1"):
    return path(st, S("data_dir"), C("runs"), S(job), S(rid))


def rows(st, have):
    """the database has these previous runs: the row of each query"""
    last = [None]

    def hook(e):
        if e.name == ".execute":
            t = e.args[0]
            last[0] = sql.parse(t[2]) if is_const(t) and isinstance(t[2], str) else None
        if e.name == ".fetchone":
            s = last[0]
            if s is None or s.kind != "SELECT" or s.table != "runs":
                return None
            kind = "run"
            for col, op, rhs in s.where:
                if col == "exit_code":
                    kind = "good" if op == "=" else "bad"
            if kind not in have:
                return NONE
            d = []
            for c in s.cols:
                v = S("{} {}".format(kind, c))
                if kind == "good" and c == "exit_code":
                    v = C(0)
                if c == "exit_code":
                    st.ip.kinds[v] = "int"
                elif c.endswith("_time"):
                    st.ip.kinds[v] = "float"
                    st.ip.facts[("types", v)] = frozenset({"float"})
                else:
                    st.ip.kinds[v] = "str"
                    st.ip.facts[("types", v)] = frozenset({"str"})
                    st.ip.facts[("truthy", v)] = True
                d.append((C(c), v))
            return st.ip.new_dict(d)
        return None
    st.hook = hook
    st.ip.ext_overrides["json.loads"] = lambda ip, a, k: ip.new_dict()


def S10(rule):
    def scenario(name, have=(), group=False, jobgroup=False, jenkins=False, envs=(), pwd=None, trig=True, pw=True):
        def build(st):
            no_files(st)
            next_time(st)
            rows(st, have)
            ip = st.ip
            if pwd is not None:
                ip.ext_overrides["os.path.isdir"] = lambda ip, a, k: C(pwd)
            g = st.group("g", max=C(2))
            j = st.job("j", command=ip.new_list([S("cmd0"), S("cmd1")]), jenkins_environment=C(jenkins), job_group=S("jobgroup") if jobgroup else NONE)
            ip.facts[("truthy", S("jobgroup"))] = True
            ip.kinds[S("jobgroup")] = "str"
            if group:
                full = st.group("full", max=C(1))
                ip.deref(j).attrs["concurrency_groups"] = ip.new_list([full, g] if group == "two" else [g])
                ip.deref(g).attrs["name"] = S("groupname")
                ip.kinds[S("groupname")] = "str"
            r1 = due(st, j, trigger_type=S("trigger_type"))
            ip.kinds[S("trigger_type")] = "str"

            def env(i):
                d = []
                for key, levels in envs:
                    if i in levels:
                        v = S("{} {}".format(key, "gjt"[i]))
                        ip.kinds[v] = "str"
                        ip.facts[("types", v)] = frozenset({"str"})
                        d.append((C(key), v))
                return ip.new_dict(d)
            ip.deref(j).attrs["environment"] = env(1)
            ip.deref(r1).attrs["trigger_data"] = ip.new_dict([(C("environment"), env(2))] if trig else [])
            st.scheduler(st.config([j], [g], environment=env(0)), scheduled_runs=[r1])
            if group == "two":
                k = st.job("k")
                other = st.running(k, "other", age=st.param("age other", 0), concurrency_group=full)
                ip.deref(st.field("running_runs")).segs.append(("one", other))
                set_groups(st, (full, ip.new_list([other])))
            return st.loop()

        def check(q):
            st = q.st
            for e in q.events:
                if e.name not in EXECS:
                    continue
                d = None
                if e.name in ("os.execve", "os.execvpe") and len(e.args) > 2:
                    d = q.ip.deref(e.args[2])
                elif e.name in ("os.execle", "os.execlpe") and e.args:
                    d = q.ip.deref(e.args[-1])
                else:
                    q.require(False, e.loc, "a run inherits the scheduler's environment")
                    continue
                if d is None or d.kind != "dict":
                    q.require(None if e.args[2][0] != "ext" else False, e.loc, "the environment of a run is unknown")
                    continue
                if d.rest is not None:
                    q.require(False if "environ" in str(d.rest) else None, e.loc, "a run inherits the scheduler's environment")
                got = {}
                for k, v in d.entries:
                    if not is_const(k):
                        k2 = text(k)
                    else:
                        k2 = k
                    got[k2[2] if is_const(k2) else show(k2)] = v
                rd = rundir(st)
                dd, jn, rid = S("data_dir"), S("job j"), S("id r1")
                want = {
                    "CI": C("true"), "DSARI": C("true"), "DATA_DIR": dd, "JOB_NAME": jn,
                    "JOB_DIR": path(st, dd, C("runs"), jn), "RUN_ID": rid, "RUN_DIR": rd,
                    "SCHEDULE_TIME": S("st"), "START_TIME": NOW, "TRIGGER_TYPE": S("trigger_type"),
                    "TRIGGER_DIR": path(st, dd, C("trigger")),
                }
                pwv = ("LOGNAME", "HOME")
                if group:
                    want["CONCURRENCY_GROUP"] = S("groupname")
                if jobgroup:
                    want["JOB_GROUP"] = S("jobgroup")
                for kind, px in (("run", "PREVIOUS_"), ("good", "PREVIOUS_GOOD_"), ("bad", "PREVIOUS_BAD_")):
                    if kind in have:
                        want[px + "RUN_ID"] = S(kind + " run_id")
                        for c in ("schedule_time", "start_time", "stop_time", "exit_code"):
                            want[px + c.upper()] = C("0") if (kind, c) == ("good", "exit_code") else S("{} {}".format(kind, c))
                if jenkins:
                    want.update({
                        "BUILD_NUMBER": rid, "BUILD_ID": rid, "NODE_NAME": C("master"), "EXECUTOR_NUMBER": C("0"),
                        "BUILD_URL": make_str([C("file://"), rd, C("/")]), "JENKINS_URL": make_str([C("file://"), dd, C("/")]),
                        "BUILD_TAG": make_str([C("dsari-"), jn, C("-"), rid]), "WORKSPACE": rd,
                    })
                given = {}
                for key, levels in envs:
                    lv = [x for x in levels if x != 2 or trig]
                    if lv:
                        given[key] = S("{} {}".format(key, "gjt"[max(lv)]))
                want.update(given)
                for k in sorted(want):
                    if k == "PWD":
                        continue
                    v = got.get(k)
                    why = "the user's setting of a variable with the highest precedence" if k in given else "the documented value of {}".format(k)
                    if v is None:
                        q.require(None if d.rest is not None else False, e.loc, "a run's environment lacks {}".format(k if k not in given else "a variable the user set"))
                        continue
                    t = text(v)
                    ok = True if t == text(want[k]) else None if t[0] in ("top",) else False
                    q.require(ok, e.loc, "a run's environment does not have {}".format(why))
                if "PATH" not in given:
                    t = text(got.get("PATH", NONE))
                    ok = t == C("/usr/bin:/bin") or (t[0] == "app" and t[1] == "item" and t[2] == ("ext", "os.environ") and t[3] == C("PATH"))
                    q.require(None if t[0] == "top" else ok, e.loc, "a run's PATH is neither the scheduler's nor the default")
                for k in pwv:
                    if k in given:
                        continue
                    v = got.get(k)
                    if v is None:
                        q.require(bool(q.ip.data.get("raised")), e.loc, "a run's environment lacks {}".format(k))
                    else:
                        t = text(v)
                        q.require(None if t[0] == "top" else mentions(t, app("os.getuid")) or "getpwuid" in show(t), e.loc, "a run's {} is not that of the running user".format(k))
                cd = [x for x in q.events[: e.n] if x.name == "os.chdir"]
                p = got.get("PWD")
                q.require(p is not None and bool(cd) and text(p) == text(cd[-1].args[0]), e.loc, "a run's PWD is not its working directory")
                if cd:
                    w = given.get("PWD") if pwd else None
                    q.require(text(cd[-1].args[0]) == (w or text(rd)), cd[-1].loc, "a run's working directory is not {}".format("the one set by PWD" if w else "its run directory"))
                for k in got:
                    ok = k in want or k in pwv or k in ("PATH", "PWD")
                    q.require(None if not ok and d.rest is not None else ok, e.loc, "a run's environment has an undocumented variable {}".format(k))
                q.rule.count("environment variables", len(got))

        rule.scenario(name, build, check, fork="child", raises={} if pw else {"pwd.getpwuid": ["KeyError"]})

    # one run after the other: the previous ones are those which ended meanwhile
    def several(codes, reload=False, conc=FALSE, queued=False):
        def build(st):
            ip = st.ip
            ip.fork = "parent"
            no_files(st)
            next_time(st)
            attrs = dict(schedule=S("schedule"), concurrent_runs=conc, command=ip.new_list([S("cmd0"), S("cmd1")]))
            ip.facts[("truthy", S("schedule"))] = True
            j, k = st.job("j", **attrs), st.job("k")
            a = st.running(k, "a", age=C(1000))
            if queued:
                # both due, and blocked until another run of their group ends
                g = st.group("g", max=C(2))
                ip.deref(j).attrs["concurrency_groups"] = ip.new_list([g])
                b = st.running(k, "b", age=C(1000))
                ip.deref(b).attrs["concurrency_group"] = g
                rs = [st.run(j, "r" + str(i), schedule_time=lin_add(NOW, C(i - 9)), respawn=FALSE, trigger_type=S("trigger_type")) for i in range(1, len(codes) + 2)]
                st.scheduler(st.config([j, k]), scheduled_runs=rs, running_runs=[a, b], running_groups={g: [b]})
            else:
                r1 = st.run(j, "r1", schedule_time=lin_add(NOW, C(-1)), respawn=TRUE, trigger_type=S("trigger_type"))
                st.scheduler(st.config([j, k]), scheduled_runs=[r1], running_runs=[a])
            Store(st, "sqlite3")
            ip.ext_overrides["json.loads"] = lambda ip, a, k: ip.new_dict()
            times = [0]

            def next(ip, fi, args, kw):
                times[0] += 1
                return lin_add(NOW, C(100 * times[0] - 20))
            ip.overrides["dsari.utils.get_next_schedule_time"] = next
            st.past, st.n = [], 0
            distinct_pids(st, "a")

            def wait(e):
                now = {}
                for r in (q_members(ip, st.field("running_runs")) or []):
                    at = ip.deref(r).attrs
                    if ip.deref(at["job"]).attrs["name"] == S("job j") and at.get("id") not in [x[0] for x in st.past]:
                        now[at["id"]] = r
                n = len(st.past)
                st.n += 1
                if st.n > 12:
                    raise Stop("wait")
                if len(now) != 1 or n >= len(codes):
                    ip.now = lin_add(ip.now, C(50))
                    return ("tuple", (C(0), C(0), S("rusage")))
                (rid, r), = now.items()
                ip.now = lin_add(NOW, C(100 * (n + 1) - 50))
                ip.data["distinct"].add(ip.deref(r).attrs["pid"])
                st.past.append((rid, ip.deref(r).attrs["schedule_time"], ip.deref(r).attrs["start_time"], ip.now, codes[n]))
                res = ("tuple", (ip.deref(r).attrs["pid"], C(codes[n] << 8), S("rusage")))
                if n == len(codes) - 1:
                    ip.fork = "child"
                if reload and n == reload - 1:
                    k2, j2 = st.job("k"), st.job("j", **dict(attrs, command=ip.new_list([S("cmd0"), S("cmd1")])))
                    reload_with(st, [k2, j2])
                    deliver(st, signal.SIGHUP)
                return res
            st.on_wait = wait
            return st.loop()

        def check(q):
            st = q.st
            ex = [e for e in q.events if e.name in EXECS]
            if not ex:
                q.require(None if q.outcome != "exc" or q.p.taint else False, q.last_loc(), "path not followed: {}".format(q.val if isinstance(q.val, str) else ""))
                return
            for e in ex:
                d = q.ip.deref(e.args[2]) if len(e.args) > 2 else None
                if d is None or d.kind != "dict":
                    q.require(None, e.loc, "the environment of a run is unknown")
                    continue
                got = {k[2]: v for k, v in d.entries if is_const(k)}
                for px, mine in (("PREVIOUS_", st.past), ("PREVIOUS_GOOD_", [x for x in st.past if x[4] == 0]), ("PREVIOUS_BAD_", [x for x in st.past if x[4] != 0])):
                    want = dict(zip(("RUN_ID", "SCHEDULE_TIME", "START_TIME", "STOP_TIME", "EXIT_CODE"), mine[-1][:4] + (C(mine[-1][4]),))) if mine else {}
                    for c in ("RUN_ID", "SCHEDULE_TIME", "START_TIME", "STOP_TIME", "EXIT_CODE"):
                        v = got.get(px + c)
                        if not mine:
                            q.require(v is None, e.loc, "a run gets {}{} although there is no such run".format(px, c))
                            continue
                        if v is None:
                            q.require(None if d.rest is not None else False, e.loc, "a run lacks {}{} although such a run has ended before it started".format(px, c))
                            continue
                        q.require(None if text(v)[0] == "top" else text(v) == text(want[c]), e.loc, "a run's {}{} is not that of the last such run which ended before it started".format(px, c))
        rule.scenario("after {} run(s) which ended with {}{}".format(len(codes), codes, ", a reload meanwhile" if reload else ", all due at first" if queued else ""), build, check, WHILE_CAP=30, MAX_STEPS=500000)

    several((0,))
    several((3,))
    several((0, 3))
    several((3, 0))
    several((0, 3, 0))
    several((0, 3), reload=1)
    several((0,), conc=TRUE, queued=True)
    several((3, 0), queued=True)

    prec = (("PATH", (0,)), ("A", (0,)), ("B", (0, 1)), ("C", (0, 1, 2)), ("D", (1,)), ("E", (1, 2)), ("F", (2,)), ("G", (0, 2)))
    scenario("first run of a job")
    scenario("first run of a job, scheduled", trig=False)
    scenario("previous runs", have=("run", "good", "bad"))
    scenario("previous good runs only", have=("run", "good"))
    scenario("previous bad runs only", have=("run", "bad"))
    scenario("groups", group=True, jobgroup=True)
    scenario("two groups, one of them full", group="two")
    scenario("Jenkins variables", jenkins=True, have=("run",))
    scenario("user without an entry in the password database", pw=False)
    scenario("variables set globally, by the job, and by the trigger", envs=prec)
    scenario("variables set globally and by the job", envs=prec, trig=False)
    scenario("generated variables overridden globally", envs=(("PATH", (0,)), ("HOME", (0,)), ("RUN_ID", (0,)), ("CI", (0,)), ("JOB_GROUP", (0,)), ("PREVIOUS_RUN_ID", (0,)), ("BUILD_ID", (0,))), jenkins=True, jobgroup=True, have=("run",))
    scenario("generated variables overridden by the job", envs=(("PATH", (1,)), ("LOGNAME", (1,)), ("JOB_NAME", (0, 1)), ("PREVIOUS_BAD_RUN_ID", (1,)), ("NODE_NAME", (1,))), jenkins=True, have=("bad",))
    scenario("generated variables overridden by the trigger", envs=(("PATH", (0, 1, 2)), ("TRIGGER_TYPE", (2,)), ("START_TIME", (1, 2)), ("CONCURRENCY_GROUP", (2,)), ("WORKSPACE", (2,))), jenkins=True, group=True)
    for lv in ((0,), (1,), (2,), (0, 1, 2)):
        scenario("PWD set at {}, exists".format(lv), envs=(("PWD", lv),), pwd=True)
        scenario("PWD set at {}, does not exist".format(lv), envs=(("PWD", lv),), pwd=False)


# -- S11: process ---------------------------------------------------------------------


class FdFile:
    def __init__(self, e):
        self.e = e
        a = e.args
        self.path = a[0] if a else None
        self.mode = None
        if e.name == "os.open":
            fl = a[1][2] if len(a) > 1 and is_const(a[1]) else None
            if fl is not None:
                acc = fl & 3
                self.mode = ("r" if acc == os.O_RDONLY else "a" if fl & os.O_APPEND else "w")
                if acc != os.O_RDONLY and not fl & os.O_CREAT:
                    self.mode = "r+"
        else:
            m = a[1] if len(a) > 1 else e.kw.get("mode", C("r"))
            self.mode = m[2] if is_const(m) else None


def fd_table(q, events):
    """what the descriptors 0, 1 and 2 refer to after events"""
    opens, fds, files = {}, {}, {}
    tab = {0: "the scheduler's", 1: "the scheduler's", 2: "the scheduler's"}
    for e in events:
        if e.name in ("open", "builtins.open", "io.open", "os.open"):
            f = FdFile(e)
            (files if e.name != "os.open" else fds)[e.res] = f
        elif e.name in (".fileno",):
            if e.recv in files:
                fds[e.res] = files[e.recv]
        elif e.name == "os.dup2" and len(e.args) >= 2:
            a, b = e.args[:2]
            if not is_const(b):
                return None
            if is_const(a):
                tab[b[2]] = tab.get(a[2], "closed")
            elif a in fds:
                tab[b[2]] = fds[a]
            else:
                return None
        elif e.name == "os.close" and e.args:
            if is_const(e.args[0]):
                tab[e.args[0][2]] = "closed"
        elif e.name == "os.closerange" and len(e.args) == 2 and is_const(e.args[0]):
            for k in list(tab):
                if k >= e.args[0][2]:
                    tab[k] = "closed"
    return tab


def S11(rule):
    for append in (FALSE, TRUE):
        for exists in (FALSE, TRUE):
            def build(st, append=append, exists=exists):
                no_files(st)
                next_time(st)
                ip = st.ip
                ip.ext_overrides["signal.pthread_sigmask"] = lambda ip, a, k: (ip.emit("signal.pthread_sigmask", [a[0], sigset(ip, a[1])]), S("oldmask"))[1]
                j = st.job("j", command=ip.new_list([S("cmd0"), S("cmd1")]), command_append_run=append, concurrent_runs=TRUE)
                k = st.job("k", command=ip.new_list([S("other")]))
                r1 = due(st, j)
                a = st.running(k, "a", age=st.param("age_a", 0))
                st.scheduler(st.config([j, k]), scheduled_runs=[r1], running_runs=[a])
                st.j = j
                return st.loop()

            def check(q, append=append):
                evs, f = child_part(q)
                if evs is None:
                    return
                st = q.st
                before = q.events[: f.n]
                mk = [e for e in before if e.name in ("os.makedirs", "os.mkdir", ".mkdir")]
                q.require(any(text((e.args or [e.recv])[0]) == text(rundir(st)) for e in mk), f.loc, "a run's process is started before its directory exists")
                ex = [e for e in evs if e.name in EXECS]
                if not ex:
                    return
                e = ex[0]
                pre = q.events[f.n + 1: e.n]
                # command line
                if e.name in ("os.execv", "os.execve", "os.execvp", "os.execvpe"):
                    ms, more = q.members(e.args[1])
                    want = [S("cmd0"), S("cmd1")] + ([S("job j"), S("id r1")] if append == TRUE else [])
                    q.require(None if ms is None or more else ms == want, e.loc, "a run's command line is not the configured command{}".format(" with job name and run id" if append == TRUE else ""))
                    q.require(None if e.args[0][0] == "top" else e.args[0] == S("cmd0"), e.loc, "a run executes another program than its command's")
                    q.require(e.name in ("os.execvp", "os.execvpe"), e.loc, "a run's command is not searched in PATH")
                # descriptors
                tab = fd_table(q, pre)
                if tab is None:
                    q.require(None, e.loc, "descriptors unknown")
                else:
                    t0, t1, t2 = tab[0], tab[1], tab[2]
                    q.require(isinstance(t0, FdFile) and t0.path == C(os.devnull), e.loc, "a run's standard input is not /dev/null")
                    out = text(path(st, rundir(st), C("output.txt")))
                    for n, t in (("standard output", t1), ("standard error", t2)):
                        ok = isinstance(t, FdFile) and text(t.path) == out and (t.mode is None or t.mode[0] in "wax")
                        q.require(ok, e.loc, "a run's {} does not go to its output.txt".format(n))
                    if isinstance(t1, FdFile) and isinstance(t2, FdFile) and t1.e is not t2.e:
                        q.require(t1.mode == t2.mode == "a", e.loc, "a run's standard output and standard error overwrite each other")
                # process group, signals
                own = [x for x in pre if x.name in ("os.setsid", "os.setpgrp")]
                for x in pre:
                    if x.name == "os.setpgid" and len(x.args) == 2:
                        if x.args[0] in (C(0), app("os.getpid")) and x.args[1] in (C(0), app("os.getpid")):
                            own.append(x)
                q.require(bool(own), e.loc, "a run's process stays in the scheduler's process group")
                pipe = [x for x in pre if x.name == "signal.signal" and x.args and x.args[0] == C(int(signal.SIGPIPE))]
                q.require(bool(pipe) and pipe[-1].args[1] == ("ext", "signal.SIG_DFL"), e.loc, "a run's process ignores SIGPIPE")
                for x in pre:
                    if x.name == "signal.signal" and len(x.args) == 2:
                        q.require(x.args[1] != ("ext", "signal.SIG_IGN"), x.loc, "a run's process ignores a signal")
                mask = final_mask(list(q.st.init_events) + [y for y in q.events[: e.n]])
                q.require(None if mask is None else not mask, e.loc, "a run's command is started with signals blocked")
                q.rule.count("exec calls", 1)
            rule.scenario("command_append_run {}, {}".format(append[2], exists[2]), build, check, fork="child") if exists == FALSE else None

            def par(q, append=append):
                ms, more = q.members(q.attr(q.st.j, "command"))
                q.require(None if ms is None else ms == [S("cmd0"), S("cmd1")], q.last_loc(), "starting a run changes the job's configured command")
            rule.scenario("the scheduler's view, command_append_run {}".format(append[2]), build, par, fork="parent") if exists == FALSE else None


RULES = {"S09": S09, "S10": S10, "S11": S11}
