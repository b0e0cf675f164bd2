"""Rules over the scheduler's main loop and signal handlers."""
import signal

from . import sql
from .core import *  # noqa: F401,F403
from .core import STARTS, EXECS
from .interp import PyExc, Stop, Prune
from .scenario import NOW, Anchor, WAITS, Clock

WRITES = {".execute", ".executemany", ".executescript", ".insert_one", ".insert_many", ".delete_many", ".delete_one",
          ".update_one", ".replace_one", ".commit"}


def no_files(st, exists=FALSE):
    """No trigger or return data file exists, no directory either."""
    st.ip.ext_overrides["os.path.exists"] = lambda ip, a, k: exists
    st.ip.ext_overrides["os.path.isfile"] = lambda ip, a, k: exists


def next_time(st, name="next", none=False, later=None):
    """The next time of a schedule is whatever the schedule library says."""
    calls = []

    def f(ip, fi, args, kw):
        calls.append((args, dict(kw), ip.loc()))
        ip.emit("next_schedule_time", args, kw)
        if none:
            return NONE
        v = S("{}{}".format(name, len(calls)))
        ip.kinds[v] = "datetime"
        if later is not None:
            ip.assume_cmp(">", v, lin_add(NOW, C(later)))
        return v

    q = "dsari.utils.get_next_schedule_time"
    if q not in st.w.repo.funcs:
        raise Anchor(q)
    st.ip.overrides[q] = f
    st.next_calls = calls


def started_runs(q):
    """Runs which the path moved to the running runs."""
    ms, more = q.members(q.field("running_runs"))
    return ms or []


def sql_events(q, events=None):
    """(event, statement or None, parameters or None)"""
    out = []
    for e in (q.events if events is None else events):
        if e.name in (".execute", ".executemany"):
            t = e.args[0] if e.args else NONE
            st = sql.parse(t[2]) if is_const(t) and isinstance(t[2], str) else None
            ps = None
            if len(e.args) > 1:
                a = e.args[1]
                if a[0] == "tuple":
                    ps = list(a[1])
                else:
                    o = q.ip.deref(a)
                    if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
                        ps = [s[1] for s in o.segs]
            elif len(e.args) == 1:
                ps = []
            out.append((e, st, ps))
    return out


def insert_values(st, ps):
    """{column: value} of an INSERT"""
    out = {}
    i = 0
    if ps is None:
        return None
    for c, v in zip(st.cols, st.vals):
        if sql.is_placeholder(v):
            if i >= len(ps):
                return None
            out[c] = ps[i]
            i += 1
        else:
            out[c] = ("text", v)
    return out


def where_values(st, ps):
    out = []
    i = 0
    for col, op, rhs in st.where:
        if len(rhs) == 1 and sql.is_placeholder(rhs[0]):
            out.append((col, op, ps[i] if ps is not None and i < len(ps) else None))
            i += 1
        else:
            out.append((col, op, ("text", " ".join(rhs))))
    return out


# -- S01: a job which does not allow it never has two runs ----------------


def base_two(st, position="middle", late=None, limited=False, **jobattrs):
    j = st.job("j", concurrent_runs=FALSE, **jobattrs)
    if limited:
        st.limited(j)
    k1, k2 = st.job("k1"), st.job("k2")
    r0 = st.running(j, "r0", age=st.param("age", 0))
    a = st.running(k1, "a", age=st.param("age_a", 0))
    b = st.running(k2, "b", age=st.param("age_b", 0))
    running = {"first": [r0, a, b], "middle": [a, r0, b], "last": [a, b, r0], "only": [r0]}[position]
    return j, k1, k2, r0, a, b, running


def S01(rule):
    def no_start(q):
        ss = q.starts()
        q.require(not ss, ss[0].loc if ss else q.last_loc(), "a second run of a job without concurrent_runs is started while one is running")

    for pos in ("first", "middle", "last", "only", "limited"):
        def build(st, pos=pos):
            no_files(st)
            j, k1, k2, r0, a, b, running = base_two(st, "first" if pos == "limited" else pos, limited=pos == "limited")
            r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
            st.scheduler(st.config([j, k1, k2]), running_runs=running, scheduled_runs=[r1])
            return st.loop()
        rule.scenario("due run of a job that is running ({} of the running runs)".format(pos), build, no_start)

    def build(st):
        no_files(st)
        g = st.group("g", max=st.param("max", None))
        j, k1, k2, r0, a, b, running = base_two(st)
        st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list([g])
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
        st.scheduler(st.config([j, k1, k2], [g]), running_runs=running, scheduled_runs=[r1])
        return st.loop()
    rule.scenario("the same, in a concurrency group", build, no_start)

    # two due runs, none running
    def build2(st):
        no_files(st)
        next_time(st)
        j = st.job("j", concurrent_runs=FALSE)
        k = st.job("k", concurrent_runs=TRUE)
        a = st.running(k, "a", age=st.param("age_a", 0))
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late1", 0), -1))
        r2 = st.run(j, "r2", schedule_time=lin_add(NOW, st.param("late2", 0), -1))
        st.scheduler(st.config([j, k]), running_runs=[a], scheduled_runs=[r1, r2])
        return st.loop()

    def one_start(q):
        ss = q.starts()
        q.require(len(ss) <= 1, ss[-1].loc if ss else q.last_loc(), "two runs of a job without concurrent_runs are started together")
    rule.scenario("two due runs of one job", build2, one_start)

    # a start is followed by the loop's next turn
    def build3(st):
        no_files(st)
        next_time(st)
        j = st.limited(st.job("j", concurrent_runs=FALSE))
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late1", 0), -1), respawn=TRUE)
        r2 = st.run(j, "r2", schedule_time=lin_add(NOW, st.param("late2", 0), -1))
        st.scheduler(st.config([j]), scheduled_runs=[r1])
        turn = [0]

        def wait(e):
            turn[0] += 1
            if turn[0] == 1:
                # meanwhile a trigger has queued another run
                o = st.ip.deref(st.field("scheduled_runs"))
                if o is None or o.kind != "list":
                    raise Stop("wait")
                o.segs.append(("one", r2))
                st.ip.now = lin_add(NOW, S("elapsed"))
                st.ip.set_range(S("elapsed"), 61, 100)
                return ("tuple", (C(0), C(0), S("rusage")))
            raise Stop("wait")
        st.on_wait = wait
        return st.loop()
    rule.scenario("run started, next turn with another due run", build3, one_start)

    # on the clock
    def build6(st):
        no_files(st)
        next_time(st, later=1000)
        j, k = st.limited(st.job("j", concurrent_runs=FALSE)), st.job("k")
        st.ip.assume_cmp(">", st.ip.deref(j).attrs["max_execution"], C(100))
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late1", 0), -1), respawn=st.flag("respawn r1"))
        r2 = st.run(j, "r2", schedule_time=lin_add(NOW, st.param("ahead", 0.3, 0.4)), respawn=st.flag("respawn r2"))
        st.scheduler(st.config([j, k]), scheduled_runs=[r1, r2])
        Clock(st, C(1.5))
        return st.loop()
    rule.scenario("on the clock: a run started, another one due soon", build6, one_start, WHILE_CAP=5000, MAX_STEPS=2000000)

    # reload: the job objects are new
    def build4(st):
        no_files(st)
        next_time(st)
        j, k1, k2, r0, a, b, running = base_two(st)
        j2 = st.job("j", concurrent_runs=FALSE, schedule=S("schedule"))
        st.ip.facts[("truthy", S("schedule"))] = True
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
        st.scheduler(st.config([j, k1, k2]), running_runs=running, scheduled_runs=[r1])
        reload_with(st, [j2, k1])
        deliver(st, signal.SIGHUP)
        return st.loop()

    def reload_check(q):
        no_start(q)
    rule.scenario("reload while the job is running, its next run due", build4, reload_check, min_paths=1)

    # what is running stays known until it is reaped
    for what in ("none", "unknown", "other", "its job's other"):
        def build5(st, what=what):
            no_files(st)
            j, k1, k2, r0, a, b, running = base_two(st)
            if what == "its job's other":
                # concurrent_runs was true until a reload, say
                st.ip.deref(a).attrs["job"] = j
            st.r0 = r0
            st.scheduler(st.config([j, k1, k2]), running_runs=running)
            n = [0]

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                if what == "none":
                    st.ip.now = lin_add(NOW, C(61))
                    return ("tuple", (C(0), C(0), S("rusage")))
                if what == "unknown":
                    x = st.param("unknown_pid", 1)
                    distinct_pids(st, "a", "b", "r0")
                    st.ip.data["distinct"].add(x)
                    return ("tuple", (x, C(0), S("rusage")))
                distinct_pids(st, "a", "b", "r0")
                return ("tuple", (S("pid a"), C(0), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def still(q):
            if q.outcome == "exc":
                return
            ok = q.in_list(q.field("running_runs"), q.st.r0)
            q.require(ok, q.last_loc(), "a run whose process has not ended is no longer known to be running")
        rule.scenario("wait reports {} process".format({"none": "no", "unknown": "an unknown", "other": "another run's"}.get(what, "another run of its job's")), build5, still)


def distinct_pids(st, *names):
    st.ip.data.setdefault("distinct", set()).update(S("pid " + x) for x in names)


def reload_with(st, jobs, groups=(), **attrs):
    """The configuration files now have this content."""
    ip = st.ip

    def load(ip, loader):
        cfg = st.config(jobs, groups, **attrs)
        ip.deref(ip.getattr_(loader, "config")).attrs.update(ip.deref(cfg).attrs)
        return NONE

    st.load_config = load


def handlers(st):
    """{signal number: handler} as registered by the constructor"""
    out = {}
    for e in st.init_events:
        if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0]):
            out[e.args[0][2]] = e.args[1]
    return out


def deliver(st, signum):
    h = handlers(st).get(int(signum))
    if h is None:
        raise Anchor("handler of signal {}".format(int(signum)))
    return st.ip.call(h, [C(int(signum)), S("frame")], {})



# -- S02: concurrency groups ----------------------------------------------


def many_runs(st, token, n_lo=None):
    """A list segment of unknown length: the runs of a group (or others)."""
    def elem(ip, k):
        kj = st.job("kj" + token)
        return st.running(kj, "{}{}".format(token, k), age=st.param("age_" + token, 0))
    st.ip.elems[token] = elem
    n = app("len", S(token))
    st.ip.set_range(n, 0, None)
    return ("many", token), n


def group_list(st, segs):
    v = st.ip.new_list()
    st.ip.deref(v).segs = list(segs)
    return v


def set_groups(st, *pairs):
    d = st.ip.new_dict([(g, l) for g, l in pairs])
    st.ip.deref(st.s).attrs["running_groups"] = d


def group_members(q, g):
    d = q.ip.deref(q.field("running_groups"))
    if d is None or d.kind != "dict":
        return None
    for k, v in d.entries:
        if k == g:
            ms, more = q.members(v)
            return ms
    return [] if d.rest is None else None


def S02(rule):
    def no_start(q):
        ss = q.starts()
        q.require(not ss, ss[0].loc if ss else q.last_loc(), "a run is started although all its concurrency groups are full")

    def full(st, n, m):
        """n running in a group of maximum m: full"""
        st.ip.assume_cmp(">=", n, m)

    for ngroups in (1, 2):
        for conc in (FALSE, TRUE):
            def build(st, ngroups=ngroups, conc=conc):
                no_files(st)
                next_time(st)
                gs, lists = [], []
                for i in range(ngroups):
                    seg, n = many_runs(st, "in%d" % i)
                    m = st.param("max%d" % i)
                    st.ip.kinds[m] = "int"
                    full(st, n, m)
                    g = st.group("g%d" % i, max=m)
                    gs.append(g)
                    lists.append((g, group_list(st, [seg])))
                j, k = st.job("j", concurrent_runs=conc), st.job("k")
                st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list(gs)
                a = st.running(k, "a", age=st.param("age_a", 0))
                r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1), respawn=st.flag("respawn r1"))
                st.scheduler(st.config([j, k], gs), running_runs=[a], scheduled_runs=[r1])
                set_groups(st, *lists)
                return st.loop()
            rule.scenario("{} full group(s), concurrent_runs {}".format(ngroups, conc[2]), build, no_start)

    # full and free: the free one is taken
    def build(st):
        no_files(st)
        next_time(st)
        st.ip.data["shuffle"] = True
        seg0, n0 = many_runs(st, "in0")
        seg1, n1 = many_runs(st, "in1")
        m0, m1 = st.param("max0"), st.param("max1")
        st.ip.kinds[m0] = st.ip.kinds[m1] = "int"
        st.ip.assume_cmp(">=", n0, m0)
        st.ip.assume_cmp("<", n1, m1)
        st.g0, st.g1 = st.group("g0", max=m0), st.group("g1", max=m1)
        j = st.job("j")
        st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list([st.g0, st.g1])
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
        st.r1 = r1
        st.scheduler(st.config([j], [st.g0, st.g1]), scheduled_runs=[r1])
        set_groups(st, (st.g0, group_list(st, [seg0])), (st.g1, group_list(st, [seg1])))
        return st.loop()

    def free(q):
        for e in q.starts():
            q.require(q.attr(q.st.r1, "concurrency_group") == q.st.g1, e.loc, "a run is started in a group which is full")
            ms = group_members(q, q.st.g1)
            q.require(None if ms is None else q.st.r1 in ms, e.loc, "a started run does not take a place in its concurrency group")
            ms = group_members(q, q.st.g0)
            q.require(None if ms is None else q.st.r1 not in ms, e.loc, "a started run takes a place in another group")
    rule.scenario("one full and one free group", build, free)

    # two due runs for one place
    for known in (True, False):
        for lname, same in (("two jobs", False), ("one job", True)):
            def build2(st, known=known, same=same):
                no_files(st)
                next_time(st)
                st.ip.data["shuffle"] = True
                if known:
                    seg, n = many_runs(st, "in0")
                    st.g = st.group("g", max=lin_add(n, C(1)))
                else:
                    st.g = st.group("g", max=C(1))
                j = st.job("j", concurrent_runs=TRUE)
                k = j if same else st.job("k", concurrent_runs=TRUE)
                for x in {j, k}:
                    st.ip.deref(x).attrs["concurrency_groups"] = st.ip.new_list([st.g])
                r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late1", 0), -1), respawn=TRUE)
                r2 = st.run(k, "r2", schedule_time=lin_add(NOW, st.param("late2", 0), -1))
                st.scheduler(st.config([j] if same else [j, k], [st.g]), scheduled_runs=[r1, r2])
                if known:
                    set_groups(st, (st.g, group_list(st, [seg])))
                return st.loop()

            def one_place(q):
                ss = q.starts()
                q.require(len(ss) <= 1, ss[-1].loc if ss else q.last_loc(), "two runs take the last place of a concurrency group")
            rule.scenario("two due runs ({}) for one place, group {}".format(lname, "in use" if known else "unused so far"), build2, one_place)

    # in the next turn the place is still taken
    def build3(st):
        no_files(st)
        next_time(st)
        g = st.group("g", max=C(1))
        j, k = st.job("j", concurrent_runs=TRUE), st.job("k", concurrent_runs=TRUE)
        for x in (j, k):
            st.ip.deref(x).attrs["concurrency_groups"] = st.ip.new_list([g])
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late1", 0), -1))
        r2 = st.run(k, "r2", schedule_time=lin_add(NOW, st.param("late2", 0), -1))
        st.scheduler(st.config([j, k], [g]), scheduled_runs=[r1])
        turn = [0]

        def wait(e):
            turn[0] += 1
            o = st.ip.deref(st.field("scheduled_runs"))
            if turn[0] > 1 or o is None or o.kind != "list":
                raise Stop("wait")
            o.segs.append(("one", r2))
            st.ip.now = lin_add(NOW, C(61))
            return ("tuple", (C(0), C(0), S("rusage")))
        st.on_wait = wait
        return st.loop()

    def one(q):
        ss = q.starts()
        q.require(len(ss) <= 1, ss[-1].loc if ss else q.last_loc(), "a second run takes the only place of a concurrency group")
    rule.scenario("one run started, next turn with a due run of the same group", build3, one)

    # a run that ends frees exactly its own place
    def build4(st):
        no_files(st)
        g, h = st.group("g", max=st.param("max")), st.group("h", max=st.param("max2"))
        j, k = st.job("j", concurrent_runs=TRUE), st.job("k")
        r0 = st.running(j, "r0", age=st.param("age", 0), concurrency_group=g)
        a = st.running(st.limited(st.job("l")), "a", age=st.param("age_a", 0), concurrency_group=g)
        b = st.running(k, "b", age=st.param("age_b", 0), concurrency_group=h)
        c = st.running(k, "c", age=st.param("age_c", 0))
        st.r0, st.a, st.b, st.g, st.h = r0, a, b, g, h
        st.scheduler(st.config([j, k], [g, h]), running_runs=[a, r0, b, c])
        set_groups(st, (g, st.ip.new_list([a, r0])), (h, st.ip.new_list([b])))
        n = [0]

        def wait(e):
            n[0] += 1
            if n[0] > 1:
                raise Stop("wait")
            return ("tuple", (S("pid r0"), st.param("status", 0, 65535), S("rusage")))
        st.on_wait = wait
        return st.loop()

    def freed(q):
        if q.outcome == "exc":
            return
        g = group_members(q, q.st.g)
        h = group_members(q, q.st.h)
        und = g is None or h is None
        q.require(None if und else q.st.r0 not in g, q.last_loc(), "a run that ended keeps its place in the concurrency group")
        q.require(None if und else (q.st.a in g and q.st.b in h), q.last_loc(), "a running run loses its place in its concurrency group")
    rule.scenario("a run of a group ends", build4, freed)

    # reload: the group objects are new
    for gone in (False, True):
        def build5(st, gone=gone):
            no_files(st)
            next_time(st)
            g = st.group("g", max=C(1))
            j, k = st.job("j", concurrent_runs=TRUE), st.job("k")
            r0 = st.running(j, "r0", age=st.param("age", 0), concurrency_group=g)
            u = st.running(k, "u", age=st.param("age_u", 0))
            st.scheduler(st.config([j, k], [g]), running_runs=[u, r0])
            set_groups(st, (g, st.ip.new_list([r0])))
            g2 = st.group("g", max=C(1))
            st.ip.facts[("truthy", S("schedule"))] = True
            k2 = st.job("k", schedule=S("schedule"), concurrent_runs=TRUE)
            st.ip.deref(k2).attrs["concurrency_groups"] = st.ip.new_list([g2])
            st.ip.kinds[S("next1")] = "datetime"
            reload_with(st, [k2] if gone else [st.job("j"), k2], [g2])
            deliver(st, signal.SIGHUP)
            return st.loop()
        rule.scenario("reload while the group is full{}".format(", its job is gone" if gone else ""), build5, no_start)

    # several runs keep their places through a reload, in whatever order they are known
    for order in ((0, 1, 2), (1, 0, 2), (2, 1, 0)):
        def build6(st, order=order):
            no_files(st)
            next_time(st)
            g, h = st.group("g", max=C(2)), st.group("h", max=C(1))
            j, k, l = st.job("j", concurrent_runs=TRUE), st.job("k"), st.job("l")
            r0 = st.running(j, "r0", age=st.param("age", 0), concurrency_group=g)
            r1 = st.running(k, "r1", age=st.param("age_1", 0), concurrency_group=g)
            r2 = st.running(l, "r2", age=st.param("age_2", 0), concurrency_group=h)
            rs = [r0, r1, r2]
            st.scheduler(st.config([j, k, l], [g, h]), running_runs=[rs[i] for i in order])
            set_groups(st, (g, st.ip.new_list([r0, r1])), (h, st.ip.new_list([r2])))
            g2, h2 = st.group("g", max=C(2)), st.group("h", max=C(1))
            st.ip.facts[("truthy", S("schedule"))] = True
            jobs = [st.job(n, schedule=S("schedule"), concurrent_runs=TRUE) for n in ("m", "n")]
            st.ip.deref(jobs[0]).attrs["concurrency_groups"] = st.ip.new_list([g2])
            st.ip.deref(jobs[1]).attrs["concurrency_groups"] = st.ip.new_list([h2, g2])
            reload_with(st, jobs + [st.job("j"), st.job("k"), st.job("l")], [g2, h2])
            deliver(st, signal.SIGHUP)
            st.ip.now = lin_add(NOW, C(86400))
            st.ip.kinds[st.ip.now] = "datetime"
            for i in range(1, 6):
                st.ip.assume_cmp("<=", S("next%d" % i), NOW)
            return st.loop()
        rule.scenario("reload while the groups of three runs are full, known in the order {}".format(order), build6, no_start)


# -- S05: what is due starts, what is not does not -------------------------


def S05(rule):
    def build(st):
        no_files(st)
        next_time(st)
        j, k = st.job("j"), st.job("k")
        a = st.running(k, "a", age=st.param("age_a", 0))
        d = st.param("ahead", 0, None, lo_open=True)
        st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, d), respawn=TRUE)
        st.scheduler(st.config([j, k]), running_runs=[a], scheduled_runs=[st.r1])
        return st.loop()

    def future(q):
        ss = q.starts()
        q.require(not ss, ss[0].loc if ss else q.last_loc(), "a run is started before its scheduled time")
        q.require(q.in_list(q.field("scheduled_runs"), q.st.r1), q.last_loc(), "a run whose time has not come is dropped")
        nw = q.field("next_wakeup")
        if nw is not None and q.outcome == "stop":
            q.require(q.cmp("<=", nw, q.attr(q.st.r1, "schedule_time")), q.last_loc(), "the scheduler does not wake up in time for a scheduled run")
            q.require(q.cmp("<=", nw, lin_add(NOW, C(60))), q.last_loc(), "the scheduler sleeps for more than a minute")
    rule.scenario("a run whose time has not come", build, future)

    def buildm(st):
        no_files(st)
        next_time(st)
        j, k, l = st.job("j"), st.job("k"), st.job("l")
        st.rs = []
        for n, x in (("x", j), ("y", k), ("z", l)):
            st.rs.append(st.run(x, n, schedule_time=lin_add(NOW, st.param("ahead " + n, 0, None, lo_open=True)), respawn=TRUE))
        st.scheduler(st.config([j, k, l]), scheduled_runs=list(st.rs))
        return st.loop()

    def all_future(q):
        nw = q.field("next_wakeup")
        for r in q.st.rs:
            if nw is not None and q.outcome == "stop":
                q.require(q.cmp("<=", nw, q.attr(r, "schedule_time")), q.last_loc(), "the scheduler does not wake up in time for a scheduled run")
    rule.scenario("three runs whose time has not come", buildm, all_future)

    # time passes while the scheduler looks
    def buildt(st):
        no_files(st)
        next_time(st)
        j, k = st.job("j"), st.job("k")
        st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("ahead", 0, None, lo_open=True)), respawn=TRUE)
        st.scheduler(st.config([j, k]), scheduled_runs=[st.r1])
        st.ip.data["ticking"] = True
        return st.loop()

    def in_time_too(q):
        if q.outcome != "stop" or q.in_list(q.field("scheduled_runs"), q.st.r1) is not True:
            return
        nw = q.field("next_wakeup")
        q.require(q.cmp("<=", nw, q.attr(q.st.r1, "schedule_time")), q.last_loc(), "the scheduler does not wake up in time for a run whose time comes while it looks")
    rule.scenario("a run whose time comes while the scheduler looks", buildt, in_time_too)

    # several due ones all start
    def builds(st):
        no_files(st)
        next_time(st, later=100)
        st.rs = []
        jobs = [st.job(n) for n in ("j", "k", "l")]
        for i, x in enumerate(jobs):
            st.rs.append(st.run(x, "r%d" % i, schedule_time=lin_add(NOW, st.param("late%d" % i, 0), -1), respawn=st.flag("respawn %d" % i)))
        st.scheduler(st.config(jobs), scheduled_runs=list(st.rs))
        return st.loop()

    def all_start(q):
        if q.outcome == "exc":
            return
        ss = [e.res for e in q.starts()]
        for r in q.st.rs:
            q.require(ss.count(q.attr(r, "pid")) == 1, q.last_loc(), "one of several due runs which nothing blocks is not started exactly once")
    rule.scenario("three due runs", builds, all_start)

    # due and free
    for name, groups in (("no group", 0), ("a free group", 1), ("a full and a free group", 2)):
        for conc in (TRUE, FALSE):
            def build2(st, groups=groups, conc=conc):
                no_files(st)
                next_time(st)
                j, k = st.job("j", concurrent_runs=conc), st.job("k", concurrent_runs=FALSE)
                st.gs = []
                lists = []
                for i in range(groups):
                    seg, n = many_runs(st, "in%d" % i)
                    m = st.param("max%d" % i)
                    st.ip.kinds[m] = "int"
                    st.ip.assume_cmp("<" if i == groups - 1 else ">=", n, m)
                    g = st.group("g%d" % i, max=m)
                    st.gs.append(g)
                    lists.append((g, group_list(st, [seg])))
                st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list(st.gs)
                a = st.running(k, "a", age=st.param("age_a", 0))
                st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
                st.r2 = st.run(k, "r2", schedule_time=lin_add(NOW, st.param("ahead", 0, None, lo_open=True)))
                st.scheduler(st.config([j, k], st.gs), running_runs=[a] + ([st.running(j, "b", age=st.param("age_b", 0))] if conc == TRUE else []), scheduled_runs=[st.r2, st.r1])
                set_groups(st, *lists)
                return st.loop()

            def due(q):
                if q.outcome == "exc":
                    return
                ss = q.starts()
                q.require(len(ss) == 1, ss[-1].loc if ss else q.last_loc(), "a due run which nothing blocks is not started exactly once")
                if len(ss) == 1:
                    q.require(q.in_list(q.field("running_runs"), q.st.r1), ss[0].loc, "a started run is not among the running runs")
                    r = q.in_list(q.field("scheduled_runs"), q.st.r1)
                    q.require(None if r is None else not r, ss[0].loc, "a started run is still queued and would start again")
                    q.require(q.attr(q.st.r1, "pid") == ss[0].res, ss[0].loc, "a started run is not associated with its process")
                    q.require(eq3(q, q.attr(q.st.r1, "start_time"), NOW), ss[0].loc, "a started run's start time is not the current time")
            rule.scenario("a due run, {}, concurrent_runs {}".format(name, conc[2]), build2, due)

    # blocked: kept and retried
    for why in ("job", "group"):
        def build3(st, why=why):
            no_files(st)
            next_time(st)
            j = st.job("j", concurrent_runs=C(why == "group"))
            gs = []
            r0 = st.running(j, "r0", age=st.param("age", 0))
            if why == "group":
                g = st.group("g", max=C(1))
                st.ip.deref(j).attrs["concurrency_groups"] = st.ip.new_list([g])
                st.ip.deref(r0).attrs["concurrency_group"] = g
                gs = [g]
            st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1), respawn=S("respawn"))
            st.scheduler(st.config([j], gs), running_runs=[r0], scheduled_runs=[st.r1])
            if gs:
                set_groups(st, (gs[0], st.ip.new_list([r0])))
            st.idle = 0
            return st.loop()

        def blocked(q):
            if q.outcome == "exc":
                return
            q.require(q.val != "spins", q.last_loc(), "a blocked run makes the scheduler spin")
            q.require(q.in_list(q.field("scheduled_runs"), q.st.r1), q.last_loc(), "a blocked run is dropped")
            nw = q.field("next_wakeup")
            if nw is not None:
                q.require(q.cmp("<=", nw, lin_add(NOW, C(60))), q.last_loc(), "a blocked run is not tried again within a minute")
                q.require(q.cmp(">", nw, NOW), q.last_loc(), "a blocked run makes the scheduler spin")
        rule.scenario("a due run blocked by its {}".format(why), build3, blocked, WHILE_CAP=12)

    # on the clock: each run starts at its time
    for name, lo, hi, running in (
        ("soon", 0, 1.5, False), ("in more than a minute", 60.2, 60.6, False), ("very soon", 0, 0.2, True), ("in more than a minute", 60.4, 60.5, True),
    ):
        for n in (1, 2):
            if n == 2 and hi > 60 and rule.tier == "quick":
                continue
            def build5(st, lo=lo, hi=hi, n=n, running=running):
                no_files(st)
                next_time(st, later=1000)
                jobs, rs = [], []
                for i in range(n):
                    j = st.job("j%d" % i)
                    jobs.append(j)
                    d = st.param("ahead%d" % i, lo, hi, lo_open=True) if i == 0 else C(1.5)
                    rs.append(st.run(j, "r%d" % i, schedule_time=lin_add(NOW, d)))
                if running:
                    k = st.job("k")
                    jobs.append(k)
                    a = [st.running(k, "a", age=st.param("age_a", 0))]
                st.first = rs[0]
                st.scheduler(st.config(jobs), scheduled_runs=rs, running_runs=a if running else [])
                Clock(st, C(hi + 2.5))
                return st.loop()

            def at_its_time(q):
                if q.outcome == "exc":
                    return
                q.require(q.val != "spins", q.last_loc(), "the scheduler spins while it waits")
                q.require(q.val != "blocked", q.last_loc(), "the scheduler waits for a process only, whatever is queued")
                if q.val not in ("time is over", "spins"):
                    return
                t = q.attr(q.st.first, "schedule_time")
                ss = [e for e in q.starts() if q.attr(q.st.first, "pid") == e.res]
                q.require(len(ss) == 1, ss[-1].loc if ss else q.last_loc(), "a run does not start at its time")
                for e in ss:
                    q.require(q.cmp(">=", e.now, t), e.loc, "a run starts before its time")
                    q.require(q.cmp("<=", e.now, lin_add(t, C(1))), e.loc, "a run starts late, although nothing blocks it")
            rule.scenario("on the clock: a run {}, {}{}".format(name, "one queued" if n == 1 else "another one is queued", ", another job is running" if running else ""),
                          build5, at_its_time, WHILE_CAP=5000, MAX_STEPS=2000000)

    # signals end the wait
    for running in (True, False):
        def build4(st, running=running):
            no_files(st)
            j, k = st.job("j"), st.job("k")
            a = st.running(k, "a", age=st.param("age_a", 0))
            st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, C(50)))
            st.scheduler(st.config([j, k]), running_runs=[a] if running else [], scheduled_runs=[st.r1])
            st.looked = [0]
            st.sent = [False]
            st.waits = [0]

            def exists(ip, args, kw):
                if st.sent[0]:
                    raise Stop("looked again")
                return FALSE
            st.ip.ext_overrides["os.path.exists"] = exists
            st.ip.ext_overrides["os.path.isfile"] = exists

            def wait(e):
                st.waits[0] += 1
                if st.waits[0] > 3:
                    raise Stop("wait")
                return ("tuple", (C(0), C(0), S("rusage")))

            def sleep(e):
                if e.args == [C(0)]:
                    return None
                if not st.sent[0]:
                    st.sent[0] = True
                    deliver(st, signal.SIGUSR1)
                    return None
                raise Stop("slept on")
            st.on_wait = wait
            st.on_sleep = sleep
            return st.loop()

        def woken(q):
            if not q.st.sent[0]:
                return
            q.require(q.outcome == "stop" and q.val == "looked again", q.last_loc(), "SIGUSR1 does not make the scheduler look for triggers at once")
        rule.scenario("SIGUSR1 while waiting, {}".format("a run is running" if running else "nothing running"), build4, woken)


def eq3(q, a, b):
    """three-valued equality"""
    if a is None:
        return False
    if a == b:
        return True
    r = q.ip.eq_known(a, b)
    if r is not None:
        return r
    if a[0] == "top" or b[0] == "top":
        return None
    if a[0] in ("lin", "const", "sym") and b[0] in ("lin", "const", "sym"):
        if a[0] == "lin" or b[0] == "lin":
            return q.cmp("==", a, b)
        return False
    return None



# -- S03: every run is recorded --------------------------------------------


def is_commit(q, e):
    if e.name == ".commit":
        return True
    return e.name == "exit" and e.args and e.args[0][0] == "res" and "connect" in e.args[0][1]


def record_value(q, run, col):
    """what column col of the record of a run has to contain"""
    if col == "job_name":
        return q.attr(q.attr(run, "job"), "name")
    if col == "run_id":
        return q.attr(run, "id")
    v = q.attr(run, col)
    if col in ("trigger_data", "run_data"):
        return app("json.dumps", v)
    return v


RUNNING_COLS = ["job_name", "run_id", "schedule_time", "start_time", "trigger_type", "trigger_data", "run_data"]
DONE_COLS = RUNNING_COLS + ["stop_time", "exit_code"]


def inserts(q, table, run=None, events=None):
    """indices and values of the INSERTs into a table; None values: unknown"""
    out = []
    for e, st, ps in sql_events(q, events):
        if st is None or st.kind is None:
            continue
        if st.kind.startswith("INSERT") and st.table == table:
            out.append((e, insert_values(st, ps)))
    return out


def unknown_sql(q):
    return any(st is None or st.table is None for _, st, _ in sql_events(q))


def S03(rule):
    # a start
    for trig in (False, True):
        def build(st, trig=trig):
            no_files(st)
            next_time(st)
            j, k = st.job("j"), st.job("k")
            a = st.running(k, "a", age=st.param("age_a", 0))
            st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
            st.td = st.ip.deref(st.r1).attrs["trigger_data"]
            if trig:
                st.ip.deref(st.td).entries.append([C("k"), S("v")])
            st.scheduler(st.config([j, k]), running_runs=[a], scheduled_runs=[st.r1])
            return st.loop()

        def recorded(q):
            for e in q.starts():
                before = q.events[: e.n]
                ins = [(x, vals) for x, vals in inserts(q, "runs_running", events=before) if vals is None or vals.get("run_id") == q.attr(q.st.r1, "id")]
                und = unknown_sql(q)
                q.require(len(ins) == 1 or (None if und else False), e.loc, "a process is started without the run having been recorded as running (once)")
                for x, vals in ins[:1]:
                    q.require(any(is_commit(q, c) for c in before[x.n:]), x.loc, "the record of a running run is not committed before its process starts")
                    if vals is None:
                        q.require(None, x.loc, "parameters of the record unknown")
                        continue
                    for c in RUNNING_COLS:
                        q.require(c in vals and eq3(q, vals.get(c), record_value(q, q.st.r1, c)), x.loc, "the record of a running run has a wrong {}".format(c))
                    q.require(eq3(q, vals.get("start_time"), NOW), x.loc, "the recorded start time is not the time of the start")
                after = [x for x, vals in inserts(q, "runs") ]
                q.require(not after, after[0].loc if after else e.loc, "a run which has not ended is recorded as ended")
        rule.scenario("a run starts{}".format(", by trigger" if trig else ""), build, recorded)

    # an end
    for rd in (False, True, None):
        def build2(st, rd=rd):
            no_files(st)
            j, k = st.limited(st.job("j")), st.job("k")
            r0 = st.running(j, "r0", age=st.param("age", 0))
            a = st.running(k, "a", age=st.param("age_a", 0))
            st.r0, st.a = r0, a
            st.scheduler(st.config([j, k]), running_runs=[a, r0] if rd else [r0, a])
            if rd is None:
                st.ip.deref(st.field("config")).attrs.update(shutdown_kill_runs=st.flag("shutdown_kill_runs"), shutdown_kill_grace=st.param("shutdown_kill_grace", 0, kind="timedelta"))
                deliver(st, signal.SIGTERM)
            n = [0]
            st.waited = None

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                st.waited = e
                st.ip.now = lin_add(NOW, st.param("elapsed", 0))
                st.later = st.ip.now
                return ("tuple", (S("pid r0"), lin_scale(st.param("code", 0, 255), 256), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def ended(q):
            if q.outcome == "exc":
                return
            if q.st.waited is None:
                return
            und = True if unknown_sql(q) else False
            ins = inserts(q, "runs")
            q.require(len(ins) == 1 or (None if und else False), q.st.waited.loc, "a run that ended is not recorded exactly once")
            for x, vals in ins[:1]:
                q.require(any(is_commit(q, c) for c in q.events[x.n:]), x.loc, "the record of a run that ended is not committed")
                if vals is None:
                    q.require(None, x.loc, "parameters of the record unknown")
                    continue
                for c in DONE_COLS:
                    q.require(c in vals and eq3(q, vals.get(c), record_value(q, q.st.r0, c)), x.loc, "the record of a run has a wrong {}".format(c))
                q.require(eq3(q, vals.get("stop_time"), q.st.later), x.loc, "the recorded stop time is not the time of the end")
                q.require(eq3(q, vals.get("start_time"), lin_add(NOW, S("age"), -1)), x.loc, "the recorded start time is changed at the end of the run")
                q.require(eq3(q, vals.get("exit_code"), S("code")), x.loc, "the recorded exit code is not that of the process")
            dels = [(e, where_values(s, ps)) for e, s, ps in sql_events(q) if s is not None and s.kind == "DELETE" and s.table == "runs_running"]
            mine = [e for e, w in dels if len(w) == 1 and w[0] == ("run_id", "=", q.attr(q.st.r0, "id"))]
            q.require(bool(mine) or (None if und else False), q.st.waited.loc, "a run that ended is still recorded as running")
            other = [e for e, w in dels if e not in mine]
            q.require(not other, other[0].loc if other else q.st.waited.loc, "the end of one run removes the record of another running run")
            if mine:
                q.require(any(is_commit(q, c) for c in q.events[mine[0].n:]), mine[0].loc, "the removal of the running record is not committed")
            r = q.in_list(q.field("running_runs"), q.st.r0)
            q.require(None if r is None else not r, q.st.waited.loc, "a run that ended is still among the running runs")
            q.require(q.in_list(q.field("running_runs"), q.st.a), q.st.waited.loc, "another run is forgotten when a run ends")
        rule.scenario("a run ends ({})".format("during shutdown" if rd is None else "second of two" if rd else "first of two"), build2, ended)

    # while time passes: what is recorded at the end is what was recorded at the start
    for trig in (False, True):
        def buildl(st, trig=trig):
            ip = st.ip
            no_files(st)
            j = st.job("j")
            st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, C(-10)))
            if trig:
                ip.deref(ip.deref(st.r1).attrs["trigger_data"]).entries.append([C("k"), S("v")])
            st.scheduler(st.config([j]), scheduled_runs=[st.r1])
            ip.data["ticking"] = C(0.001)
            n = [0]

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                return ("tuple", (ip.deref(st.r1).attrs["pid"], C(0), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def agree(q):
            if q.outcome == "exc":
                q.require(None if q.p.taint else False, q.last_loc(), "the scheduler goes on")
                return
            und = True if unknown_sql(q) else False
            a, b = inserts(q, "runs_running"), inserts(q, "runs")
            if not b and not any(e.name in WAITS for e in q.events):
                q.require(None, q.last_loc(), "path not followed")
                return
            q.require(len(a) == len(b) == 1 or (None if und else False), q.last_loc(), "a run is recorded once as running and once as ended")
            if len(a) != 1 or len(b) != 1 or a[0][1] is None or b[0][1] is None:
                return
            for c in RUNNING_COLS:
                if c == "run_data":
                    continue
                q.require(eq3(q, b[0][1].get(c), a[0][1].get(c)), b[0][0].loc, "the {} recorded when a run ends is not that recorded when it started".format(c))
        rule.scenario("a run starts and ends while time passes{}".format(", by trigger" if trig else ""), buildl, agree)

    # nothing of ours ended
    for what in ("none", "unknown"):
        def build3(st, what=what):
            no_files(st)
            j = st.job("j")
            r0 = st.running(j, "r0", age=st.param("age", 0))
            st.r0 = r0
            st.scheduler(st.config([j]), running_runs=[r0])
            n = [0]

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                if what == "none":
                    st.ip.now = lin_add(NOW, C(61))
                    return ("tuple", (C(0), C(0), S("rusage")))
                x = st.param("unknown_pid", 1)
                st.ip.data.setdefault("distinct", set()).add(x)
                return ("tuple", (x, S("status"), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def nothing(q):
            w = [e for e, s, ps in sql_events(q)]
            q.require(not w, w[0].loc if w else q.last_loc(), "the records change although no run ended")
            q.require(q.in_list(q.field("running_runs"), q.st.r0), q.last_loc(), "a run is forgotten although it has not ended")
        rule.scenario("{} ended".format("nothing" if what == "none" else "a process which is no run"), build3, nothing)


# -- S04: recurring schedules ----------------------------------------------


def new_runs(q, old=()):
    ms, more = q.members(q.field("scheduled_runs"))
    if ms is None:
        return None
    return [m for m in ms if m not in old]


def S04(rule):
    for resp, sched, none in ((TRUE, True, False), (TRUE, True, True), (FALSE, True, False), (TRUE, False, False)):
        def build(st, resp=resp, sched=sched, none=none):
            no_files(st)
            next_time(st, none=none)
            j, k = st.job("j", schedule=S("schedule") if sched else NONE), st.job("k", schedule=S("schedule k"))
            st.ip.facts[("truthy", S("schedule"))] = True
            st.j = j
            st.rk = st.run(k, "rk", schedule_time=lin_add(NOW, st.param("ahead", 0, None, lo_open=True)), respawn=TRUE)
            st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1), respawn=resp)
            st.scheduler(st.config([j, k]), scheduled_runs=[st.rk, st.r1])
            return st.loop()

        def respawned(q, resp=resp, sched=sched, none=none):
            if q.outcome == "exc":
                q.require(False if none else None, q.last_loc(), "the scheduler fails when a schedule has no further time")
                return
            ss = q.starts()
            if not ss:
                return
            loc = ss[0].loc
            new = new_runs(q, (q.st.rk, q.st.r1))
            q.require(q.in_list(q.field("scheduled_runs"), q.st.rk), loc, "starting one run drops another queued run")
            want = 1 if resp == TRUE and sched and not none else 0
            q.require(None if new is None else len(new) == want, loc, "starting a run of a recurring schedule does not queue exactly one next run" if want else "a next run is queued although there is none to come")
            if new and want:
                n = new[0]
                q.require(q.attr(n, "job") == q.st.j, loc, "the next run is one of another job")
                q.require(q.attr(n, "respawn") == TRUE, loc, "the next run of a schedule is the last one")
                t = q.attr(n, "schedule_time")
                q.require(t is not None and t[0] == "sym" and t[1].startswith("next"), loc, "the next run is not scheduled for the next time of the schedule")
                q.require(q.attr(n, "id") is not None and q.attr(n, "id") != q.attr(q.st.r1, "id"), loc, "the next run has the id of the previous one")
                q.require(eq3(q, q.attr(n, "trigger_type"), C("schedule")), loc, "a scheduled run is not marked as such")
                nw = q.field("next_wakeup")
                if nw is not None and q.outcome == "stop" and q.cmp("<=", t, NOW) is not True:
                    q.require(q.cmp("<=", nw, t), loc, "the scheduler does not wake up in time for the next run of a job it just started")
            for args, kw, l in q.st.next_calls:
                check_next_call(q, args, kw, l, q.attr(q.st.j, "schedule"), q.attr(q.st.j, "name"))
        rule.scenario("a due run: respawn {}, {}, {}".format(resp[2], "job has a schedule" if sched else "job has no schedule", "no further time" if none else "schedule has further times"), build, respawned)

    # (re)load: exactly one run for each job with a schedule
    for how in ("reload", "startup"):
        for none in (False, True):
            def build2(st, how=how, none=none):
                no_files(st)
                next_time(st, none=none)
                for n in ("s1", "s2"):
                    st.ip.facts[("truthy", S("schedule " + n))] = True
                old = st.job("s1", schedule=S("schedule s1"))
                gone = st.job("gone", schedule=S("schedule g"))
                jobs = [st.job("s1", schedule=S("schedule s1")), st.job("m"), st.job("s2", schedule=S("schedule s2"))]
                st.jobs_ = jobs
                if how == "startup":
                    cfg = st.config(jobs)
                    reload_with(st, jobs)
                    st.s = st.ip.instantiate(st.w.sched, [S("args")], {})
                    return NONE
                st.x = st.run(old, "x", schedule_time=S("tx"), respawn=TRUE)
                st.y = st.run(gone, "y", schedule_time=S("ty"), respawn=TRUE)
                st.r0 = st.running(old, "r0", age=st.param("age", 0), respawn=TRUE)
                st.scheduler(st.config([old, gone]), scheduled_runs=[st.x, st.y], running_runs=[st.r0])
                reload_with(st, jobs)
                deliver(st, signal.SIGHUP)
                return NONE

            def rebuilt(q, how=how, none=none):
                if q.outcome == "exc":
                    q.require(False if none else None, q.last_loc(), "the scheduler fails when a schedule has no further time")
                    return
                ms, more = q.members(q.field("scheduled_runs"))
                if ms is None:
                    q.require(None, q.last_loc(), "queue unknown")
                    return
                js = [q.attr(q.attr(m, "job"), "name") for m in ms]
                for i in (0, 2):
                    nm = q.attr(q.st.jobs_[i], "name")
                    q.require(js.count(nm) == (0 if none else 1), q.last_loc(), "after a {} a job with a schedule does not have exactly one queued run".format(how))
                q.require(q.attr(q.st.jobs_[1], "name") not in js, q.last_loc(), "a job without a schedule is queued after a {}".format(how))
                q.require(S("job gone") not in js, q.last_loc(), "a job which is no longer configured stays queued")
                for m in ms:
                    j = q.attr(m, "job")
                    q.require(j in q.st.jobs_, q.last_loc(), "after a {} a queued run has the old job definition".format(how))
                    q.require(q.attr(m, "respawn") == TRUE, q.last_loc(), "a scheduled run is not followed by another")
                    t = q.attr(m, "schedule_time")
                    q.require(t is not None and t[0] == "sym" and t[1].startswith("next"), q.last_loc(), "a queued run is not scheduled for the next time of its schedule")
                jl, _ = q.members(q.field("jobs"))
                if jl is not None:
                    q.require(sorted(jl) == sorted(q.st.jobs_), q.last_loc(), "after a {} the known jobs are not the configured ones".format(how))
                if how == "reload":
                    q.require(q.in_list(q.field("running_runs"), q.st.r0), q.last_loc(), "a reload forgets a running run")
                for args, kw, l in q.st.next_calls:
                    nm = args[1] if len(args) > 1 else kw.get("job_name")
                    j = next((x for x in q.st.jobs_ if q.attr(x, "name") == nm), None)
                    if j is not None:
                        check_next_call(q, args, kw, l, q.attr(j, "schedule"), q.attr(j, "name"))
            rule.scenario("{}, {}".format(how, "no further times" if none else "further times"), build2, rebuilt)

    # a trigger which takes the place of a queued run continues its schedule: T04

    # the timezone of the schedule
    for how in ("a due run", "reload", "startup"):
        def build3(st, how=how):
            no_files(st)
            next_time(st)
            ip = st.ip
            ip.data["zones"] = True
            ip.ext_overrides["dateutil.tz.gettz"] = lambda ip, a, k: app("zone", *a) if a else C("local")
            jobs = []
            for n in ("j", "k", "l"):
                ip.facts[("truthy", S("schedule " + n))] = True
                jobs.append(st.job(n, schedule=S("schedule " + n), **({"schedule_timezone": NONE} if n == "l" else {})))
                ip.kinds[S("tz " + n)] = "tzinfo"
            st.jobs_ = jobs
            if how == "startup":
                st.config(jobs)
                reload_with(st, jobs)
                st.s = ip.instantiate(st.w.sched, [S("args")], {})
                return NONE
            rs = [st.run(j, "r" + n, schedule_time=app("tz", lin_add(NOW, st.param("late " + n, 0), -1), S("zone at that time")), respawn=TRUE) for j, n in zip(jobs, "jkl")]
            st.scheduler(st.config(jobs), scheduled_runs=rs)
            if how == "reload":
                reload_with(st, jobs)
                deliver(st, signal.SIGHUP)
                return NONE
            ip.ext_overrides["random.shuffle"] = lambda ip, a, k: NONE
            st.on_sleep = lambda e: None if e.args == [C(0)] else (_ for _ in ()).throw(Stop("wait"))
            return st.loop()

        def zone(q, how=how):
            if q.outcome == "exc":
                q.require(None, q.last_loc(), "path not followed")
                return
            if not q.st.next_calls:
                q.require(None, q.last_loc(), "no next time is asked for")
            for args, kw, l in q.st.next_calls:
                nm = args[1] if len(args) > 1 else kw.get("job_name")
                t = args[2] if len(args) > 2 else kw.get("start_time")
                want = {S("job j"): S("tz j"), S("job k"): S("tz k"), S("job l"): C("local")}.get(nm)
                if want is None or t is None or t[0] == "top":
                    q.require(None, l, "the next time is not understood")
                    continue
                if t[:2] == ("app", "tz"):
                    ok = t[3] == want and (eq3(q, t[2], NOW))
                else:
                    # a time of the local timezone, or none
                    ok = False if t[:2] == ("app", "withtz") or want != C("local") else None
                q.require(ok, l, "the next time of a schedule is one in the timezone of its job")
        rule.scenario("{}, timezones".format(how), build3, zone)


def check_next_call(q, args, kw, loc, schedule, name):
    a = dict(enumerate(args))
    s = a.get(0, kw.get("schedule"))
    n = a.get(1, kw.get("job_name"))
    t = a.get(2, kw.get("start_time"))
    q.require(s == schedule, loc, "the next time is not computed from the job's schedule")
    q.require(n == name, loc, "the next time is not computed for the job's name")
    q.require(None if t is None else eq3(q, t, NOW), loc, "the next time is not computed from the current time on")


# -- S06: shutdown ------------------------------------------------------------


def S06(rule):
    for sig in (signal.SIGTERM, signal.SIGINT):
        for when in ("before", "again", "reload"):
            def build(st, sig=sig, when=when):
                files = {"n": 0}
                no_files(st, TRUE)
                next_time(st)
                trigger_json(st, st.ip.new_dict())
                j, k = st.job("j", schedule=S("schedule"), concurrent_runs=TRUE), st.job("k", concurrent_runs=TRUE)
                st.ip.facts[("truthy", S("schedule"))] = True
                a = st.running(k, "a", age=st.param("age_a", 0))
                st.a = a
                r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1), respawn=TRUE)
                st.scheduler(st.config([j, k]), running_runs=[a], scheduled_runs=[r1])
                deliver(st, sig)
                if when == "again":
                    deliver(st, sig)
                if when == "reload":
                    reload_with(st, [st.job("j", schedule=S("schedule")), st.job("n", schedule=S("schedule"))])
                    deliver(st, signal.SIGHUP)
                return st.loop()

            def quiet(q):
                ss = q.starts()
                q.require(not ss, ss[0].loc if ss else q.last_loc(), "a run is started during shutdown")
                rm = q.evs("os.remove", "os.unlink", "os.rename", "os.replace", ".unlink")
                q.require(not rm, rm[0].loc if rm else q.last_loc(), "a trigger is consumed during shutdown")
                q.require(q.outcome != "ret", q.last_loc(), "the scheduler ends while a run is running")
                ks = q.evs("os.kill")
                q.require(not ks, ks[0].loc if ks else q.last_loc(), "a run is killed at shutdown although that is not configured")
            rule.scenario("{} ({}), a run is running".format(sig.name, when), build, quiet)

        def build2(st, sig=sig):
            no_files(st)
            next_time(st)
            j = st.job("j", schedule=S("schedule"))
            st.ip.facts[("truthy", S("schedule"))] = True
            r1 = st.run(j, "r1", schedule_time=S("t"), respawn=TRUE)
            st.ip.kinds[S("t")] = "datetime"
            st.scheduler(st.config([j]), scheduled_runs=[r1])
            deliver(st, sig)
            return st.loop()

        def ends(q):
            ss = q.starts()
            q.require(not ss, ss[0].loc if ss else q.last_loc(), "a run is started during shutdown")
            q.require(q.outcome == "ret" or (q.outcome == "stop" and q.val == "exit"), q.last_loc(), "the scheduler does not end although nothing is running")
        rule.scenario("{}, nothing running".format(sig.name), build2, ends)

        # the last run ends: recorded, then the scheduler ends
        def build3(st, sig=sig):
            no_files(st)
            next_time(st)
            j = st.job("j", schedule=S("schedule"))
            st.ip.facts[("truthy", S("schedule"))] = True
            r0 = st.running(j, "r0", age=st.param("age", 0), respawn=TRUE)
            st.scheduler(st.config([j]), running_runs=[r0])
            deliver(st, sig)
            n = [0]

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                return ("tuple", (S("pid r0"), C(0), S("rusage")))
            st.on_wait = wait
            st.on_sleep = lambda e: None
            return st.loop()

        def last(q):
            q.require(q.outcome == "ret" or (q.outcome == "stop" and q.val == "exit"), q.last_loc(), "the scheduler does not end when its last run has ended")
            q.require(len(inserts(q, "runs")) == 1 or (None if unknown_sql(q) else False), q.last_loc(), "a run which ends during shutdown is not recorded")
        rule.scenario("{}, the last run ends".format(sig.name), build3, last)

        # killing, if configured
        for sent in (FALSE, TRUE):
            def build4(st, sig=sig, sent=sent):
                no_files(st)
                j = st.job("j")
                k = st.job("k")
                st.limited(k)
                r0 = st.running(j, "r0", age=st.param("age", 0), term_sent=sent)
                a = st.running(k, "a", age=st.param("age_a", 0), term_sent=FALSE)
                st.scheduler(st.config([j, k], shutdown_kill_runs=TRUE), running_runs=[r0, a])
                deliver(st, sig)
                n = len(st.ip.events)
                deliver(st, sig)
                return NONE

            def killed(q, sent=sent):
                ks = q.evs("os.kill")
                want = ([] if sent == TRUE else [S("pid r0")]) + [S("pid a")]
                for p in want:
                    m = [e for e in ks if e.args[0] == p]
                    q.require(len(m) == 1, m[-1].loc if m else q.last_loc(), "with shutdown_kill_runs a running run does not get exactly one SIGTERM")
                for e in ks:
                    q.require(e.args[0] in want, e.loc, "a process other than a running run is signalled, or one for the second time")
                    q.require(e.args[1] == C(int(signal.SIGTERM)), e.loc, "a run gets another signal than SIGTERM at shutdown")
            rule.scenario("{} with shutdown_kill_runs, {}".format(sig.name, "one had a SIGTERM" if sent == TRUE else "no SIGTERM so far"), build4, killed)

    # SIGKILL after the grace time
    for past, grace, sent, kill in (
        (True, True, FALSE, TRUE), (False, True, FALSE, TRUE), (True, False, FALSE, TRUE),
        (True, True, TRUE, TRUE), (True, True, FALSE, FALSE), (True, 0, FALSE, TRUE),
    ):
        def build5(st, past=past, grace=grace, sent=sent, kill=kill):
            no_files(st)
            j, k = st.job("j"), st.job("k")
            # zero is a grace time, too
            g = st.param("grace", 0, 0) if type(grace) is int else st.param("grace", 1, None)
            st.ip.kinds[g] = "timedelta"
            st.ip.facts[("truthy", g)] = type(grace) is not int
            r0 = st.running(j, "r0", age=st.param("age", 0), kill_sent=sent)
            a = st.running(k, "a", age=st.param("age_a", 0), kill_sent=FALSE)
            st.scheduler(st.config([j, k], shutdown_kill_runs=kill, shutdown_kill_grace=NONE if grace is False else g), running_runs=[r0, a])
            deliver(st, signal.SIGTERM)
            del st.ip.events[:]
            x = st.param("x", 0, None, lo_open=True)
            if past:
                st.ip.now = make_lin(0, {NOW: 1, g: 1, x: 1})
            else:
                st.ip.now = make_lin(0, {NOW: 1, x: 1})
                st.ip.assume_cmp("<", x, g)
            return st.loop()

        def graceful(q, past=past, grace=grace, sent=sent, kill=kill):
            q.require(q.outcome != "ret", q.last_loc(), "the scheduler ends while runs are running")
            ks = q.evs("os.kill")
            want = []
            if past and grace is not False and kill == TRUE:
                want = ([] if sent == TRUE else [S("pid r0")]) + [S("pid a")]
            for p in want:
                m = [e for e in ks if e.args[0] == p]
                q.require(len(m) == 1, m[-1].loc if m else q.last_loc(), "after shutdown_kill_grace a run does not get exactly one SIGKILL")
            for e in ks:
                q.require(e.args[0] in want, e.loc, "a process is killed at shutdown which should not be")
                q.require(e.args[1] == C(int(signal.SIGKILL)), e.loc, "a run gets another signal than SIGKILL after the grace time")
            if not past and grace and kill == TRUE and q.outcome == "stop":
                nw = q.field("next_wakeup")
                if nw is not None:
                    q.require(q.cmp("<=", nw, make_lin(0, {NOW: 1, S("grace"): 1})), q.last_loc(), "the scheduler does not wake up for the end of the grace time")
        rule.scenario("shutdown {} the grace time{}{}{}".format("after" if past else "within", ", none configured" if grace is False else "" if grace else " of 0", ", one had a SIGKILL" if sent == TRUE else "", "" if kill == TRUE else ", shutdown_kill_runs off"), build5, graceful)


def trigger_json(st, data):
    """A trigger file with this content exists."""
    st.ip.ext_overrides["json.load"] = lambda ip, a, k: data
    st.ip.ext_overrides["json.loads"] = lambda ip, a, k: data
    st.ip.ext_overrides["os.path.getmtime"] = lambda ip, a, k: S("mtime")
    st.ip.kinds[S("mtime")] = "float"


# -- S07: execution time ------------------------------------------------------


def S07(rule):
    cases = []
    for zone in ("within", "over", "past"):
        for term in (FALSE, TRUE):
            for kil in (FALSE, TRUE):
                if zone == "within" and (term == TRUE or kil == TRUE):
                    continue
                if zone == "over" and kil == TRUE:
                    continue
                cases.append((zone, term, kil))
    for zone, term, kil in cases:
        for shut in (False, True):
            def build(st, zone=zone, term=term, kil=kil, shut=shut):
                no_files(st)
                m = st.param("max", 1, None)
                g = st.param("grace", 1, None)
                e = st.param("e", 0, None, lo_open=True)
                for x in (m, g):
                    st.ip.kinds[x] = "timedelta"
                    st.ip.facts[("truthy", x)] = True
                j, k = st.job("j", max_execution=m, max_execution_grace=g), st.job("k")
                if zone == "within":
                    age = e
                    st.ip.assume_cmp("<", e, m)
                elif zone == "over":
                    age = lin_add(m, e)
                    st.ip.assume_cmp("<", e, g)
                else:
                    age = make_lin(0, {m: 1, g: 1, e: 1})
                r0 = st.running(j, "r0", age=age, term_sent=term, kill_sent=kil)
                a = st.running(k, "a", age=st.param("age_a", 0))
                b = st.running(k, "b", age=st.param("age_b", 0))
                st.r0 = r0
                st.scheduler(st.config([j, k]), running_runs=[a, r0, b])
                if shut:
                    deliver(st, signal.SIGTERM)
                return st.loop()

            def signalled(q, zone=zone, term=term, kil=kil):
                ks = q.evs("os.kill")
                want = None
                if zone == "over" and term == FALSE:
                    want = signal.SIGTERM
                if zone == "past" and kil == FALSE:
                    want = signal.SIGKILL
                q.require(q.outcome != "exc", q.last_loc(), "enforcing the execution time fails") if q.outcome == "exc" and not q.p.taint else None
                for e in ks:
                    q.require(e.args[0] == S("pid r0"), e.loc, "a process is signalled whose execution time is not exceeded")
                    q.require(want is not None, e.loc, "a run is signalled which {}".format("has not exceeded its execution time" if zone == "within" else "had this signal before"))
                    if want is not None:
                        q.require(e.args[1] == C(int(want)), e.loc, "a run which exceeded its execution time gets another signal than {}".format(want.name))
                if want is not None:
                    mine = [e for e in ks if e.args[0] == S("pid r0")]
                    q.require(len(mine) == 1, mine[-1].loc if mine else q.last_loc(), "a run which exceeded its execution time does not get {} exactly once".format(want.name))
                    o = q.attr(q.st.r0, "term_sent" if want == signal.SIGTERM else "kill_sent")
                nw = q.field("next_wakeup")
                if nw is not None and q.outcome == "stop":
                    if zone == "within":
                        lim = make_lin(0, {NOW: 1, S("max"): 1, S("e"): -1})
                        q.require(q.cmp("<=", nw, lim), q.last_loc(), "the scheduler does not wake up when a run's execution time is over")
                    if zone == "over":
                        # of the SIGTERM, or of the execution time if that was before
                        lim = make_lin(0, {NOW: 1, S("grace"): 1, S("e"): -1 if term == TRUE else 0})
                        q.require(q.cmp("<=", nw, lim), q.last_loc(), "the scheduler does not wake up when a run's grace time is over")
                q.require(q.in_list(q.field("running_runs"), q.st.r0), q.last_loc(), "a run is forgotten because it exceeded its execution time")
            rule.scenario("{} its execution time, SIGTERM {}, SIGKILL {}{}".format(
                {"within": "within", "over": "over", "past": "over, and the grace time is over since,"}[zone],
                "sent" if term == TRUE else "not sent", "sent" if kil == TRUE else "not sent", ", shutdown" if shut else ""), build, signalled)

    # the next turn does not send it again
    for zone, shut in (("over", False), ("past", False), ("over", True), ("past", True)):
        def build2(st, zone=zone, shut=shut):
            no_files(st)
            m, g = st.param("max", 1, None), st.param("grace", 200, None)
            e = st.param("e", 0, 50, lo_open=True)
            for x in (m, g):
                st.ip.kinds[x] = "timedelta"
                st.ip.facts[("truthy", x)] = True
            j = st.job("j", max_execution=m, max_execution_grace=g)
            age = lin_add(m, e) if zone == "over" else make_lin(0, {m: 1, g: 1, e: 1})
            r0 = st.running(j, "r0", age=age, **{"term_sent" if zone == "over" else "kill_sent": FALSE})
            st.scheduler(st.config([j]), running_runs=[r0])
            if shut:
                deliver(st, signal.SIGTERM)
            n = [0]

            def wait(ev):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                st.ip.now = lin_add(NOW, C(61))
                return ("tuple", (C(0), C(0), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def once(q, zone=zone):
            ks = q.evs("os.kill")
            q.require(len(ks) == 1, ks[-1].loc if ks else q.last_loc(), "a signal is sent again on the next turn")
        rule.scenario("two turns {}{}".format(zone, ", shutdown" if shut else ""), build2, once)

    # no limit
    def build3(st):
        no_files(st)
        j = st.job("j", max_execution=NONE)
        r0 = st.running(j, "r0", age=st.param("age", 0))
        st.scheduler(st.config([j]), running_runs=[r0])
        return st.loop()

    def none(q):
        ks = q.evs("os.kill")
        q.require(not ks, ks[0].loc if ks else q.last_loc(), "a run without max_execution is signalled")
    rule.scenario("no max_execution", build3, none)

    # a run which ended is not signalled any more
    def build4(st):
        no_files(st)
        m, g = st.param("max", 1, None), st.param("grace", 1, None)
        for x in (m, g):
            st.ip.kinds[x] = "timedelta"
            st.ip.facts[("truthy", x)] = True
        j, k = st.job("j", max_execution=m, max_execution_grace=g), st.job("k")
        r0 = st.running(j, "r0", age=C(0))
        a = st.running(k, "a", age=C(0))
        st.scheduler(st.config([j, k]), running_runs=[r0, a])
        n = [0]

        def wait(ev):
            n[0] += 1
            if n[0] > 1:
                raise Stop("wait")
            st.ip.now = make_lin(1000, {NOW: 1, m: 1, g: 1})
            return ("tuple", (S("pid r0"), C(0), S("rusage")))
        st.on_wait = wait
        return st.loop()

    def gone(q):
        ks = q.evs("os.kill")
        q.require(not ks, ks[0].loc if ks else q.last_loc(), "a process is signalled which was reaped: its pid may belong to another process")
    rule.scenario("a run ended, its limit passes", build4, gone)

    # a start clears what was sent to nobody
    def build5(st):
        no_files(st)
        next_time(st)
        m = st.param("max", 1, None)
        st.ip.kinds[m] = "timedelta"
        st.ip.facts[("truthy", m)] = True
        j = st.job("j", max_execution=m)
        st.r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
        st.scheduler(st.config([j]), scheduled_runs=[st.r1])
        return st.loop()

    def fresh(q):
        if q.outcome == "exc":
            q.require(None, q.last_loc(), "path ends in an exception")
            return
        ks = q.evs("os.kill")
        q.require(not ks, ks[0].loc if ks else q.last_loc(), "a run is signalled when it starts")
    rule.scenario("a run with a limit starts", build5, fresh)


    # on the clock, from the start on
    def build6(st):
        no_files(st)
        next_time(st, later=1000)
        j = st.job("j", max_execution=C(0.3), max_execution_grace=C(0.2))
        k = st.job("k")
        for x in (C(0.3), C(0.2)):
            st.ip.kinds[x] = "timedelta"
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1))
        r2 = st.run(k, "r2", schedule_time=lin_add(NOW, st.param("late2", 0), -1))
        st.r1, st.r2 = r1, r2
        st.scheduler(st.config([j, k]), scheduled_runs=[r1, r2])
        Clock(st, C(8))
        return st.loop()

    def in_time(q):
        if q.outcome == "exc":
            return
        q.require(q.val not in ("spins", "blocked"), q.last_loc(), "the scheduler {} while a run with a limit is running".format("spins" if q.val == "spins" else "cannot do anything"))
        if q.val != "time is over":
            return
        st0 = q.attr(q.st.r1, "start_time")
        for sig, t in ((signal.SIGTERM, 0.3), (signal.SIGKILL, 0.5)):
            ks = [e for e in q.evs("os.kill", "os.killpg") if e.args[1:] == [C(int(sig))]]
            q.require(len(ks) == 1, ks[-1].loc if ks else q.last_loc(), "a run which exceeds its execution time does not get {} exactly once in time".format(sig.name))
            for e in ks:
                q.require(e.args[0] == q.attr(q.st.r1, "pid"), e.loc, "another process than that of the run is signalled")
                lim = lin_add(st0, C(t))
                q.require(q.cmp(">=", e.now, lim), e.loc, "{} is sent before the run's limit".format(sig.name))
                q.require(q.cmp("<=", e.now, lin_add(lim, C(2))), e.loc, "{} is sent late".format(sig.name))
    rule.scenario("on the clock: a run goes on after its limit", build6, in_time, WHILE_CAP=5000, MAX_STEPS=2000000)


# -- S08: signals -------------------------------------------------------------


def mask_steps(events, mask=frozenset()):
    """(event, blocked signals before it)"""
    for e in events:
        yield e, mask
        if e.name == "signal.pthread_sigmask" and len(e.args) == 2:
            how, sigs = e.args
            ss = None
            if sigs[0] == "tuple":
                ss = {x[2] for x in sigs[1] if is_const(x)}
            h = how[1] if how[0] == "ext" else None
            if h == "signal.SIG_BLOCK" and ss is not None:
                mask = mask | ss
            elif h == "signal.SIG_UNBLOCK" and ss is not None:
                mask = mask - ss
            elif h == "signal.SIG_SETMASK" and ss is not None:
                mask = frozenset(ss)
            else:
                mask = None
                return


def sigset(ip, v):
    """make sets and lists of signals tuples (before the path's heap changes)"""
    o = ip.deref(v)
    if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
        return ("tuple", tuple(s[1] for s in o.segs))
    return v


SAFE = {"time.sleep", "signal.pthread_sigmask", "exit", "enter", "exit!", "raise!", "caught", "print", "raise"} | WAITS


def S08(rule):
    def norm(st):
        """the calls with their signals as tuples; what they return is the mask before"""
        ip = st.ip
        st.mask = None

        def sigmask(ip, a, k):
            e = [a[0], sigset(ip, a[1])]
            ip.emit("signal.pthread_sigmask", e)
            old = st.mask
            if old is not None:
                class E:
                    name, args = "signal.pthread_sigmask", e
                st.mask = final_mask([E], old)
            return S("oldmask") if old is None else ("tuple", tuple(C(int(x)) for x in sorted(old)))
        ip.ext_overrides["signal.pthread_sigmask"] = sigmask

    def check(q):
        init = getattr(q.st, "init_events", [])
        handled = {e.args[0][2] for e in init if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0])}
        mask = frozenset()
        for e, m in mask_steps(init):
            mask = m
        # the state after the last event
        for e, m in mask_steps(init + [None] if False else init):
            pass
        mask = final_mask(init)
        if mask is None:
            q.require(None, q.last_loc(), "signal mask unknown")
            return
        q.require(handled <= mask, init[-1].loc if init else "?", "signals are handled in between the scheduler's steps: they are not blocked from the start")
        for e, m in mask_steps(q.events, mask):
            if m is None:
                break
            if e.name in SAFE or e.name.startswith("list.") and False:
                continue
            if e.name == "setattr" or e.name.startswith("list.") or e.name.startswith("dict."):
                pass
            if not handled <= m:
                q.require(False, e.loc, "a signal handler may run here, in the middle of a step ({})".format(e.name))
                return
        q.require(True, "?", "")

    def b1(st):
        norm(st)
        no_files(st)
        next_time(st)
        m = st.param("max", 1, None)
        st.ip.kinds[m] = "timedelta"
        st.ip.facts[("truthy", m)] = True
        st.ip.facts[("truthy", S("schedule"))] = True
        j, k = st.job("j", schedule=S("schedule"), concurrent_runs=TRUE), st.job("k", max_execution=m)
        a = st.running(k, "a", age=st.param("age_a", 0))
        r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("late", 0), -1), respawn=TRUE)
        st.scheduler(st.config([j, k]), running_runs=[a], scheduled_runs=[r1])
        return st.loop()
    rule.scenario("starting and killing", b1, check)

    def b2(st):
        norm(st)
        no_files(st)
        j, k = st.job("j"), st.job("k")
        r0 = st.running(j, "r0", age=st.param("age", 0))
        st.scheduler(st.config([j, k]), running_runs=[r0])
        n = [0]

        def wait(e):
            n[0] += 1
            if n[0] == 1:
                return ("tuple", (C(0), C(0), S("rusage")))
            if n[0] == 2:
                return ("tuple", (S("pid r0"), C(0), S("rusage")))
            raise Stop("wait")
        st.on_wait = wait
        z = [0]

        def sleep(e):
            z[0] += 1
            if z[0] > 4:
                raise Stop("wait")
        st.on_sleep = sleep
        return st.loop()
    rule.scenario("waiting and reaping", b2, check)

    def b3(st):
        norm(st)
        no_files(st, TRUE)
        trigger_json(st, st.ip.new_dict())
        j = st.job("j")
        st.ip.assume_cmp(">", S("mtime"), NOW)
        st.scheduler(st.config([j]))
        z = [0]

        def sleep(e):
            z[0] += 1
            if z[0] > 3:
                raise Stop("wait")
        st.on_sleep = sleep
        return st.loop()
    rule.scenario("triggers", b3, check)

    # and they do get handled: a wait never has them blocked
    def b4(st):
        norm(st)
        no_files(st)
        j = st.job("j")
        st.scheduler(st.config([j]))
        return st.loop()

    def handled(q):
        init = q.st.init_events
        h = {e.args[0][2] for e in init if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0])}
        q.require({1, 2, 15, 3, 10} <= h, q.last_loc(), "a documented signal is not handled")
        mask = final_mask(init)
        if mask is None:
            q.require(None, q.last_loc(), "signal mask unknown")
            return
        ok = None
        for e, m in mask_steps(q.events, mask):
            if m is None:
                break
            if e.name == "time.sleep" and e.args != [C(0)] or e.name in WAITS and e.name.startswith("os.wait") and (len(e.args) < 2 or e.args[-1] == C(0)):
                ok = ok is not False and not (h & m)
                if not ok:
                    q.require(False, e.loc, "signals stay blocked while the scheduler waits")
                    return
        if q.outcome != "exc":
            q.require(ok, q.last_loc(), "signals stay blocked while the scheduler waits")
    rule.scenario("idle", b4, handled)

    def b5(st):
        norm(st)
        no_files(st)
        j = st.job("j")
        st.scheduler(st.config([j]), running_runs=[st.running(j, "r0", age=st.param("age", 0))])
        n = [0]

        def wait(e):
            n[0] += 1
            if n[0] > 3:
                raise Stop("wait")
            return ("tuple", (C(0), C(0), S("rusage")))
        st.on_wait = wait
        return st.loop()
    rule.scenario("idle, a run is running", b5, handled)

    # a signal comes at the n-th place where signals may be handled
    for sig in (signal.SIGHUP, signal.SIGTERM):
        for at in range(4):
            def b7(st, sig=sig, at=at):
                ip = st.ip
                norm(st)
                no_files(st)
                next_time(st, later=1000)
                ip.facts[("truthy", S("schedule"))] = True
                g = st.group("g", max=C(1))

                def jobs():
                    j, k, l = st.job("j", schedule=S("schedule"), concurrent_runs=TRUE), st.job("k", schedule=S("schedule")), st.job("l")
                    return [j, k, l]
                js = jobs()
                r0 = st.running(js[2], "r0", age=C(100), concurrency_group=g)
                x = [st.run(js[n], "x%d" % n, schedule_time=lin_add(NOW, C(-5 + n)), respawn=TRUE) for n in (0, 1)]
                st.scheduler(st.config(js, [g]), running_runs=[r0], scheduled_runs=x)
                set_groups(st, (g, ip.new_list([r0])))
                st.mask = final_mask(st.init_events)
                h = {e.args[0][2] for e in st.init_events if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0])}
                n, w = [0], [0]
                st.came = None
                g2 = st.group("g", max=C(1))
                reload_with(st, jobs(), [g2])

                def come():
                    if st.mask is None or int(sig) in st.mask or st.came is not None:
                        return
                    if n[0] == at:
                        st.came = len(ip.events)
                        deliver(st, sig)
                    n[0] += 1

                z = [0]

                def sleep(e):
                    come()
                    z[0] += 1
                    if z[0] > 20:
                        raise Stop("wait")
                    if e.args != [C(0)]:
                        ip.now = lin_add(ip.now, e.args[0])
                st.on_sleep = sleep

                def wait(e):
                    come()
                    w[0] += 1
                    if w[0] == 2:
                        return ("tuple", (S("pid r0"), C(0), S("rusage")))
                    if w[0] > 5:
                        raise Stop("wait")
                    return ("tuple", (C(0), C(0), S("rusage")))
                st.on_wait = wait
                ip.data.setdefault("distinct", set()).add(S("pid r0"))
                return st.loop()

            def fine(q, sig=sig):
                st = q.st
                if q.outcome == "exc":
                    q.require(None if q.p.taint else False, q.last_loc(), "the scheduler ends with an error when {} comes at a time at which it is not blocked".format(sig.name))
                    return
                if st.came is None:
                    q.require(True, q.last_loc(), "")
                    return
                late = [e for e in q.starts() if e.n >= st.came]
                if sig == signal.SIGTERM:
                    q.require(not late, late[0].loc if late else q.last_loc(), "a run is started after SIGTERM, which was handled in the middle of a step")
                    return
                started = [e.res for e in q.starts()]
                ms, more = q.members(q.field("scheduled_runs"))
                if ms is None:
                    q.require(None, q.last_loc(), "queue unknown")
                    return
                names = [q.attr(q.attr(m, "job"), "name") for m in ms]
                for nm in ("job j", "job k"):
                    q.require(names.count(S(nm)) == 1, q.last_loc(), "a job does not have exactly one queued run when SIGHUP comes at a time at which it is not blocked")
            rule.scenario("{} comes at place {} where signals are handled".format(sig.name, at + 1), b7, fine, WHILE_CAP=30, MAX_STEPS=500000)

    # a signal waits until another one is handled
    for sig in (signal.SIGHUP, signal.SIGTERM, signal.SIGINT, signal.SIGQUIT, signal.SIGUSR1):
        def b6(st, sig=sig):
            norm(st)
            no_files(st)
            next_time(st)
            j, k = st.job("j", schedule=S("schedule")), st.job("k")
            st.ip.facts[("truthy", S("schedule"))] = True
            r0 = st.running(k, "r0", age=st.param("age", 0))
            r1 = st.run(j, "r1", schedule_time=lin_add(NOW, st.param("ahead", 0, None, lo_open=True)))
            st.scheduler(st.config([j, k], shutdown_kill_runs=TRUE), running_runs=[r0], scheduled_runs=[r1])
            reload_with(st, [j])
            st.mask = frozenset()
            st.n0 = len(st.ip.events)
            deliver(st, sig)
            return NONE

        def alone(q, sig=sig):
            h = {e.args[0][2] for e in q.st.init_events if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0])}
            for e, m in mask_steps(q.events[q.st.n0:]):
                if m is None:
                    q.require(None, e.loc, "signal mask unknown")
                    return
                if e.name in ("load_config", "next_schedule_time", "os.kill", ".execute") or e.name.startswith("list.") or (
                        e.name == "setattr" and e.args[1] in [C(x) for x in ("config", "jobs", "scheduled_runs", "running_runs", "running_groups", "shutdown")]):
                    q.require(h <= m, e.loc, "a signal is handled in the middle of the handling of {}".format(sig.name))
                    if not h <= m:
                        return
            end = final_mask(q.events[q.st.n0:])
            if q.outcome == "ret":
                q.require(None if end is None else not end & h, q.last_loc(), "signals stay blocked after {} was handled".format(sig.name))
        rule.scenario("handling of {}".format(sig.name), b6, alone)


def final_mask(events, mask=frozenset()):
    class End:
        name, args = "end", []
    n = 0
    for e, m in mask_steps(list(events) + [End], mask):
        n += 1
        mask = m
    if n != len(events) + 1:
        return None
    return mask


# -- S12: exit codes ------------------------------------------------------------


def S12(rule):
    cases = [
        ("exited", lambda st: lin_scale(st.param("c", 0, 255), 256), S("c")),
        ("signalled", lambda st: st.param("s", 1, 64), lin_add(S("s"), C(128))),
        ("signalled, core dumped", lambda st: lin_add(st.param("s", 1, 64), C(128)), lin_add(S("s"), C(128))),
    ]
    # constants of each part of the status, in case bits are taken from it in
    # a way which the symbolic form does not follow
    for c in (0, 1, 2, 63, 64, 126, 127, 128, 129, 137, 143, 192, 254, 255):
        cases.append(("exited with status {}".format(c), lambda st, c=c: C(c * 256), C(c)))
    for n in (1, 2, 6, 9, 11, 15, 31, 32, 63, 64):
        cases.append(("was ended by signal {}".format(n), lambda st, n=n: C(n), C(n + 128)))
        cases.append(("was ended by signal {}, core dumped".format(n), lambda st, n=n: C(n + 128), C(n + 128)))
    for name, mk, want in cases:
        def build(st, mk=mk):
            no_files(st)
            j = st.job("j")
            r0 = st.running(j, "r0", age=st.param("age", 0))
            st.r0 = r0
            st.scheduler(st.config([j]), running_runs=[r0])
            v = mk(st)
            for a in lin_parts(v)[1]:
                st.ip.kinds[a] = "int"
            n = [0]

            def wait(e):
                n[0] += 1
                if n[0] > 1:
                    raise Stop("wait")
                if e.name in ("os.waitpid", "os.wait"):
                    return ("tuple", (S("pid r0"), v))
                return ("tuple", (S("pid r0"), v, S("rusage")))
            st.on_wait = wait
            return st.loop()

        def code(q, want=want, name=name):
            ins = inserts(q, "runs")
            for x, vals in ins:
                if vals is None:
                    q.require(None, x.loc, "parameters unknown")
                    continue
                got = vals.get("exit_code")
                ok = None if got is None or got[0] in ("top", "app", "res") else got == want
                q.require(ok, x.loc, "the exit code recorded for a process that {} is {}, not {}".format(name, show(got) if got else "none", show(want)))
            if not ins:
                q.require(None, q.last_loc(), "no record")
        rule.scenario("a process that " + name, build, code)


RULES = {"S01": S01, "S02": S02, "S03": S03, "S04": S04, "S05": S05, "S06": S06, "S07": S07, "S08": S08, "S12": S12}
