"""Rules over triggers and return data."""
import signal

from .core import *  # noqa: F401,F403
from .core import EXECS
from .fsmodel import Files, text, path
from .interp import Stop
from .scenario import NOW, Anchor
from .r_sched import next_time, eq3, inserts, unknown_sql, no_files, deliver, reload_with

OPEN_ERR = ["FileNotFoundError", "PermissionError", "IsADirectoryError", "OSError"]
LOAD_ERR = ["ValueError", "UnicodeDecodeError", "RecursionError", "TypeError", "KeyError", "AttributeError"]


def tfile(st, job, ext="json"):
    return path(st, S("data_dir"), C("trigger"), S("job " + job), C("trigger." + ext))


def world(st, files, conc=FALSE, queued=True, sched=True, running=False, respawn=TRUE, jattrs=None, turns=1):
    """job j with the given trigger files, another job with a queued run"""
    next_time(st, later=300)
    ip = st.ip
    st.ip.facts[("truthy", S("schedule"))] = True
    j = st.job("j", concurrent_runs=conc, schedule=S("schedule") if sched else NONE, **(jattrs or {}))
    k = st.job("k", concurrent_runs=TRUE, schedule=S("schedule"))
    st.j, st.k = j, k
    st.fs = Files(st, files)
    st.rk = st.run(k, "rk", schedule_time=lin_add(NOW, st.param("ahead", 100, None)), respawn=TRUE)
    st.q1 = st.run(j, "q1", schedule_time=lin_add(NOW, st.param("ahead1", 100, None)), respawn=respawn)
    runs = [st.rk] + ([st.q1] if queued else [])
    rr = []
    if running:
        st.r0 = st.running(j, "r0", age=st.param("age", 0))
        rr.append(st.r0)
    st.scheduler(st.config([k, j]), scheduled_runs=runs, running_runs=rr)
    st.old = list(runs)
    return st


def future(st, v):
    """a trigger for later: it stays queued"""
    st.ip.assume_cmp(">", v, lin_add(NOW, C(200)))


def added(q):
    """runs of the path which the trigger created: queued or started"""
    ms, more = q.members(q.field("scheduled_runs"))
    rr, more2 = q.members(q.field("running_runs"))
    if ms is None or rr is None or more or more2:
        return None
    known = [q.st.rk, q.st.q1] + ([q.st.r0] if hasattr(q.st, "r0") else [])
    return [m for m in ms + rr if m not in known]


def T01(rule):
    # consumed, once
    for ext in ("json", "yaml", "both"):
        for when in ("future", "now"):
            def build(st, ext=ext, when=when):
                d = st.ip.new_dict([(C("a"), S("x"))])
                d2 = st.ip.new_dict([(C("b"), S("y"))])
                st.d, st.d2 = d, d2
                files = {}
                if ext in ("json", "both"):
                    files[tfile(st, "j")] = d
                if ext in ("yaml", "both"):
                    files[tfile(st, "j", "yaml")] = d2
                world(st, files, conc=FALSE)
                if when == "future":
                    future(st, S("mtime"))
                else:
                    st.ip.assume_cmp("<=", S("mtime"), NOW)
                n = [0]

                def turn(e):
                    n[0] += 1
                    if n[0] > 1 or ext == "both":
                        raise Stop("wait")
                    st.ip.now = lin_add(NOW, C(61))
                st.on_sleep = lambda e: None if e.args == [C(0)] else turn(e)

                def wait(e):
                    turn(e)
                    return ("tuple", (C(0), C(0), S("rusage")))
                st.on_wait = wait
                return st.loop()

            def once(q, ext=ext, when=when):
                if q.outcome == "exc":
                    q.require(None, q.last_loc(), "path ends in an exception")
                    return
                new = added(q)
                new = None if new is None else [m for m in new if q.attr(m, "trigger_type") == C("file")]
                loads = q.evs("load!")
                if not loads and ext == "yaml":
                    return  # without yaml
                loc = loads[0].loc if loads else q.last_loc()
                q.require(None if new is None else len(new) == 1, loc, "a trigger file does not lead to exactly one run")
                rm = [e for e in q.evs("os.remove", "os.rename")]
                q.require(len(rm) == 1, rm[-1].loc if rm else loc, "a trigger file is not removed exactly once")
                if rm:
                    want = tfile(q.st, "j", "yaml" if ext == "yaml" else "json")
                    q.require(text(rm[0].args[0]) == text(want), rm[0].loc, "another file than the trigger is removed")
                if new:
                    td = q.attr(new[0], "trigger_data")
                    src = q.st.d2 if ext == "yaml" else q.st.d
                    a, b = q.ip.deref(td), q.ip.deref(src)
                    ok = td == src or (a is not None and b is not None and a.kind == "dict" and [tuple(x) for x in a.entries] == [tuple(x) for x in b.entries])
                    q.require(ok, loc, "a run is not given the data of its trigger")
            rule.scenario("trigger file ({}), for {}".format(ext, when), build, once)

    # it cannot be removed, or not be read: no run
    for what, errs in (("os.remove", ["FileNotFoundError", "PermissionError", "OSError"]), ("open", OPEN_ERR)):
        def build2(st, what=what):
            world(st, {tfile(st, "j"): st.ip.new_dict()}, conc=TRUE)
            future(st, S("mtime"))
            st.on_wait = lambda e: ("tuple", (C(0), C(0), S("rusage")))
            return st.loop()

        def norun(q, what=what):
            if not q.ip.data.get("raised"):
                return
            new = added(q)
            loc = q.ip.data["raised"][0][2]
            q.require(None if new is None else not new, loc, "a run is queued although its trigger cannot be {}: it would be queued again and again".format("removed" if what == "os.remove" else "read"))
            q.require(q.outcome != "exc", loc, "the scheduler fails when a trigger cannot be {}".format("removed" if what == "os.remove" else "read"))
            if what == "open":
                rm = q.evs("os.remove", "os.rename")
                q.require(not rm, rm[0].loc if rm else loc, "a trigger which cannot be read is removed")
        rule.scenario("{} fails".format("removing the trigger" if what == "os.remove" else "opening the trigger"), build2, norun, raises={what: errs, "os.unlink": errs} if what == "os.remove" else {what: errs})

    # what cannot be understood is consumed, too: it would be tried again and
    # again, and its error reported each time
    def broken(q):
        r = q.ip.data.get("raised")
        if not r or q.outcome == "exc":
            return
        rm = q.evs("os.remove", "os.rename")
        q.require(len(rm) == 1, rm[-1].loc if rm else r[0][2], "a trigger whose content is not valid is not removed once")
        if rm:
            q.require(text(rm[0].args[0]) == text(tfile(q.st, "j")), rm[0].loc, "another file than the trigger is removed")

    def build6(st):
        world(st, {tfile(st, "j"): st.ip.new_dict()}, conc=TRUE)
        future(st, S("mtime"))
        return st.loop()
    rule.scenario("the content of a trigger is not valid", build6, broken, raises={"json.load": LOAD_ERR, "json.loads": LOAD_ERR})

    # nothing there
    def build3(st):
        world(st, {}, conc=TRUE)
        return st.loop()

    def none(q):
        new = added(q)
        q.require(None if new is None else not new, q.last_loc(), "a run is queued without a trigger")
        rm = q.evs("os.remove", "os.rename")
        q.require(not rm, rm[0].loc if rm else q.last_loc(), "a file is removed without a trigger")
        # every job is looked after
        seen = set(q.st.fs.queries)
        opened = {text(e.args[0]) for e in q.evs("open") if e.args}
        for j in ("j", "k"):
            q.require(text(tfile(q.st, j)) in seen | opened, q.last_loc(), "a job's trigger directory is not looked at")
    rule.scenario("no trigger", build3, none)

    # one per job
    def build4(st):
        world(st, {tfile(st, "j"): st.ip.new_dict(), tfile(st, "k"): st.ip.new_dict()}, conc=TRUE)
        future(st, S("mtime"))
        return st.loop()

    def each(q):
        new = added(q)
        if new is None:
            q.require(None, q.last_loc(), "queue unknown")
            return
        jobs = [q.attr(n, "job") for n in new]
        q.require(sorted(jobs) == sorted([q.st.j, q.st.k]), q.last_loc(), "the triggers of two jobs do not lead to a run of each")
    rule.scenario("triggers of two jobs", build4, each)

    # removed before it counts
    def build5(st):
        world(st, {tfile(st, "j"): st.ip.new_dict()}, conc=TRUE, queued=False)
        st.ip.assume_cmp("<=", S("mtime"), NOW)
        return st.loop()

    def order(q):
        for e in q.starts():
            rm = [x for x in q.events[: e.n] if x.name in ("os.remove", "os.rename")]
            q.require(bool(rm), e.loc, "a run is started while its trigger still exists: after a crash it would be started again")
    rule.scenario("trigger for now", build5, order)


# -- T02: content ---------------------------------------------------------------


def T02(rule):
    def invalid(name, data, raises=None, must=True, setup=None, ext="json"):
        def build(st):
            if setup:
                setup(st)
            files = {tfile(st, "j", ext): data(st.ip)}
            if must != "raised":
                files[tfile(st, "k")] = st.ip.new_dict()
            world(st, files, conc=TRUE)
            future(st, S("mtime"))
            return st.loop()

        def check(q):
            if q.outcome == "exc":
                q.require(False, q.last_loc(), "the scheduler fails because of the content of a trigger")
                return
            if must == "raised" and not q.ip.data.get("raised"):
                return
            new = added(q)
            if new is None:
                q.require(None, q.last_loc(), "queue unknown")
                return
            mine = [n for n in new if q.attr(n, "job") == q.st.j]
            if must:
                q.require(not mine, q.last_loc(), "a run is queued by an invalid trigger")
            q.require(all(q.in_list(q.field("scheduled_runs"), r) for r in q.st.old), q.last_loc(), "an invalid trigger drops queued runs")
            if must != "raised" and not q.ip.data.get("raised"):
                q.require(any(q.attr(n, "job") == q.st.k for n in new), q.last_loc(), "an invalid trigger of one job keeps another job's trigger from being read")
        rule.scenario("trigger: " + name, build, check, raises=raises or {})

    for name, v in (("null", NONE), ("a string", C("x")), ("a number", C(5)), ("true", TRUE)):
        invalid(name, lambda ip, v=v: v)
    invalid("a list", lambda ip: ip.new_list([C("a")]))

    def env(*pairs):
        return lambda ip: ip.new_dict([(C("environment"), ip.new_dict([(a(ip) if callable(a) else a, b(ip) if callable(b) else b) for a, b in pairs]))])
    for name, v in (("null", NONE), ("a string", C("A=b")), ("a number", C(1)), ("true", TRUE)):
        invalid("environment is " + name, lambda ip, v=v: ip.new_dict([(C("environment"), v)]))
    invalid("environment is a list", lambda ip: ip.new_dict([(C("environment"), ip.new_list([C("A=b")]))]))
    for name, p in (
        ("a value is a list", (C("A"), lambda ip: ip.new_list())), ("a value is null", (C("A"), NONE)),
        ("a value is a dict", (C("A"), lambda ip: ip.new_dict())), ("a name is a number", (C(1), C("x"))),
        ("a name is null", (NONE, C("x"))),
    ):
        invalid("environment: " + name, env((C("OK"), C("v")), p))
    # the value of the scheduled time
    for name, v in (("null", NONE), ("a list", None), ("a string", C("x"))):
        def data(ip, v=v):
            return ip.new_dict([(C("schedule_time"), v if v is not None else ip.new_list([C(1)]))])
        invalid("schedule_time is {}, not understood".format(name), data, raises={"dateutil.parser.parse": ["ValueError", "OverflowError", "TypeError"]}, must="raised")
    def noparse(st):
        def parse(ip, args, kw):
            if args and args[0] == TRUE:
                ip.throw("TypeError", "Parser must be a string")
            return app("parsed", *args)
        st.ip.ext_overrides["dateutil.parser.parse"] = parse
    invalid("schedule_time is true", lambda ip: ip.new_dict([(C("schedule_time"), TRUE)]), setup=noparse)
    invalid("schedule_time is a number, out of range", lambda ip: ip.new_dict([(C("schedule_time"), num(ip))]),
            raises={"datetime.datetime.fromtimestamp": range_err, "datetime.datetime.utcfromtimestamp": range_err}, must="raised")
    invalid("schedule_time is a number, not representable in the timezone", lambda ip: ip.new_dict([(C("schedule_time"), num(ip)), (C("schedule_timezone"), C("X"))]),
            raises={".astimezone": range_err}, must="raised")
    for name, v in (("null", NONE), ("a number", C(5)), ("a list", None), ("a string", C("X"))):
        def data(ip, v=v):
            return ip.new_dict([(C("schedule_time"), C("2020-01-01")), (C("schedule_timezone"), v if v is not None else ip.new_list([C(1)]))])
        invalid("schedule_timezone is {}, failing".format(name), data, raises={"dateutil.tz.gettz": ["TypeError", "AttributeError", "ValueError"], "dateutil.parser.parse": ["ValueError"]}, must="raised")

    def unknown_tz(st):
        st.ip.ext_overrides["dateutil.tz.gettz"] = lambda ip, a, k: NONE
        d = st.ip.new_dict([(C("schedule_timezone"), C("No/Such"))])
        world(st, {tfile(st, "j"): d}, conc=TRUE)
        future(st, S("mtime"))
        return st.loop()

    def notz(q):
        q.require(q.outcome != "exc", q.last_loc(), "the scheduler fails because of the content of a trigger")
        new = added(q)
        q.require(None if new is None else not new, q.last_loc(), "a run is queued by an invalid trigger")
    rule.scenario("schedule_timezone is unknown", unknown_tz, notz)

    # anything
    def sym(*keys):
        def data(ip):
            return ip.new_dict([(C(k), S("any " + k)) for k in keys])
        return data
    R = {"dateutil.parser.parse": ["ValueError", "TypeError"], "dateutil.tz.gettz": ["TypeError"]}
    invalid("any value", lambda ip: S("any"), must=False)
    invalid("any schedule_time", sym("schedule_time"), raises=R, must=False)
    invalid("any schedule_timezone", sym("schedule_timezone"), raises=R, must=False)
    invalid("any schedule_time and schedule_timezone", sym("schedule_time", "schedule_timezone"), raises=R, must=False)
    # reading
    for n in ("json.load", "json.loads"):
        invalid("{} fails".format(n), lambda ip: ip.new_dict(), raises={n: LOAD_ERR}, must="raised") if n == "json.load" else None
    BAD = S("a date")

    def undumpable(st):
        st.ip.facts[("types", BAD)] = frozenset({"datetime"})
        no_dumps(st, BAD)

    def not_a_number(st):
        st.ip.facts[("types", BAD)] = frozenset({"float"})
        st.ip.facts[("truthy", app("math.isnan", BAD))] = True
        no_dumps(st, BAD, nan=True)
    invalid("NaN, which not every database can record", lambda ip: ip.new_dict([(C("ok"), C(1)), (C("a"), ip.new_list([BAD]))]), setup=not_a_number)
    for where, wrap in (
        ("", lambda ip, v: v), (" in a mapping", lambda ip, v: ip.new_dict([(C("b"), v)])), (" in a list", lambda ip, v: ip.new_list([C(1), v])),
    ):
        for key in ("a", "trigger_type"):
            invalid("data which cannot be recorded{}: {}".format(where, key), lambda ip, wrap=wrap, key=key: ip.new_dict([(C("ok"), C(1)), (C(key), wrap(ip, BAD))]), setup=undumpable, ext="yaml")
    invalid("the file vanishes", lambda ip: ip.new_dict(), raises={"os.path.getmtime": ["FileNotFoundError", "PermissionError"]}, must="raised")

    # names and numbers as keys, which have no order
    def mixed(st):
        ip = st.ip
        next_time(st, later=300)
        d = ip.new_dict([(C(1), C("one")), (C("two"), ip.new_dict([(C("a"), C(1)), (C(2), C(3))]))])
        world(st, {tfile(st, "j", "yaml"): d}, conc=TRUE)
        ip.assume_cmp("<=", S("mtime"), NOW)
        return st.loop()

    def started(q):
        q.require(q.outcome != "exc", q.last_loc(), "the scheduler fails because of the keys in a trigger's data")
        if q.outcome != "exc" and q.evs("load!"):
            q.require(bool(q.starts()), q.last_loc(), "a trigger with names and numbers as keys leads to no run")
    rule.scenario("data with names and numbers as keys", mixed, started)

    # values are made strings
    def build(st):
        ip = st.ip
        e = ip.new_dict([(C("S"), S("a string")), (C("I"), C(5)), (C("F"), C(1.5))])
        ip.facts[("types", S("a string"))] = frozenset({"str"})
        ip.kinds[S("a string")] = "str"
        world(st, {tfile(st, "j"): ip.new_dict([(C("environment"), e)])}, conc=TRUE)
        future(st, S("mtime"))
        return st.loop()

    def strs(q):
        new = added(q)
        if new is None:
            q.require(None, q.last_loc(), "queue unknown")
            return
        q.require(len(new) == 1, q.last_loc(), "a valid trigger with environment variables leads to no run")
        for n in new:
            td = q.ip.deref(q.attr(n, "trigger_data"))
            e = q.ip.deref(dict((k, v) for k, v in td.entries).get(C("environment"), NONE)) if td is not None else None
            if e is None or e.kind != "dict":
                q.require(False, q.last_loc(), "a trigger's environment variables are lost")
                continue
            got = dict((k, v) for k, v in e.entries)
            for k, w in (("S", S("a string")), ("I", C("5")), ("F", C("1.5"))):
                v = got.get(C(k))
                q.require(v is not None and text(v) == w, q.last_loc(), "a trigger's environment variable has another value")
                q.require(v is not None and not (is_const(v) and not isinstance(v[2], str)), q.last_loc(), "a trigger's environment variable is not a string: its run cannot start")
    rule.scenario("environment with strings and numbers", build, strs)


def no_dumps(st, bad, nan=False):
    """json.dumps fails for what contains this value (if it is NaN, only if
    that is asked for)"""
    def has(ip, v):
        if v == bad:
            return True
        if v[0] == "tuple":
            return any(has(ip, x) for x in v[1])
        o = ip.deref(v)
        if o is None:
            return v[0] == "app" and any(isinstance(x, tuple) and has(ip, x) for x in v[2:])
        if o.kind == "dict":
            return any(has(ip, x) for _, x in o.entries)
        return any(has(ip, x) for x in [g[1] for g in getattr(o, "segs", ()) if isinstance(g, tuple) and len(g) > 1 and isinstance(g[1], tuple)])

    def dumps(ip, a, k):
        if has(ip, a[0]) and (k.get("allow_nan") == FALSE if nan else not k.get("default")):
            ip.data.setdefault("raised", []).append(("json.dumps", "TypeError", ip.loc()))
            ip.throw("TypeError", "not serializable")
        return app("json.dumps", *a)
    st.ip.ext_overrides["json.dumps"] = dumps


def range_err(ip, args):
    return ["ValueError", "OverflowError", "OSError"] if args and mentions(args[0], S("n")) else []


def num(ip):
    v = S("n")
    ip.facts[("types", v)] = frozenset({"int", "float"})
    ip.kinds[v] = "float"
    return v


# -- T03: time --------------------------------------------------------------------


def T03(rule):
    def scenario(name, data, check):
        def build(st):
            st.ip.data["withtz"] = True
            world(st, {tfile(st, "j"): data(st)}, conc=TRUE)
            future(st, S("mtime"))
            return st.loop()

        def ck(q):
            if q.outcome == "exc":
                q.require(None, q.last_loc(), "path ends in an exception")
                return
            new = added(q)
            if new is None:
                q.require(None, q.last_loc(), "queue unknown")
                return
            check(q, new)
        rule.scenario(name, build, ck)

    def absent(q, new):
        q.require(len(new) == 1, q.last_loc(), "a trigger without schedule_time leads to no run")
        for n in new:
            q.require(eq3(q, q.attr(n, "schedule_time"), S("mtime")), q.last_loc(), "a trigger without schedule_time is not due from the time it was written")
    scenario("no schedule_time", lambda st: st.ip.new_dict(), absent)

    def number(q, new):
        q.require(len(new) == 1, q.last_loc(), "a trigger with a numeric schedule_time leads to no run")
        for n in new:
            t = q.attr(n, "schedule_time")
            q.require(None if t is None or t[0] == "top" else text(t) == S("n") or (t[0] == "app" and t[1] == "float" and t[2] == S("n")), q.last_loc(), "a numeric schedule_time is not taken as that epoch time")
    scenario("schedule_time is a number", lambda st: st.ip.new_dict([(C("schedule_time"), num(st.ip))]), number)

    for tz in (True, False):
        for aware in (True, False):
            def data(st, tz=tz, aware=aware):
                ip = st.ip
                v, t = S("iso"), S("parsed")
                ip.facts[("types", v)] = frozenset({"str"})
                ip.kinds[v] = "str"
                ip.kinds[t] = "lin"

                def parse(ip, args, kw):
                    return t if args and args[0] == v else app("parsed", *args)
                for n in ("dateutil.parser.parse", "dateutil.parser.isoparse", "datetime.datetime.fromisoformat"):
                    ip.ext_overrides[n] = parse
                for x in (app("attr", t, "tzinfo"), app(".utcoffset", t)):
                    ip.facts[("eq", x, NONE)] = not aware
                    ip.facts[("truthy", x)] = aware
                d = [(C("schedule_time"), v)]
                if tz:
                    z = S("zone")
                    ip.facts[("types", z)] = frozenset({"str"})
                    ip.kinds[z] = "str"
                    ip.facts[("eq", app("dateutil.tz.gettz", z), NONE)] = False
                    d.append((C("schedule_timezone"), z))
                return ip.new_dict(d)

            def parsed(q, new, tz=tz, aware=aware):
                loc = q.last_loc()
                q.require(len(new) == 1, loc, "a trigger with a schedule_time leads to no run")
                for n in new:
                    t = q.attr(n, "schedule_time")
                    if t is None or t[0] == "top":
                        q.require(None, loc, "time unknown")
                        continue
                    q.require(mentions(t, S("parsed")), loc, "a run is not scheduled for its trigger's schedule_time")
                    if aware:
                        q.require(t == S("parsed") or (False if t[0] == "app" and t[1] == "withtz" else None), loc, "a schedule_time with an offset loses it")
                        continue
                    zone = app("dateutil.tz.gettz", S("zone"))
                    if t == S("parsed"):
                        q.require(not tz, loc, "a schedule_time without offset is not taken as a time in its schedule_timezone")
                    elif t[0] == "app" and t[1] == "withtz" and t[2] == S("parsed"):
                        q.require(mentions(t, zone) if tz else None, loc, "a schedule_time is taken as a time in another timezone than schedule_timezone")
                    else:
                        q.require(None, loc, "time not understood: {}".format(show(t)))
            scenario("schedule_time is a string {} offset, {}".format("with" if aware else "without", "with a timezone" if tz else "without timezone"), data, parsed)

    def later(st):
        """a future trigger waits"""
        world(st, {tfile(st, "j"): st.ip.new_dict([(C("schedule_time"), num(st.ip))])}, conc=TRUE)
        st.ip.assume_cmp(">", S("n"), NOW)
        st.on_sleep = lambda e: None if e.args == [C(0)] else (_ for _ in ()).throw(Stop("wait"))
        return st.loop()

    def waits(q):
        ss = q.starts()
        q.require(not ss, ss[0].loc if ss else q.last_loc(), "a trigger for the future starts at once")
        nw = q.field("next_wakeup")
        new = added(q)
        if new and nw is not None and q.outcome == "stop":
            q.require(q.cmp("<=", nw, S("n")), q.last_loc(), "the scheduler does not wake up in time for a trigger's scheduled run")
    rule.scenario("schedule_time is in the future", later, waits)


# -- T04: triggered and scheduled runs ------------------------------------------------


def T04(rule):
    for conc in (FALSE, TRUE):
        for queued, respawn, sched in ((True, TRUE, True), (True, FALSE, True), (True, FALSE, False), (False, FALSE, True), (False, FALSE, False)):
            for running in (False, True):
                for when in ("future", "now"):
                    if when == "now" and running and conc == FALSE:
                        continue

                    def build(st, conc=conc, queued=queued, respawn=respawn, running=running, when=when, sched=sched):
                        world(st, {tfile(st, "j"): st.ip.new_dict()}, conc=conc, queued=queued, respawn=respawn, running=running, sched=sched)
                        if when == "future":
                            future(st, S("mtime"))
                        else:
                            st.ip.assume_cmp("<=", S("mtime"), NOW)
                        st.ip.set_range(app("next"), 0, None)
                        return st.loop()

                    def check(q, conc=conc, queued=queued, respawn=respawn, running=running, when=when, sched=sched):
                        if q.outcome == "exc":
                            q.require(None, q.last_loc(), "path ends in an exception")
                            return
                        st = q.st
                        ms, more = q.members(q.field("scheduled_runs"))
                        rr, more2 = q.members(q.field("running_runs"))
                        if ms is None or rr is None or more or more2:
                            q.require(None, q.last_loc(), "queue unknown")
                            return
                        q.require(st.rk in ms, q.last_loc(), "a trigger drops another job's queued run")
                        new = [m for m in ms + rr if q.attr(m, "trigger_type") == C("file")]
                        q.require(len(new) == 1, q.last_loc(), "a trigger does not lead to exactly one run")
                        mine = [m for m in ms if q.attr(m, "job") == st.j]
                        if conc == TRUE:
                            q.require((st.q1 in ms) == queued, q.last_loc(), "the trigger of a job with concurrent_runs drops its queued run")
                            for n in new:
                                q.require(q.attr(n, "respawn") == FALSE, q.last_loc(), "a triggered run beside the scheduled one starts a second schedule")
                        else:
                            q.require(st.q1 not in ms + rr, q.last_loc(), "the trigger of a job does not replace its queued run")
                            if when == "future":
                                q.require(len(mine) == 1, q.last_loc(), "after a trigger a job has several queued runs")
                                for n in new:
                                    q.require(q.attr(n, "respawn") == (respawn if queued else FALSE), q.last_loc(), "a triggered run which replaces a scheduled one does not continue its schedule" if respawn == TRUE else "a triggered run starts a second schedule")
                            else:
                                want = 1 if queued and respawn == TRUE else 0
                                q.require(len(mine) == want, q.last_loc(), "after a triggered run has started in place of a scheduled one, its schedule does not continue" if want else "a triggered run starts a second schedule")
                        for n in new:
                            q.require(q.attr(n, "job") == st.j, q.last_loc(), "a triggered run is one of another job")
                        if running:
                            q.require(st.r0 in rr, q.last_loc(), "a trigger makes the scheduler forget a running run")
                    rule.scenario("concurrent_runs {},{} {}, {}, trigger for {}".format(
                        conc[2], "" if sched else " no schedule,", "a {} run queued".format("recurring" if respawn == TRUE else "single") if queued else "nothing queued",
                        "running" if running else "not running", when), build, check)


# -- S14: return data --------------------------------------------------------------


def S14(rule):
    def rfile(st, ext):
        return path(st, S("data_dir"), C("runs"), S("job j"), S("id r0"), C("return_data." + ext))

    def build(st, exts, data=None, setup=None):
        next_time(st)
        if setup:
            setup(st)
        st.d = {e: (data(st.ip) if data else S("data " + e)) for e in exts}
        if "other" in exts:
            st.d["other"] = S("data other")
        files = {rfile(st, e): st.d[e] for e in exts if e != "other"}
        files[path(st, S("data_dir"), C("runs"), S("job k"), S("id a"), C("return_data.json"))] = S("not mine")
        st.fs = Files(st, files)
        j, k = st.job("j"), st.job("k")
        st.r0 = st.running(j, "r0", age=st.param("age", 0))
        a = st.running(k, "a", age=st.param("age_a", 0))
        st.scheduler(st.config([j, k]), running_runs=[a, st.r0])
        n = [0]

        def wait(e):
            n[0] += 1
            if n[0] > 1:
                raise Stop("wait")
            code = st.param("code", 0, 255)
            st.ip.kinds[code] = "int"
            return ("tuple", (S("pid r0"), lin_scale(code, 256), S("rusage")))
        st.on_wait = wait
        return st.loop()

    def recorded(q):
        """the run_data object which is recorded: {key: value}, or None"""
        ins = inserts(q, "runs")
        und = unknown_sql(q)
        q.require(q.outcome != "exc", q.last_loc(), "the scheduler fails because of a run's return data")
        if q.outcome == "exc":
            return None
        q.require(len(ins) == 1 or (None if und else False), q.last_loc(), "a run is not recorded because of its return data")
        for e, vals in ins:
            if vals is None:
                continue
            v = vals.get("run_data")
            if v is not None and v[0] == "app" and v[1] == "json.dumps":
                o = q.ip.deref(v[2])
                if o is not None and o.kind == "dict" and o.rest is None:
                    return e, {k[2] if is_const(k) else show(k): x for k, x in o.entries}
        q.require(None, q.last_loc(), "record unknown")
        return None

    for exts, want in ((("json",), "json"), (("yaml",), "yaml"), (("json", "yaml"), "json"), ((), None)):
        def check(q, want=want):
            rm = q.evs("os.remove", "os.unlink", "os.rename", "os.replace", "shutil.rmtree")
            q.require(not rm, rm[0].loc if rm else q.last_loc(), "what a run left in its directory is removed")
            r = recorded(q)
            if r is None:
                return
            e, d = r
            if want == "yaml" and not q.evs("load!"):
                q.require("return_data" not in d, e.loc, "return data is recorded which was not read")
                return
            if want is None:
                q.require("return_data" not in d, e.loc, "return data is recorded although the run left none")
            else:
                q.require(d.get("return_data") == q.st.d[want], e.loc, "a run's return data is not recorded" if "return_data" not in d else "other data than that of the run's return_data.{} is recorded".format(want))
                used = [x.data for x in q.evs("load!")]
                q.require(all(u == text(rfile(q.st, want)) for u in used), e.loc, "another file than the run's return_data.{} is read".format(want))
        rule.scenario("return data: {}".format(", ".join(exts) or "none"), lambda st, exts=exts: build(st, exts), check)

    for what, errs in (
        ("open", OPEN_ERR), ("json.load", LOAD_ERR), ("yaml.safe_load", LOAD_ERR),
        ("json.dumps", ["TypeError", "ValueError", "OverflowError", "RecursionError"]), ("NaN", []),
    ):
        def bad(q, what=what):
            if not q.ip.data.get("raised") and what != "NaN":
                return
            r = recorded(q)
            if r is None:
                return
            e, d = r
            q.require("return_data" not in d, e.loc, "unreadable return data is recorded")
            q.require(q.in_list(q.field("running_runs"), q.st.r0) is not True, e.loc, "a run with unreadable return data stays among the running runs")
        ext = "yaml" if "yaml" in what else "json"

        def mk(st, ext=ext, what=what):
            if what in ("json.dumps", "NaN"):
                no_dumps(st, S("data " + ext), nan=what == "NaN")
            return build(st, (ext,))
        rule.scenario("return data: {} fails".format(what), mk, bad, raises={} if what in ("json.dumps", "NaN") else {what: errs})


# -- T05: triggers and signals are noticed in time -------------------------------


def T05(rule):
    """On the clock: time passes only where the scheduler sleeps or waits."""
    def timeline(st, at=None, sig=None, limit=150, ends=()):
        ip = st.ip
        st.t, st.looks, st.came, st.began = 0, [], None, []
        st.done = False

        def look(path):
            s = show(path)
            if "trigger" in s and "data_dir" in s:
                st.looks.append((st.t, s))

        for f in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.access"):
            ip.ext_overrides[f] = lambda ip, a, k: (look(a[0]), FALSE)[1]
        old = ip.on_event

        def event(ip, e):
            if e.name in ("open", "builtins.open", "os.stat", "os.path.getmtime", "os.open", "os.remove") and e.args:
                look(e.args[0])
            if e.name in ("os.listdir", "os.scandir", "glob.glob", "os.walk") and e.args:
                look(e.args[0])
            if e.name == "os.fork":
                st.began.append(st.t)
            return old(ip, e)
        ip.on_event = event

        def passes(d):
            if not is_num(d):
                raise Stop("sleeps for an unknown time: {}".format(show(d)))
            d = max(float(cval(d)), 0.001)
            t = st.t
            if sig is not None and st.came is None and t <= at < t + d:
                # the rest of the sleep goes on after the handler
                st.set_time(at)
                st.came = at
                deliver(st, sig)
            st.set_time(t + d)
            if st.t > limit:
                st.done = True
                raise Stop("time is over")

        def set_time(t):
            st.t = t
            ip.now = lin_add(NOW, C(t))
            ip.kinds[ip.now] = "datetime"
        st.set_time = set_time
        ev = list(ends)

        def sleep(e):
            passes(e.args[0] if e.args else C(0))

        def wait(e):
            if ev and st.t >= ev[0][0]:
                return ("tuple", (ev.pop(0)[1], C(0), S("rusage")))
            if len(e.args) > 1 and e.args[1] == C(0) or e.name == "os.wait":
                raise Stop("blocked")
            return ("tuple", (C(0), C(0), S("rusage")))
        st.on_sleep, st.on_wait = sleep, wait

    def jobs(st, **kw):
        return st.job("j", **kw), st.job("k"), st.job("l")

    def far(t):
        return lin_add(NOW, C(t))

    STATES = {
        "idle": lambda st, j, k, l: dict(),
        "a run in three hours": lambda st, j, k, l: dict(scheduled_runs=[st.run(j, "x", schedule_time=far(10800), respawn=TRUE)]),
        "a run is running": lambda st, j, k, l: dict(running_runs=[st.running(k, "a", age=C(500))]),
        "a run with an execution limit is running": lambda st, j, k, l: dict(running_runs=[st.running(lim(st, k), "a", age=C(500))]),
        "a run is blocked by its predecessor": lambda st, j, k, l: dict(running_runs=[st.running(k, "a", age=C(5000))], scheduled_runs=[st.run(k, "x", schedule_time=far(-4000)), st.run(j, "y", schedule_time=far(7200))]),
        "a run ends": lambda st, j, k, l: dict(running_runs=[st.running(k, "a", age=C(500)), st.running(l, "b", age=C(500))]),
    }

    def lim(st, k):
        at = st.ip.deref(k).attrs
        at["max_execution"], at["max_execution_grace"] = C(7200), C(60)
        for v in (at["max_execution"], at["max_execution_grace"]):
            st.ip.kinds[v] = "timedelta"
        return k

    def start(st, state, **kw):
        ip = st.ip
        j, k, l = jobs(st)
        st.js = [j, k, l]
        f = STATES[state](st, j, k, l)
        for r in f.get("running_runs", ()):
            at = ip.deref(r).attrs
            at["term_sent"] = at["kill_sent"] = FALSE
        ip.data.setdefault("distinct", set()).update({S("pid a"), S("pid b")})
        st.scheduler(st.config([j, k, l], **kw), **f)
        ip.overrides["dsari.utils.get_next_schedule_time"] = lambda ip, fi, a, k: far(10800 + st.t)

    def ended(q):
        """whether the path is one to be judged"""
        if q.outcome == "exc":
            q.require(None if q.p.taint else False, q.last_loc(), "the scheduler goes on")
            return False
        if not q.st.done and q.val == "blocked":
            q.require(False, q.last_loc(), "the scheduler blocks until a run ends: triggers and signals are not noticed meanwhile")
            return False
        if not q.st.done and q.outcome != "ret":
            q.require(None, q.last_loc(), "path not followed: {}".format(q.val if isinstance(q.val, str) else ""))
            return False
        return True

    def looks_for(q, name):
        out = [t for t, s in q.st.looks if S("job " + name)[1] in s]
        return out or [t for t, s in q.st.looks if "job " not in s]

    for state in STATES:
        ends = [(20.0, S("pid a"))] if state == "a run ends" else []

        def build(st, state=state, ends=ends):
            start(st, state)
            timeline(st, ends=ends)
            return st.loop()

        def minute(q):
            if not ended(q):
                return
            for n in ("j", "k", "l"):
                ts = [0] + looks_for(q, n) + [q.st.t]
                gap = max(b - a for a, b in zip(ts, ts[1:]))
                q.require(gap <= 61.5, q.last_loc(), "the scheduler does not look for a job's triggers at least once a minute")
            q.rule.count("looks for triggers", len(q.st.looks))
        rule.scenario("triggers are looked for: {}".format(state), build, minute, WHILE_CAP=20000, MAX_STEPS=6000000)

        for at in (0.0004, 12.31):
            def usr1(st, state=state, at=at, ends=ends):
                start(st, state)
                timeline(st, at, signal.SIGUSR1, limit=30, ends=ends)
                return st.loop()

            def soon(q, at=at):
                if not ended(q):
                    return
                if q.st.came is None:
                    q.require(None, q.last_loc(), "path not followed")
                    return
                for n in ("j", "k", "l"):
                    ts = [t for t in looks_for(q, n) if t >= at]
                    q.require(bool(ts) and ts[0] <= at + 2, q.last_loc(), "the scheduler does not look for a job's triggers soon after SIGUSR1")
            rule.scenario("SIGUSR1 after {} s: {}".format(at, state), usr1, soon, WHILE_CAP=20000, MAX_STEPS=6000000)

        def hup(st, state=state, ends=ends):
            start(st, state)
            timeline(st, 12.31, signal.SIGHUP, limit=50, ends=ends)
            ip = st.ip
            ip.facts[("truthy", S("schedule"))] = True
            n = st.job("n", schedule=S("schedule"))
            ip.overrides["dsari.utils.get_next_schedule_time"] = lambda ip, fi, a, k: far(25) if st.t < 24 else far(10800 + st.t)
            reload_with(st, [st.job("k"), n])
            return st.loop()

        def new_job(q):
            if not ended(q):
                return
            if q.st.came is None:
                q.require(None, q.last_loc(), "path not followed")
                return
            b = q.st.began
            q.require(any(25 <= t <= 27 for t in b), q.last_loc(), "a run of a job which a reload brought is not started in time")
        rule.scenario("SIGHUP, a new job has a run soon: {}".format(state), hup, new_job, WHILE_CAP=20000, MAX_STEPS=6000000)

        def term(st, state=state):
            start(st, state)
            r = [x for x in st.ip.deref(st.field("running_runs")).segs]
            timeline(st, 12.31, signal.SIGTERM, limit=120, ends=[(30.0 + i, S("pid " + n)) for i, n in enumerate("ab"[:len(r)])])
            return st.loop()

        def ends_soon(q, state=state):
            if not ended(q):
                return
            if q.st.came is None:
                q.require(None, q.last_loc(), "path not followed")
                return
            last = {"idle": 12.31, "a run in three hours": 12.31, "a run ends": 31}.get(state, 30)
            q.require(q.outcome == "ret" and q.st.t <= last + 2.5, q.last_loc(), "the scheduler does not end soon after SIGTERM, when no run is running any more")
        rule.scenario("SIGTERM: {}".format(state), term, ends_soon, WHILE_CAP=20000, MAX_STEPS=6000000)


RULES = {"T05": T05, "T01": T01, "T02": T02, "T03": T03, "T04": T04, "S14": S14}
