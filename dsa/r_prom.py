"""Rules over the Prometheus exporter: values, currency, format."""
import math
import re

from .core import *  # noqa: F401,F403
from .dbmodel import Store
from .interp import Stop
from .r_config import mk
from .r_db import json_loads
from .r_info import database, finished, flatten, program
from .r_sched import next_time, no_files, reload_with
from .values import lin_add, lin_scale, make_lin

DEFAULTS = {"debug": False, "metrics_path": "/metrics", "listen_address": "0.0.0.0", "listen_port": 50575, "job_cache_time": 120.0,
            "quantiles": "0.01,0.1,0.5,0.9,0.99", "no_running": False, "dump": False}


def run_row(st, typ, name, job, at, lat, dur, code):
    """a record whose times are at an unknown point of a known second:
    scheduled, started lat later, ended dur later"""
    ip = st.ip
    kind = "float" if typ == "sqlite3" else "datetime"
    j = S("job " + job)
    ip.data.setdefault("distinct", set()).update((j, S(name + " run_id")))
    ip.facts[("types", j)] = frozenset({"str"})
    ip.kinds[j] = "str"
    r = {"job_name": j, "run_id": S(name + " run_id"), "trigger_type": S(name + " trigger_type")}
    ip.facts[("truthy", r["run_id"])] = True
    t = st.param(name + " schedule_time", at, at + 1)
    times = [("schedule_time", t)]
    if lat is not None:
        times.append(("start_time", lin_add(t, st.param(name + " latency", *lat))))
    if dur is not None:
        times.append(("stop_time", lin_add(times[-1][1], st.param(name + " duration", *dur))))
        r["exit_code"] = C(code)
    for c, v in times:
        ip.kinds[v] = kind
        ip.facts[("types", v)] = frozenset({kind})
        r[c] = v
    for c in ("trigger_data", "run_data"):
        v = ip.new_dict()
        r[c] = v if typ == "mongodb" else app("json.dumps", v)
        ip.facts[("types", r[c])] = frozenset({"str"})
    return r


#            job      scheduled  latency  duration  exit code
HIST = {
    "x0": ("j", 5000, (3, 4), (20, 21), 0),
    "x1": ("k", 9000, (1, 2), (5, 6), 143),
    "x2": ("j", 1000, (7, 8), (40, 41), 3),
    "x3": ("gone", 9500, (1, 2), (100, 101), 0),
    "x4": ("j", 3000, (1, 2), (30, 31), 0),
    "x5": ("j", 4000, (10, 11), (3000, 3001), 5),
    "y0": ("j", 9000, (2, 3), None, None),
    "y1": ("gone", 9000, (2, 3), None, None),
    "y2": ("k", 9900, (2, 3), None, None),
    "y3": ("k", 9800, (2, 3), None, None),
}
HISTORIES = {
    "no runs": (),
    "one run": ("x1",),
    "runs of other jobs": ("x3", "y1"),
    "several runs": ("x0", "x1", "x2", "x3", "x4", "y0", "y1", "y2", "y3"),
    "two runs": ("x4", "x2", "y3"),
    "a run beside others": ("x0", "x5", "x4"),
    "running runs": ("y0", "y2", "y3"),
}


def world(st, typ, names, jobs=("j", "k", "l")):
    ip = st.ip
    no_files(st)
    next_time(st)
    json_loads(st)
    ip.ext_overrides.setdefault("time.time", lambda ip, a, k: NOW)
    tab = {n: run_row(st, typ, n, *HIST[n]) for n in names}
    st.tab = tab
    st.store = Store(st, typ, {"runs": [tab[n] for n in names if n[0] == "x"], "runs_running": [tab[n] for n in names if n[0] == "y"]})
    st.store.rev = "?"
    for f in ("truthy",):
        ip.facts[(f, app("os.path.dirname", S("dbfile")))] = True
    reload_with(st, [st.job(n) for n in jobs], database=database(st, typ))


def exporter(st, **opts):
    cls = "dsari.prometheus_exporter.Prometheus"
    r = st.w.repo.resolve_dotted(cls)
    if not r or r[0] != "class":
        raise Anchor(cls)
    from .interp import OInst
    ip = st.ip
    st.dir = S("config_dir")
    o = dict(DEFAULTS, **opts)
    st.args = ip.alloc(OInst(("ext", "argparse.Namespace"), {k: mk(ip, v) for k, v in dict(o, config_dir=st.dir).items()}))
    st.prom = ip.instantiate(r[1], [st.args], {})
    st.n0 = len(ip.events)
    return st.prom


def collect(st):
    m = st.ip.deref(st.prom).cls.find("get_metrics")
    if m is None:
        raise Anchor("Prometheus.get_metrics")
    return st.ip.call(("bound", st.prom, m), [], {})


LINE = re.compile(r"^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{([^{}]*)\})? (\S+)$")
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="([^"\\]*)"')
HELP = re.compile(r"^# HELP ([a-zA-Z_:][a-zA-Z0-9_:]*) (.*)$")
TYPE = re.compile(r"^# TYPE ([a-zA-Z_:][a-zA-Z0-9_:]*) (counter|gauge|summary|histogram|untyped)$")


def parse(v):
    """(samples {(name, labels): value}, problems, types) of the text format"""
    toks = flatten(v, [])
    table, s = {}, ""
    for t in toks:
        if isinstance(t, str):
            s += t
        else:
            c = chr(0xE000 + len(table))
            table[c] = t
            s += c

    def value(x):
        if len(x) == 1 and x in table:
            return table[x]
        if any(c in table for c in x):
            return None
        return x

    samples, bad, types, names = {}, [], {}, []
    if s and not s.endswith("\n"):
        bad.append("the last line ends")
    for l in s.split("\n")[:-1]:
        h, t, m = HELP.match(l), TYPE.match(l), LINE.match(l)
        if h:
            if h.group(1) in names:
                bad.append("the help of a metric precedes its values")
        elif t:
            if t.group(1) in types or t.group(1) in names:
                bad.append("the type of a metric is given once, before its values")
            types[t.group(1)] = t.group(2)
        elif m:
            n = m.group(1)
            if n in names and names[-1] != n:
                bad.append("the values of a metric are together")
            names.append(n)
            labels = {}
            if m.group(2) is not None:
                ls = LABEL.findall(m.group(2))
                if ",".join('{}="{}"'.format(a, b) for a, b in ls) != m.group(2) or len({a for a, b in ls}) != len(ls):
                    bad.append("labels are valid")
                labels = {a: value(b) for a, b in ls}
            x = value(m.group(3))
            if isinstance(x, str):
                try:
                    x = C(float(x) if not x.lstrip("-").isdigit() else int(x))
                except ValueError:
                    bad.append("values are numbers")
                    x = None
            key = (n, tuple(sorted(labels.items(), key=lambda i: i[0])))
            if key in samples:
                bad.append("no value is given twice")
            samples[key] = x
        elif l:
            bad.append("each line is a value, or help or type")
    return samples, bad, types, names


def pct(vals, q):
    k = (len(vals) - 1) * q
    f, c = math.floor(k), math.ceil(k)
    if f == c:
        return vals[int(k)]
    return lin_add(lin_scale(vals[f], c - k), lin_scale(vals[c], k - f))


def expected(st, names, jobs, quantiles, running=True):
    """{(metric, labels): value} for these records"""
    out = {}
    for j in jobs:
        jn = S("job " + j)
        rs = [n for n in names if n[0] == "x" and HIST[n][0] == j]

        def put(m, v, **labels):
            out[(m, tuple(sorted(dict(labels, job_name=jn).items(), key=lambda i: i[0])))] = v
        put("dsari_run_count", C(len(rs)))
        put("dsari_run_success_count", C(len([n for n in rs if HIST[n][4] == 0])))
        put("dsari_run_failure_count", C(len([n for n in rs if HIST[n][4] != 0])))
        if rs:
            for what, i in (("latency", 2), ("duration", 3)):
                vals = [S("{} {}".format(n, what)) for n in sorted(rs, key=lambda n: HIST[n][i])]
                total = C(0)
                for v in vals:
                    total = lin_add(total, v)
                m = "dsari_run_{}_seconds".format(what)
                for q in quantiles:
                    put(m, pct(vals, q), quantile=str(q))
                put(m + "_sum", total)
                put(m + "_count", C(len(rs)))
            last = max(rs, key=lambda n: HIST[n][1] + HIST[n][2][0] + HIST[n][3][0])
            put("dsari_last_run_exit_code", C(HIST[last][4]))
            for c in ("schedule_time", "start_time", "stop_time"):
                put("dsari_last_run_" + c, st.tab[last][c])
        if running:
            for n in names:
                if n[0] == "y" and HIST[n][0] == j:
                    for c in ("schedule_time", "start_time"):
                        put("dsari_running_run_" + c, st.tab[n][c], run_id=st.tab[n]["run_id"])
    return out


def epoch(v):
    """the number of seconds a time stands for"""
    while v[0] == "app" and v[1] in (".timestamp", ".astimezone", "datetime.datetime.fromtimestamp", "time"):
        v = v[2]
    return v


def approx(q, a, b):
    """equal but for rounding"""
    if a is None:
        return None
    a, b = epoch(a), epoch(b)
    r = eq_lin(a, b)
    if r is None:
        return None if a[0] == "top" or q.p.taint else False
    return r


def eq_lin(a, b):
    d = lin_add(a, b, -1)
    if is_num(d):
        return abs(cval(d)) < 1e-6
    if d[0] == "lin":
        return abs(d[1]) < 1e-6 and all(abs(k) < 1e-6 for _, k in d[2]) or None
    return None


def judge(q, text, names, jobs, quantiles, what, running=True):
    loc = next((e.loc for e in reversed(q.events) if e.name in (".execute", ".find")), q.last_loc())
    samples, bad, types, order = parse(text)
    want = expected(q.st, names, jobs, quantiles, running)
    got = {k: v for k, v in samples.items() if k[0] not in ("dsari_time", "dsari_exporter_collect_seconds", "dsari_version_info")}
    for k in want:
        lab = ", ".join("{}={}".format(a, b if isinstance(b, str) else show(b)) for a, b in k[1])
        if k not in got:
            q.require(False, loc, "{}: {} of {} is exported".format(what, k[0], lab))
            continue
        q.require(approx(q, got[k], want[k]), loc, "{}: {} of {} is that of the records".format(what, k[0], lab))
    mine = {k[0] for k in expected(q.st, [n for n in HIST if n in q.st.tab] or names, jobs, quantiles)} | {k[0] for k in want}
    extra = [k for k in got if k not in want and k[0] in mine | {"dsari_running_run_schedule_time", "dsari_running_run_start_time", "dsari_last_run_exit_code", "dsari_run_count"}]
    q.require(not extra, loc, "{}: nothing else is exported of a metric ({})".format(what, extra[0][0] if extra else ""))
    v = [(k, x) for k, x in samples.items() if k[0] == "dsari_version_info"]
    q.require(len(v) == 1 and v[0][1] == C(1) and [a for a, b in v[0][0][1]] == ["version"], loc, "{}: the version is exported".format(what))
    v = samples.get(("dsari_time", ()))
    q.require(v is not None and (v == NOW or "time" in show(v)), loc, "{}: dsari_time is the current time".format(what))


def M01(rule):
    """The values of the metrics."""
    for typ in ("sqlite3", "mongodb"):
        for hname, names in HISTORIES.items():
            for quant in ("0.01,0.1,0.5,0.9,0.99", "0,1,0.25", "0.5"):
                for running, more in ((True, {}), (False, {}), (False, {"dump": True, "debug": True})):
                    if (quant != "0.5" or typ == "mongodb") and not running:
                        continue
                    def build(st, typ=typ, names=names, quant=quant, running=running, more=more):
                        world(st, typ, names)
                        exporter(st, quantiles=quant, no_running=not running, **more)
                        return collect(st)

                    def check(q, names=names, quant=quant, running=running):
                        if not finished(q, "collecting metrics"):
                            return
                        judge(q, q.val, names, ("j", "k", "l"), [float(x) for x in quant.split(",")], "metrics", running)
                    rule.scenario("{}: {}, quantiles {}{}{}".format(typ, hname, quant, "" if running else ", --no-running", ", --dump" if more else ""), build, check)


# -- M02 -------------------------------------------------------------------------


def handler(st, **opts):
    """the WSGI application over a new exporter"""
    cls = "dsari.prometheus_exporter.PrometheusHandler"
    r = st.w.repo.resolve_dotted(cls)
    if not r or r[0] != "class":
        raise Anchor(cls)
    exporter(st, **opts)
    n = len(st.ip.events)
    st.app = st.ip.instantiate(r[1], [], {"prom": st.prom})
    st.hup = None
    for e in st.ip.events[n:]:
        if e.name == "signal.signal" and len(e.args) == 2 and is_const(e.args[0]) and int(e.args[0][2]) == 1:
            st.hup = e.args[1]
    st.n0 = len(st.ip.events)
    return st.app


def request(st, path="/metrics", query=C("")):
    ip = st.ip
    env = [(C("PATH_INFO"), C(path) if isinstance(path, str) else path), (C("REQUEST_METHOD"), C("GET"))]
    if query is not None:
        env.append((C("QUERY_STRING"), query))
    env = ip.new_dict(env)
    n = len(ip.events)
    r = ip.call(st.app, [env, ("ext", "start_response")], {})
    calls = [e for e in ip.events[n:] if e.name == "start_response"]
    return r, calls


def hup(st):
    if st.hup is None:
        st.ip.throw("LookupError", "no handler of SIGHUP")
    return st.ip.call(st.hup, [C(1), S("frame")], {})


def body_of(q, r):
    ms, more = q.members(r)
    if ms is None or len(ms) != 1:
        return None
    b = ms[0]
    if b[0] == "app" and str(b[1]).lstrip(".") == "encode":
        return b[2]
    if is_const(b) and isinstance(b[2], bytes):
        return C(b[2].decode())
    return None


QS = [0.01, 0.1, 0.5, 0.9, 0.99]
FIRST, SECOND = ("x1", "x2", "y0", "y1"), ("x0", "x1", "x2", "x3", "y1", "y2")


def change(st, typ, names):
    """the records are now these"""
    for n in names:
        if n not in st.tab:
            st.tab[n] = run_row(st, typ, n, *HIST[n])
    st.store.tables = {"runs": [dict(st.tab[n]) for n in names if n[0] == "x"], "runs_running": [dict(st.tab[n]) for n in names if n[0] == "y"]}


def M02(rule):
    """Metrics are current, whatever happens in between."""
    # age
    for typ in ("sqlite3", "mongodb"):
        for cache, age in ((120.0, -10), (120.0, 10), (120.0, 1000), (600.0, -10), (600.0, 10), (600.0, 1000), (2.5, -0.25), (2.5, 0.25), (0.75, -0.25), (0.75, 0.25)):
            if True:
                def build(st, typ=typ, cache=cache, age=age):
                    world(st, typ, FIRST)
                    exporter(st, job_cache_time=cache)
                    a = collect(st)
                    change(st, typ, SECOND)
                    st.ip.now = lin_add(NOW, C(cache + age))
                    b = collect(st)
                    st.ip.now = lin_add(NOW, C(cache + age + 2 * cache))
                    return ("tuple", (a, b, collect(st)))

                def check(q, age=age):
                    if not finished(q, "collecting metrics"):
                        return
                    a, b, c = q.val[1]
                    judge2(q, a, FIRST, FIRST, "first request")
                    judge2(q, b, FIRST if age < 0 else SECOND, SECOND, "request within the cache time" if age < 0 else "request after the cache time")
                    judge2(q, c, SECOND, SECOND, "request after the cache time")
                rule.scenario("{}: cache time {}, {}".format(typ, cache, age), build, check)

    for hups in (0, 1):
        def build(st, hups=hups):
            world(st, "sqlite3", FIRST)
            handler(st)
            ip = st.ip
            a = request(st)[0]
            if hups:
                hup(st)
                a = request(st)[0]
            change(st, "sqlite3", SECOND)
            ip.now = lin_add(NOW, C(100))
            b = request(st)[0]
            ip.now = lin_add(NOW, C(130))
            return ("tuple", (a, b, request(st)[0]))

        def check(q):
            if not finished(q, "collecting metrics"):
                return
            for r, d, what in zip(q.val[1], (FIRST, FIRST, SECOND), ("first request", "request within the cache time", "request after the cache time")):
                b = body_of(q, r)
                if b is None:
                    q.require(False if r == NONE else None, q.last_loc(), "a response has a body")
                    continue
                judge2(q, b, d, FIRST if what[0] == "f" else SECOND, what)
        rule.scenario("requests{}".format(" after a reload" if hups else ""), build, check)

    # a failing lookup
    for nth in range(1, 7):
        def build(st, nth=nth):
            world(st, "sqlite3", FIRST)
            exporter(st)
            n, old = [0], st.rows

            def rows(e):
                n[0] += 1
                if n[0] == nth:
                    st.ip.throw("sqlite3.OperationalError", "database is locked")
                return old(e)
            st.rows = rows
            from .interp import PyExc
            try:
                collect(st)
                st.failed = False
            except PyExc:
                st.failed = True
            st.rows = old
            change(st, "sqlite3", SECOND)
            return collect(st)

        def check(q, nth=nth):
            if not finished(q, "collecting metrics after a failed request"):
                return
            judge2(q, q.val, SECOND if nth <= 3 else (FIRST, SECOND), SECOND, "request after one which failed")
        rule.scenario("lookup {} fails".format(nth), build, check)

    # a lookup which fails when the cache is old
    for nth in range(1, 4):
        def build(st, nth=nth):
            world(st, "sqlite3", FIRST)
            exporter(st)
            from .interp import PyExc
            collect(st)
            change(st, "sqlite3", SECOND)
            st.ip.now = lin_add(NOW, C(130))
            n, old = [0], st.rows

            def rows(e):
                n[0] += 1
                if n[0] == nth:
                    st.ip.throw("sqlite3.OperationalError", "database is locked")
                return old(e)
            st.rows = rows
            try:
                collect(st)
            except PyExc:
                pass
            st.rows = old
            return collect(st)

        def check(q):
            if finished(q, "collecting metrics after a failed request"):
                judge2(q, q.val, SECOND, SECOND, "request after one which failed, after the cache time")
        rule.scenario("the cache is old, lookup {} fails".format(nth), build, check)

    # another signal while the configuration is loaded
    for first_bad in (False, True):
        def build(st, first_bad=first_bad):
            world(st, "sqlite3", FIRST)
            handler(st)
            ip = st.ip
            st.job("j")
            ip.data.setdefault("distinct", set()).add(S("job gone"))
            request(st)
            reload_with(st, [st.job("l")], database=database(st))
            load1 = st.load_config

            def load(ip, loader):
                if first_bad:
                    reload_with(st, [st.job(n) for n in ("k", "gone")], database=database(st))
                    hup(st)
                    ip.throw("dsari.config.ConfigError", "no")
                r = load1(ip, loader)
                reload_with(st, [st.job(n) for n in ("k", "gone")], database=database(st))
                hup(st)
                return r
            st.load_config = load
            hup(st)
            request(st)
            change(st, "sqlite3", SECOND)
            return request(st)[0]

        def check(q):
            if not finished(q, "a request after two reloads"):
                return
            b = body_of(q, q.val)
            if b is None:
                q.require(False if q.val == NONE else None, q.last_loc(), "a response has a body")
                return
            judge2(q, b, SECOND, SECOND, "request after a reload during another", ("k", "gone"))
        rule.scenario("reload during a reload{}".format(", failing" if first_bad else ""), build, check)

    # reloads
    for point in range(0, 14):
        for bad in (False, True):
            def build(st, point=point, bad=bad):
                world(st, "sqlite3", FIRST)
                handler(st)
                ip = st.ip
                first = [st.job(n) for n in ("j", "k", "l")]
                ip.data.setdefault("distinct", set()).add(S("job gone"))
                n, old, done = [0], st.hook, []

                def sig():
                    done.append(1)
                    if bad:
                        def load(ip, loader):
                            ip.throw("dsari.config.ConfigError", "no")
                        st.load_config = load
                    else:
                        reload_with(st, [st.job(n) for n in ("k", "gone")], database=database(st))
                    hup(st)

                def hook(e):
                    if not done and e.name in (".cursor", ".execute", ".commit", "time.time", "start_response", ".close"):
                        n[0] += 1
                        if n[0] == point:
                            sig()
                    return old(e) if old is not None else None
                st.hook = hook
                st.first = request(st)
                st.reloaded = bool(done)
                if not done:
                    sig()
                change(st, "sqlite3", SECOND)
                return request(st)[0]

            def check(q, bad=bad):
                if not finished(q, "a request before or after a reload"):
                    return
                b = body_of(q, q.val)
                if b is None:
                    q.require(False if q.val == NONE else None, q.last_loc(), "a response has a body")
                    return
                if bad:
                    judge2(q, b, FIRST, SECOND, "request after a failed reload")
                else:
                    judge2(q, b, SECOND, SECOND, "request after a reload", ("k", "gone"))
            rule.scenario("reload at point {}{}".format(point, ", failing" if bad else ""), build, check)

    # HTTP
    for mp in ("/metrics", "/x/y"):
        for p in ("/metrics", "/x/y", "/", "", "/metrics/", "/METRICS", "/metrics?x"):
            def build(st, p=p, mp=mp):
                world(st, "sqlite3", FIRST)
                handler(st, metrics_path=mp)
                r, st.calls = request(st, p, S("query") if p != "/METRICS" and mp == "/metrics" else None)
                return r

            def check(q, p=p, mp=mp):
                if not finished(q, "a request"):
                    return
                loc = q.last_loc()
                b = body_of(q, q.val)
                q.require(len(q.st.calls) == 1, loc, "a response has one status")
                if len(q.st.calls) != 1:
                    return
                if b is None:
                    q.require(False if q.val == NONE else None, loc, "a response has a body")
                    return
                e = q.st.calls[0]
                status = e.args[0]
                ok = p == mp
                q.require(is_const(status) and str(status[2]).startswith("200 " if ok else "404 "), e.loc, "metrics are served at the configured path, and only there")
                if ok:
                    judge2(q, b, FIRST, FIRST, "response")
                hs, more = q.members(e.args[1])
                hs = {h[1][0][2].lower(): h[1][1] for h in hs or () if h[0] == "tuple" and is_const(h[1][0])}
                n = hs.get("content-length")
                body = q.members(q.val)[0][0]
                if n is not None:
                    if is_const(body):
                        q.require(n == C(str(len(body[2]))), e.loc, "the length of a response is right")
                    else:
                        q.require(True if n == ("str", (app("len", body),)) or n == app("str", app("len", body)) else None, e.loc, "the length of a response is right")
                t = hs.get("content-type")
                q.require(t is not None and is_const(t) and t[2].startswith("text/plain"), e.loc, "a response has a type")
            rule.scenario("request {} at {}".format(p, mp), build, check)


def judge2(q, text, done, running, what, jobs=("j", "k", "l")):
    """ended runs as in `done` (or one of several), running ones as in `running`"""
    if done and isinstance(done[0], tuple):
        got = parse(text)[0]
        for d in done:
            w = expected(q.st, [n for n in d if n[0] == "x"], jobs, QS)
            if all(k in got and approx(q, got[k], w[k]) for k in w):
                done = d
                break
        else:
            done = done[-1]
    judge(q, text, [n for n in done if n[0] == "x"] + [n for n in running if n[0] == "y"], jobs, QS, what)


def M03(rule):
    """The exposition format."""
    for typ in ("sqlite3", "mongodb"):
        for hname, names in HISTORIES.items():
            for running in (True, False):
                def build(st, typ=typ, names=names, running=running):
                    world(st, typ, names, ("j", "k", "l", "gone"))
                    exporter(st, no_running=not running)
                    return collect(st)

                def check(q):
                    if not finished(q, "collecting metrics"):
                        return
                    samples, bad, types, order = parse(q.val)
                    loc = q.last_loc()
                    for b in ("the last line ends", "the help of a metric precedes its values", "the type of a metric is given once, before its values", "the values of a metric are together",
                              "labels are valid", "values are numbers", "no value is given twice", "each line is a value, or help or type"):
                        q.require(b not in bad, loc, b)
                    safe = {S("job " + n) for n in ("j", "k", "l", "gone")} | {r["run_id"] for r in q.st.tab.values()}
                    for (name, labels), v in samples.items():
                        q.require(None if v is None else v[0] != "top" and v != NONE, loc, "the value of {} is a number".format(name))
                        for a, x in labels:
                            q.require(None if x is None else isinstance(x, str) or x in safe, loc, "the label {} of {} needs no escapes".format(a, name))
                        fam = name
                        for suf in ("_sum", "_count", "_bucket"):
                            if name.endswith(suf) and types.get(name[:-len(suf)]) in ("summary", "histogram"):
                                fam = name[:-len(suf)]
                        t = types.get(fam)
                        q.require(t is not None, loc, "{} has a type".format(name))
                        labs = {a for a, x in labels}
                        q.require(("quantile" in labs) == (t == "summary" and fam == name), loc, "a quantile is one of a summary")
                        if t == "summary" and fam == name:
                            base = tuple((a, x) for a, x in labels if a != "quantile")
                            q.require((name + "_sum", base) in samples and (name + "_count", base) in samples, loc, "a summary has a sum and a count")
                        if t == "counter":
                            q.require(v is not None and (not is_num(v) or cval(v) >= 0), loc, "counters are not negative")
                rule.scenario("{}: {}{}".format(typ, hname, "" if running else ", --no-running"), build, check)


RULES = {"M01": M01, "M02": M02, "M03": M03}
