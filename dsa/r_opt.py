"""Without optional libraries."""
from .core import *  # noqa: F401,F403
from .fsmodel import Files, path, text
from .interp import Stop
from .r_config import load, accepted, is_refusal, entry_of, same, td_model
from .r_info import info, finished, printed, judge_list, has, read_part, mode_of, uncompressed, distorted, lines
from .r_look import look, main_of, judge_dir, judge_check, label
from .values import make_str, subterms
from .r_trigger import world, tfile, future, added

PROGRAMS = ("dsari.daemon", "dsari.info", "dsari.prometheus_exporter", "dsari.render")
# croniter needs python-dateutil itself
LIBRARIES = {
    "PyYAML": ("yaml",), "croniter": ("croniter",), "python-dateutil": ("dateutil", "croniter"), "Jinja2": ("jinja2",),
    "IPython": ("IPython",), "termcolor": ("termcolor",), "psycopg2": ("psycopg2",), "mysqlclient": ("MySQLdb",), "pymongo": ("pymongo",),
}


def missing(repo):
    """{what is missing: names of modules}"""
    out = dict(LIBRARIES)
    documented = {n for ns in LIBRARIES.values() for n in ns}
    for n in sorted({n.split(".")[0] for n in repo.optional()} - documented):
        if n not in ("shlex", "pipes"):
            out[n] = (n,)
    out["any of them"] = tuple(sorted({n for ns in out.values() for n in ns}))
    return out


CRON, RRULE = "0 3 * * *", "RRULE:FREQ=DAILY"


def C10(rule):
    repo = rule.w.repo
    libs = missing(repo)

    # programs start
    for lib, names in libs.items():
        for prog in PROGRAMS:
            if prog == "dsari.render" and "jinja2" in names:
                continue
            if prog not in repo.modules:
                rule.require(None, prog, "no module " + prog)
                continue
            repo.absent = frozenset(names)
            w = repo.why_gone(prog)
            repo.absent = frozenset()
            m, s = w[1] if w else (None, None)
            rule.require(w is None, "{}:{}".format(m.path, s.lineno) if w else prog, "{} starts without {}".format(prog, lib))
            if w is not None:
                continue

            def build(st, prog=prog):
                st.ip.data["environ"] = st.ip.new_dict([(C("HOME"), C("/home/u"))])
                for n in ("exists", "isfile", "isdir"):
                    st.ip.ext_overrides["os.path." + n] = lambda ip, a, k: FALSE
                for n in sorted(closure(repo, prog)):
                    st.ip.import_module(repo.modules[n])
                return NONE

            def check(q, prog=prog, lib=lib):
                if q.outcome == "exc":
                    q.require(None if q.p.taint else False, q.last_loc(), "{} starts without {} ({})".format(prog, lib, exc_name(q.ip, q.val)))
                else:
                    q.require(True, q.last_loc(), "{} starts without {}".format(prog, lib))
            rule.scenario("{} is imported, without {}".format(prog, lib), build, check, absent=names)

    # jobs remain, those without a schedule for triggers only
    for lib, names in libs.items():
        for form in ("json", "yaml"):
            def build(st, form=form):
                td_model(st)
                real_schedules(st)
                jobs = {n: dict({"command": ["x"], "max_execution": 5}, **({"schedule": s} if s else {})) for n, s in (("cron", CRON), ("rrule", RRULE), ("none", None))}
                st.ip.ext_overrides["dateutil.rrule.rrulestr"] = lambda ip, a, k: S("a rule")
                raw = {"jobs": jobs}
                st.real = True
                return load(st, raw, files={"dsari." + form: raw}, real=True)

            def check(q, form=form, lib=lib, names=names):
                if q.outcome == "stop":
                    q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                    return
                if form == "yaml" and "yaml" in names:
                    q.require(is_refusal(q), q.last_loc(), "a YAML configuration is refused with a ConfigError without {}".format(lib))
                    return
                q.require(accepted(q), q.last_loc(), "a configuration is accepted without {}{}".format(lib, " ({})".format(exc_name(q.ip, q.val)) if q.outcome == "exc" else ""))
                if not accepted(q):
                    return
                for n, s, needs in (("cron", CRON, "croniter"), ("rrule", RRULE, "dateutil"), ("none", None, None)):
                    j = entry_of(q, "jobs", C(n))
                    q.require(j is not None, q.last_loc(), "a job is there without {}".format(lib))
                    if j is None:
                        continue
                    v = q.attr(j, "schedule")
                    if needs in names:
                        q.require(v == NONE, q.last_loc(), "a job whose schedule needs {} runs by manual triggers only without {}".format(needs, lib))
                    else:
                        q.require(same(q, v, s), q.last_loc(), "a job has its schedule without {}".format(lib))
                    q.require(same(q, q.attr(j, "command"), ["x"]), q.last_loc(), "a job has its command without {}".format(lib))
            rule.scenario("jobs of a {} configuration, without {}".format(form.upper(), lib), build, check, absent=names)

    # errors are refused as with the libraries
    for lib, names in libs.items():
        def build(st):
            def broken():
                st.ip.throw("json.JSONDecodeError", "Expecting value")
            ip = st.ip
            ip.overrides.pop("dsari.config.ConfigLoader.load_dir", None)
            st.dir = S("config_dir")
            ip.kinds[st.dir] = "str"
            st.fs = Files(st, {path(st, st.dir, C("dsari.json")): broken})
            return ip.call(("fn", st.w.repo.funcs["dsari.config.get_config"]), [st.dir], {})

        def check(q, lib=lib):
            if q.outcome == "stop":
                q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                return
            q.require(is_refusal(q), q.last_loc(), "a configuration which is no JSON is refused with a ConfigError without {}".format(lib))
        rule.scenario("no JSON, without {}".format(lib), build, check, absent=names)

    # files in YAML are left alone, those in JSON are used
    for exts in (("yaml",), ("json", "yaml")):
        def build(st, exts=exts):
            st.d = {x: st.ip.new_dict([(C("a"), S("x " + x))]) for x in exts}
            world(st, {tfile(st, "j", x): st.d[x] for x in exts})
            future(st, S("mtime"))
            n = [0]

            def turn(e):
                n[0] += 1
                if n[0] > 2:
                    raise Stop("wait")
                st.ip.now = lin_add(NOW, C(61 * n[0]))
            st.on_sleep = lambda e: None if e.args == [C(0)] else turn(e)

            def wait(e):
                turn(e)
                return ("tuple", (C(0), C(0), S("rusage")))
            st.on_wait = wait
            return st.loop()

        def check(q, exts=exts):
            loc = q.last_loc()
            q.require(q.outcome != "exc", loc, "the scheduler goes on with a trigger in YAML without PyYAML")
            new = added(q)
            new = None if new is None else [m for m in new if q.attr(m, "trigger_type") == C("file")]
            for e in q.evs("os.remove", "os.rename"):
                q.require(text(e.args[0]) != text(tfile(q.st, "j", "yaml")), e.loc, "a trigger in YAML stays without PyYAML")
            want = 1 if "json" in exts else 0
            q.require(None if new is None else len(new) == want, loc, "{} queued without PyYAML".format("a trigger in JSON is" if want else "a trigger in YAML is not"))
        rule.scenario("triggers in {}, without PyYAML".format(" and ".join(exts)), build, check, absent=["yaml"])

    # times of triggers
    for what, types, td in (("no", (), None), ("a number as", ("int", "float"), "number"), ("a text as", ("str",), "text")):
        def build(st, td=td, types=types):
            ip = st.ip
            v = S("the time")
            if td:
                ip.facts[("types", v)] = frozenset(types)
                if td == "text":
                    ip.kinds[v] = "str"
                else:
                    future(st, v)
            world(st, {tfile(st, "j"): ip.new_dict([(C("schedule_time"), v)] if td else [])})
            future(st, S("mtime"))
            st.on_wait = lambda e: ("tuple", (C(0), C(0), S("rusage")))
            return st.loop()

        def check(q, what=what, td=td):
            loc = q.last_loc()
            q.require(q.outcome != "exc", loc, "the scheduler goes on with {} time of a trigger, without python-dateutil".format(what))
            new = added(q)
            q.require(None if new is None else len(new) == (0 if td == "text" else 1), loc, "a trigger with {} time is {}, without python-dateutil".format(what, "refused" if td == "text" else "queued"))
        rule.scenario("trigger with {} time, without python-dateutil".format(what), build, check, absent=LIBRARIES["python-dateutil"])

    # dsari-info
    ALL = ("x0", "x1", "x2", "x3", "y0", "y1")
    for lib, names in libs.items():
        for cmd, fmt, tty in (
            (("run", "list", "--format=json"), "json", False), (("run", "list", "--format=tabular"), "tabular", True),
            (("run", "list"), "pretty", True), (("run", "list"), "pretty", False), (("run", "list", "--format=yaml"), "yaml", False),
        ):
            if fmt == "pretty" and not {"yaml", "termcolor"} & set(names):
                continue

            def build(st, cmd=cmd, tty=tty):
                look(st, tty=tty)
                st.ip.ext_overrides.setdefault("sys.stdout.isatty", lambda ip, a, k: FALSE)
                st.dumped = []

                def dump(ip, a, k):
                    st.dumped.append(a[0])
                    return S("dumped {}".format(len(st.dumped)))
                for n in ("PAGER", "LESS"):
                    st.ip.facts[("in", C(n), ("ext", "os.environ"))] = False
                for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
                    st.ip.ext_overrides[n] = dump
                main_of(st, "info", *cmd)
                return NONE

            def check(q, fmt=fmt, lib=lib, names=names, tty=tty):
                if fmt == "yaml" and "yaml" in names:
                    usage = q.outcome == "exc" and ("SystemExit" in exc_name(q.ip, q.val) or "Usage" in exc_name(q.ip, q.val))
                    q.require(usage or (None if q.p.taint or q.outcome == "stop" else False), q.last_loc(), "dsari-info refuses to print YAML without {}".format(lib))
                    return
                if not finished(q, "dsari-info run list, without {},".format(lib)):
                    return
                if tty and "termcolor" not in names:
                    # in colors
                    ls = lines(printed(q))
                    for n in ALL:
                        q.require(len([l for l in ls if has(l, S(n + " run_id"))]) == 1, q.last_loc(), "run list, without {}, prints each run once".format(lib))
                    return
                judge_list(q, fmt, ALL, "run list, without {},".format(lib))
            rule.scenario("dsari-info {}{}, without {}".format(label(cmd), ", terminal" if tty else "", lib), build, check, absent=names)

        def build(st):
            look(st)
            info(st, "config", "check")
            return NONE
        rule.scenario("dsari-info config check, without {}".format(lib), build, lambda q: judge_check(q, True), absent=names)

    for lib in [n for n in libs if libs[n] == ("lzma",)]:
        for form in ("", ".gz", ".xz"):
            def build(st, form=form):
                look(st, nofiles=True)
                ip = st.ip
                st.fn = path(st, S("data_dir"), C("runs"), S("job k"), S("x1 run_id"), C("output.txt"))
                there = {text(make_str([st.fn, C(form)]))}
                for f in ("isfile", "exists"):
                    ip.ext_overrides["os.path." + f] = lambda ip, a, k: C(text(a[0]) in there)
                st.opened = {}

                def hook(e, old=st.hook):
                    if e.name in ("open", "io.open", "gzip.open", "gzip.GzipFile"):
                        h = ip.fresh("file")
                        ip.kinds[h] = "object"
                        st.opened[h] = (mode_of(e), text(e.args[0]))
                        return h
                    if e.name == ".read" and e.recv in st.opened:
                        return read_part(e, app("content", e.recv), st.opened[e.recv][0])
                    if e.args and (e.name == ".decompress" or e.name.endswith((".decompress", ".decompressobj"))):
                        return uncompressed(st, e)
                    return old(e) if old else None
                st.hook = hook
                info(st, "run", "output", run=S("x1 run_id"))
                return NONE

            def check(q, form=form, lib=lib):
                if not finished(q, "run output{}, without {},".format(form, lib)):
                    return
                if any(k[0] == "truthy" and not b for k, b, l in q.p.decisions):
                    return  # no output
                toks = [t for t in printed(q) if t != ""]
                ok = (not toks) if form == ".xz" else len(toks) == 1 and not isinstance(toks[0], str) and not distorted(toks[0]) \
                    and {q.st.opened[t][1] for t in subterms(toks[0]) if t in q.st.opened} == {text(make_str([q.st.fn, C(form)]))}
                q.require(ok or (None if any(not isinstance(t, str) and t[0] == "top" for t in toks) else False), q.last_loc(), "output.txt{} is {} without {}".format(form, "left alone" if form == ".xz" else "shown", lib))
            rule.scenario("dsari-info run output of output.txt{}, without {}".format(form, lib), build, check, absent=libs[lib])

    def build(st):
        look(st)
        info(st, "shell")
        return NONE

    def check(q):
        if finished(q, "dsari-info shell, without IPython,"):
            q.require(any(e.name.endswith("interact") for e in q.events) or None, q.last_loc(), "dsari-info shell is Python's without IPython")
    rule.scenario("dsari-info shell, without IPython", build, check, absent=("IPython",))


def closure(repo, prog):
    """the modules of the repository which the program imports"""
    from .front import needed

    out, todo = set(), [prog]
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        for s, x in needed(repo.modules[n]):
            parts = x.split(".")
            todo.extend(".".join(parts[:i]) for i in range(1, len(parts) + 1) if ".".join(parts[:i]) in repo.modules)
    return out


def real_schedules(st):
    st.ip.overrides.pop("dsari.utils.get_next_schedule_time", None)


RULES = {"C10": C10}
