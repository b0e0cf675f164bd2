"""Rules over dsari-info: what it prints, and that it changes nothing."""
from . import sql
from .core import *  # noqa: F401,F403
from .dbmodel import Store
from .fsmodel import text, path
from .interp import OInst, PyExc, Stop
from .r_db import json_loads, row_of
from .r_sched import eq3, next_time, reload_with, no_files
from .r_config import mk
from .scenario import Anchor
from .values import mentions, KINDS

TIMES = ("schedule_time", "start_time", "stop_time")


def rows_of(st, typ, spec):
    """records: (name, job, stop time or None, exit code or None)"""
    out = []
    for name, job, stop, code, *when in spec:
        st.ip.data.setdefault("distinct", set()).add(S(job))
        st.ip.facts[("types", S(job))] = frozenset({"str"})
        st.ip.kinds[S(job)] = "str"
        r = row_of(st, typ, name, S(job), stop, code, *when)
        for c in TIMES:
            if c in r:
                # a time of the program, whatever the column keeps
                st.ip.facts[("types", r[c])] = frozenset({"datetime"})
                st.ip.kinds[r[c]] = "datetime"
                st.ip.set_range(app("len", app(".isoformat", r[c])), 32, 32)
        for v in (r["run_id"], r["trigger_type"]):
            st.ip.kinds[v] = "str"
            st.ip.facts[("types", v)] = frozenset({"str"})
        st.ip.set_range(app("len", r["run_id"]), 36, 36)
        st.ip.set_range(app("len", r["trigger_type"]), 8, 8)
        st.ip.set_range(app("len", S(job)), 20, 20)
        for d in (lin_add(r.get("stop_time", NOW), r["start_time"], -1), lin_add(r["start_time"], r["schedule_time"], -1)):
            st.ip.set_range(app("len", ("str", (d,))), 14, 14)
        st.ip.facts[("truthy", app("os.path.dirname", S("dbfile")))] = True
        st.ip.facts[("in", C("COLUMNS"), ("ext", "os.environ"))] = False
        st.ip.facts[("eq", app("item", app("locale.getlocale"), C(1)), C("UTF-8"))] = False
        st.ip.facts[("eq", C("file"), r["trigger_type"])] = False
        out.append(r)
    return out


def records(st, typ, done, running):
    json_loads(st)
    st.done, st.running_ = rows_of(st, typ, done), rows_of(st, typ, running)
    st.store = Store(st, typ, {"runs": st.done, "runs_running": st.running_})
    return st.store


def database(st, typ="sqlite3"):
    ip = st.ip
    for n in ("dbfile", "uri", "dbname"):
        ip.facts[("truthy", S(n))] = True
    ip.facts[("eq", S("dbfile"), NONE)] = False
    d = {"sqlite3": {"file": S("dbfile")}, "mongodb": {"uri": S("uri"), "database": S("dbname")}}[typ]
    return mk(ip, dict(d, type=typ))


def program(st, cls, opts, method="main", **kw):
    """runs the program's main class with these options"""
    ip = st.ip
    r = st.w.repo.resolve_dotted(cls)
    if not r or r[0] != "class":
        raise Anchor(cls)
    st.dir = S("config_dir")
    args = ip.alloc(OInst(("ext", "argparse.Namespace"), {k: mk(ip, v) for k, v in dict(opts, config_dir=st.dir, parser=("ext", "the parser")).items()}))
    st.args = args
    ip.ext_overrides["the parser.error"] = lambda ip, a, k: ip.throw("SystemExit", "usage")
    obj = ip.instantiate(r[1], [args], {})
    st.n0 = len(ip.events)
    m = r[1].find(method)
    if m is None:
        raise Anchor("{}.{}".format(cls, method))
    return obj, ip.call(("bound", obj, m), [], kw)


def info(st, *command, **opts):
    ip = st.ip
    o = dict(opts, command=command[0])
    if len(command) > 1:
        o["command_" + command[0]] = command[1]
    ip.ext_overrides.setdefault("sys.stdout.isatty", lambda ip, a, k: FALSE)
    st.dumped = []

    def dump(ip, a, k):
        v = a[0]
        st.dumped.append(v)
        return S("dumped {}".format(len(st.dumped)))
    for n in ("json.dumps", "yaml.safe_dump", "yaml.dump"):
        ip.ext_overrides[n] = dump
    return program(st, "dsari.info.Info", o)


def flatten(v, out):
    if v[0] == "str":
        for p in v[1]:
            flatten(p, out)
    elif is_const(v) and isinstance(v[2], bytes):
        out.append(v[2].decode("utf-8", "replace"))
    else:
        v = text(v)
        if v[0] == "str":
            flatten(v, out)
        elif is_const(v):
            out.append(str(v[2]))
        else:
            out.append(v)
    return out


def printed(q, since=None):
    """what was written to standard output: texts and values, in order"""
    out = []
    for e in q.events[q.st.n0 if since is None else since:]:
        if e.name in ("sys.stdout.write", "sys.stdout.buffer.write") and e.args:
            flatten(unencode(e.args[0]), out)
        elif e.name == "print" and "file" not in e.kw:
            for i, a in enumerate(e.args):
                if i:
                    out.append(" ")
                flatten(a, out)
            flatten(e.kw.get("end", C("\n")), out)
        elif e.name == ".write" and e.recv is not None and "stdin" in show(e.recv) and e.args:
            flatten(unencode(e.args[0]), out)
    return out


def unencode(v):
    if v[0] == "app" and str(v[1]).lstrip(".") == "encode":
        return v[2]
    return v


def lines(toks):
    """printed tokens, split into lines"""
    out, cur = [], []
    for t in toks:
        if isinstance(t, str):
            parts = t.split("\n")
            for i, p in enumerate(parts):
                if i:
                    out.append(cur)
                    cur = []
                if p:
                    cur.append(p)
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def shows(t, v):
    """does the text t contain v (and not only depend on its length)"""
    if t == v:
        return True
    if isinstance(t, str) or t[0] not in ("app", "str", "tuple", "lin") or t[:2] == ("app", "len"):
        return False
    stack = list(t[1:])
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in KINDS:
                if shows(x, v):
                    return True
            else:
                stack.extend(x)
    return False


def has(line, v):
    return any(shows(t, v) for t in line)


def fields(line):
    """tab separated fields of a line"""
    out, cur = [], []
    for t in line:
        if isinstance(t, str):
            parts = t.split("\t")
            for i, p in enumerate(parts):
                if i:
                    out.append(cur)
                    cur = []
                if p:
                    cur.append(p)
        else:
            cur.append(t)
    out.append(cur)
    return out


def finished(q, what):
    if q.outcome == "stop":
        q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
        return False
    if q.outcome == "exc":
        q.require(None if q.p.taint else False, q.last_loc(), "{} does not fail ({})".format(what, exc_name(q.ip, q.val)))
        return False
    return True


# -- run list --------------------------------------------------------------------

DONE = [("x0", "job j", 1000, 0), ("x1", "job k", 2000, 3, 1500), ("x2", "job j", 3000, 143, 5, 2900), ("x3", "job gone", 4000, 0, 2500, 1100)]
RUNNING = [("y0", "job j", None, None, 5, 2, 1205), ("y1", "job gone", None, None, 5, 2, 100)]
STARTS = ["y1", "x1", "x0", "y0", "x3", "x2"]
FILTERS = {
    "all runs": ({}, ("x0", "x1", "x2", "x3", "y0", "y1")),
    "a job": ({"job": ["job j"]}, ("x0", "x2", "y0")),
    "two jobs": ({"job": ["job k", "job gone"]}, ("x1", "x3", "y1")),
    "a run": ({"run": ["x1 run_id"]}, ("x1",)),
    "a running run": ({"run": ["y1 run_id"]}, ("y1",)),
    "runs": ({"run": ["x3 run_id", "y0 run_id", "x1 run_id"]}, ("x1", "x3", "y0")),
    "a job and runs": ({"job": ["job j"], "run": ["x1 run_id", "x2 run_id", "y0 run_id", "y1 run_id"]}, ("x2", "y0")),
    "nothing": ({"job": ["job k"], "run": ["y0 run_id"]}, ()),
}


def scene(st, typ="sqlite3"):
    ip = st.ip
    no_files(st)
    next_time(st)
    st.j, st.k = st.job("j", schedule=S("schedule j")), st.job("k")
    ip.data.setdefault("distinct", set()).update((S("job nowhere"), S("job gone")))
    records(st, typ, DONE, RUNNING)
    reload_with(st, [st.j, st.k], database=database(st, typ))


def by_name(st):
    return {n: r for (n, *_), r in zip(DONE + RUNNING, st.done + st.running_)}


def mode_of(e):
    """mode of an opened file: a constant or None; "t" is text of any bytes, "T" if also of any line ends"""
    raw = e.name in ("open", "io.open", "codecs.open")
    m = e.args[1] if len(e.args) > 1 else e.kw.get("mode", C("r" if raw else "rb"))
    if not is_const(m):
        return None
    if raw:
        opts = {n: e.args[i] if len(e.args) > i else e.kw.get(n) for i, n in ((3, "encoding"), (4, "errors"), (5, "newline"))}
    else:
        opts = {n: e.kw.get(n) for n in ("encoding", "errors", "newline")}
    if ("b" in m[2] or not raw and "t" not in m[2]) or opts["errors"] not in LENIENT or opts["encoding"] is None or not is_utf8(opts["encoding"]):
        return m[2] if raw or "t" in m[2] else m[2].replace("b", "") + "b"
    return "T" if opts["newline"] == C("") else "t"


LENIENT = [C(x) for x in ("replace", "backslashreplace", "surrogateescape", "xmlcharrefreplace")]


def is_utf8(enc):
    return is_const(enc) and str(enc[2]).lower().replace("-", "_") in ("utf_8", "utf8", "u8")


def read_part(e, v, mode, lines=True):
    """what .read() gives"""
    if mode == "T" or mode == "t" and not lines:
        v = app(".decode", v, C("utf-8"), C("replace"))
    elif mode is not None and "b" not in mode:
        v = app("text mode", v)
    a = e.args[0] if e.args else e.kw.get("size", NONE)
    return v if a in (NONE, C(-1)) else app("part", v, a)


def uncompressed(st, e):
    """what .decompress() gives"""
    r = show(e.recv or NONE)
    if "LZMADecompressor" in r and not {"unused_data", "eof", "needs_input"} & st.w.repo.attr_names:
        # there may be more than one
        return app("first stream", app("lzma", *e.args))
    return app("lzma" if "lzma" in r.lower() + e.name else "gzip", *e.args)


def distorted(v):
    """is this less or something else than the content of a file?"""
    for t in subterms(v):
        if t[0] == "app" and (t[1] in ("part", "text mode", "first stream") or (t[1] == ".decode" and (t[4] in (C("strict"), C("ignore")) or is_const(t[3]) and not is_utf8(t[3])))):
            return True
    return False


def I02(rule):
    """Lists of runs."""
    for typ in ("sqlite3", "mongodb"):
        for fmt in ("json", "yaml", "tabular", "pretty"):
            for sel, (opts, want) in FILTERS.items():
                if (typ == "mongodb" or fmt == "yaml") and sel not in ("all runs", "a job and runs"):
                    continue
                def build(st, fmt=fmt, opts=opts, typ=typ):
                    scene(st, typ)
                    o = {"job": None, "run": None, "format": fmt}
                    o.update({k: [S(x) for x in v] for k, v in opts.items()})
                    info(st, "run", "list", **o)
                    return NONE

                def check(q, fmt=fmt, want=want, sel=sel):
                    what = "run list --format {}".format(fmt)
                    if not finished(q, what):
                        return
                    judge_list(q, fmt, want, "{}, {}".format(what, sel))
                rule.scenario("run list, {}, {}, {}".format(typ, fmt, sel), build, check)

    # the output of one run
    for name, job in (("x1", "job k"), ("x3", "job gone"), ("y0", "job j")):
        for tty in (False, True):
            for form in ("", ".gz", ".xz", None):
                def build(st, name=name, job=job, form=form, tty=tty):
                    scene(st)
                    ip = st.ip
                    st.fn = path(st, S("data_dir"), C("runs"), S(job), S(name + " run_id"), C("output.txt"))
                    there = set() if form is None else {text(make_str([st.fn, C(form)]))}
                    ip.ext_overrides["os.path.isfile"] = lambda ip, a, k: C(text(a[0]) in there)
                    ip.ext_overrides["os.path.exists"] = lambda ip, a, k: C(text(a[0]) in there)
                    ip.ext_overrides["sys.stdout.isatty"] = lambda ip, a, k: C(tty)
                    st.opened, st.modes = {}, {}

                    def hook(e, old=st.hook):
                        if e.name in ("open", "io.open", "gzip.open", "lzma.open", "bz2.open", "lzma.LZMAFile", "gzip.GzipFile"):
                            h = ip.fresh("file")
                            ip.kinds[h] = "object"
                            st.opened[h] = (e.name, text(e.args[0]))
                            st.modes[h] = mode_of(e)
                            return h
                        if e.name == ".read" and e.recv in st.opened:
                            return read_part(e, app("content", e.recv), st.modes[e.recv])
                        if e.args and (e.name == ".decompress" or e.name.endswith((".decompress", ".decompressobj"))):
                            return uncompressed(st, e)
                        return old(e) if old else None
                    st.hook = hook
                    info(st, "run", "output", run=S(name + " run_id"))
                    return NONE

                def check(q, form=form, name=name):
                    what = "run output"
                    if not finished(q, what):
                        return
                    toks = [t for t in printed(q) if t != ""]
                    if any(not b and k[0] == "truthy" and any(mentions(k[1], h) for h in q.st.opened) for k, b, l in q.p.decisions):
                        other = [t for t in toks if isinstance(t, str) or not any(mentions(t, h) for h in q.st.opened)]
                        q.require(not other, q.last_loc(), "run output prints nothing if the output is empty")
                        return
                    if form is None:
                        q.require(not toks, q.last_loc(), "run output prints nothing if no output was kept")
                        return
                    st = q.st
                    exp = text(make_str([st.fn, C(form)]))
                    ok = len(toks) == 1 and not isinstance(toks[0], str)
                    q.require(ok or (None if any(not isinstance(t, str) and t[0] == "top" for t in toks) else False), q.last_loc(), "run output prints exactly the output which was kept")
                    if not ok:
                        return
                    q.require(not distorted(toks[0]), q.last_loc(), "run output prints all of the output, as it is, whatever its bytes are")
                    used = {st.opened[t] for t in subterms(toks[0]) if t in st.opened}
                    q.require({p for n, p in used} == {exp}, q.last_loc(), "run output prints the output.txt{} of the run".format(form))
                    dec = "gzip" if any(n.startswith("gzip") for n, p in used) or "gzip" in repr(toks[0]) else \
                        "lzma" if any(n.startswith("lzma") for n, p in used) or "lzma" in repr(toks[0]).lower() else ""
                    q.require(dec == {"": "", ".gz": "gzip", ".xz": "lzma"}[form], q.last_loc(), "run output uncompresses what was compressed")
                rule.scenario("run output, {}{}, {}".format(name, form or (" without" if form is None else ""), "terminal" if tty else "file"), build, check)

    def build(st):
        scene(st)
        info(st, "run", "output", run=S("id nowhere"))
        return NONE

    def check(q):
        if q.outcome == "stop":
            q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
            return
        q.require(q.outcome == "exc" and "SystemExit" in exc_name(q.ip, q.val), q.last_loc(), "run output of an unknown run ends in an error")
    for n in ("id nowhere",):
        rule.scenario("run output, unknown run", lambda st: (st.ip.data.setdefault("distinct", set()).add(S("id nowhere")), build(st))[1], check)

    # run tail
    for opts, want in (([], ("y0", "y1")), (["y1 run_id"], ("y1",)), (["x1 run_id"], ()), (["x0 run_id", "y0 run_id"], ("y0",))):
        for missing in ((), ("y0",)):
            def build(st, opts=opts, missing=missing):
                scene(st)
                ip = st.ip
                st.files = {n: path(st, S("data_dir"), C("runs"), S(j), S(n + " run_id"), C("output.txt")) for n, j, *_ in DONE + RUNNING}
                there = {text(p) for n, p in st.files.items() if n not in missing}
                for f in ("isfile", "exists"):
                    ip.ext_overrides["os.path." + f] = lambda ip, a, k: C(text(a[0]) in there)
                info(st, "run", "tail", run=[S(x) for x in opts])
                return NONE

            def check(q, opts=opts, want=want, missing=missing):
                if q.outcome == "stop" and q.val not in ("wait", "exec"):
                    q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                    return
                if q.outcome == "exc":
                    q.require(False, q.last_loc(), "run tail does not fail ({})".format(exc_name(q.ip, q.val)))
                    return
                ex = [e for e in q.events if e.name.startswith("os.exec") or e.name in ("subprocess.call", "subprocess.run", "subprocess.Popen", "subprocess.check_call")]
                exp = {text(q.st.files[n]) for n in want if n not in missing}
                if not exp:
                    q.require(not ex, ex[0].loc if ex else q.last_loc(), "run tail waits while there is nothing to show")
                    return
                q.require(bool(ex), q.last_loc(), "run tail shows output which is there")
                if not ex:
                    return
                a = ex[0].args[-1]
                ms, more = q.members(a)
                if ms is None:
                    q.require(None, ex[0].loc, "arguments of tail not understood")
                    return
                got = [text(m) for m in ms if not is_const(m)]
                q.require(sorted(map(repr, got)) == sorted(map(repr, exp)), ex[0].loc, "run tail shows the outputs of the running runs asked for, each once")
            rule.scenario("run tail {}{}".format(" ".join(opts) or "(all)", " without a file" if missing else ""), build, check)


def judge_list(q, fmt, want, what):
    st = q.st
    loc = next((e.loc for e in reversed(q.events) if "stdout" in e.name or e.name == "print"), q.last_loc())
    all_ = by_name(st)
    if fmt in ("json", "yaml"):
        if len(st.dumped) != 1:
            q.require(None if len(st.dumped) else False, loc, "{} prints one document".format(what))
            return
        q.require(S("dumped 1") in printed(q), loc, "{} prints the document".format(what))
        o = q.ip.deref(st.dumped[0])
        if o is None or o.kind != "dict" or o.rest is not None:
            q.require(None, loc, "document not understood")
            return
        d = {k: v for k, v in o.entries}
        q.require(sorted(map(repr, d)) == sorted(repr(all_[n]["run_id"]) for n in want), loc, "{} prints exactly the matching runs".format(what))
        for n in want:
            r = all_[n]
            e = q.ip.deref(d.get(r["run_id"], NONE))
            if e is None or e.kind != "dict":
                continue
            f = {k[2]: v for k, v in e.entries if is_const(k)}
            for c in ("trigger_type", "trigger_data", "run_data", "exit_code"):
                if n[0] == "y" and c == "exit_code":
                    q.require(f.get(c, NONE) == NONE, loc, "{} gives no exit code of a running run".format(what))
                    continue
                if c not in f:
                    q.require(False, loc, "{} prints {}".format(what, c))
                    continue
                x = r[c][2] if r[c][0] == "app" and r[c][1] == "json.dumps" else r[c]
                q.require(f[c] == x or same_data(q, f[c], x) or eq3(q, f[c], x), loc, "{} prints the recorded {}".format(what, c))
            q.require(f.get("job_name", NONE) == r["job_name"], loc, "{} prints the job of a run".format(what))
            for c in TIMES:
                v = f.get(c, NONE)
                if n[0] == "y" and c == "stop_time":
                    q.require(v == NONE, loc, "{} gives no end of a running run".format(what))
                else:
                    q.require(only(v, r[c], all_), loc, "{} prints the recorded {}".format(what, c))
        return
    ls = [l for l in lines(printed(q))]
    ids = {n: r["run_id"] for n, r in all_.items()}
    if fmt == "pretty":
        ls = [l for l in ls if any(has(l, i) for i in ids.values())]
    q.require(len(ls) == len(want), loc, "{} prints one line for each matching run".format(what))
    for n in want:
        r = all_[n]
        mine = [l for l in ls if has(l, r["run_id"])]
        q.require(len(mine) == 1, loc, "{} prints each matching run once".format(what))
        if len(mine) != 1:
            continue
        l = mine[0]
        q.require(not any(has(l, i) for m, i in ids.items() if m != n), loc, "{} prints each run on its own line".format(what))
        q.require(has(l, r["job_name"]), loc, "{} prints the job of a run".format(what))
        q.require(has(l, r["trigger_type"]), loc, "{} prints the trigger type of a run".format(what))
        q.require(has(l, r["start_time"]), loc, "{} prints the start of a run".format(what))
        other = [x[c] for m, x in all_.items() if m != n for c in TIMES + ("trigger_type",) if c in x]
        q.require(not any(has(l, x) for x in other), loc, "{} prints nothing of another run with a run".format(what))
        if fmt == "tabular":
            fs = fields(l)
            q.require(any(has(f, r["schedule_time"]) for f in fs), loc, "{} prints the scheduled time of a run".format(what))
            if n[0] == "x":
                q.require(any(has(f, r["stop_time"]) for f in fs), loc, "{} prints the end of a run".format(what))
                q.require([str(r["exit_code"][2])] in fs, loc, "{} prints the exit code of a run".format(what))
            else:
                q.require(not any(len(f) == 1 and isinstance(f[0], str) and f[0].strip("-").isdigit() for f in fs), loc, "{} prints no exit code of a running run".format(what))
            q.require(len(fs) == len(fields(ls[0])), loc, "{} prints the same columns for each run".format(what))
        else:
            words = " ".join(t for t in l if isinstance(t, str)).split()
            code = str(r["exit_code"][2]) if n[0] == "x" else None
            if code is not None:
                q.require(code in words, loc, "{} prints the exit code of a run".format(what))
            else:
                q.require(not any(w.isdigit() for w in words), loc, "{} prints no exit code of a running run".format(what))
    if fmt in ("tabular", "pretty"):
        order = [next((n for n in want if has(l, ids[n])), None) for l in ls]
        t = [STARTS.index(n) for n in order if n]
        q.require(t == sorted(t) or t == sorted(t, reverse=True), loc, "{} prints runs in the order of their starts".format(what))


def same_data(q, a, b):
    oa, ob = q.ip.deref(a), q.ip.deref(b)
    if oa is None or ob is None or oa.kind != "dict" or ob.kind != "dict":
        return False
    return list(oa.entries) == list(ob.entries)


def only(v, x, all_):
    """is v made of x, and of no other recorded time"""
    if not mentions(v, x):
        return False if v[0] != "top" else None
    return not any(mentions(v, r[c]) for r in all_.values() for c in TIMES if c in r and r[c] != x)


# -- a run which ends meanwhile ----------------------------------------------------


def ends_meanwhile(st, name, appears, vanishes):
    """the run is recorded as ended before the appears-th reading of a table
    of runs, and no longer as running before the vanishes-th"""
    store, rid = st.store, S(name + " run_id")
    r = next(r for r in st.running_ if r["run_id"] == rid)
    done = next(x for x in st.done if x["run_id"] != rid)
    ended = dict(r, stop_time=S(name + " stop_time"), exit_code=C(0))
    st.ip.facts[("types", ended["stop_time"])] = st.ip.facts[("types", done["stop_time"])]
    st.ip.kinds[ended["stop_time"]] = st.ip.kinds[done["stop_time"]]
    st.ip.set_range(app("len", app(".isoformat", ended["stop_time"])), 32, 32)
    st.reads = []
    old = st.rows

    def rows(e):
        t = e.args[0] if e.args else NONE
        if e.name in (".find", ".find_one", ".aggregate"):
            mine = True
        else:
            p = sql.parse(t[2]) if is_const(t) and isinstance(t[2], str) else None
            mine = p is not None and p.kind == "SELECT" and p.table in ("runs", "runs_running")
        if mine:
            n = len(st.reads)
            st.reads.append(e)
            if n == appears:
                store.tables["runs"].append(ended)
            if n == vanishes:
                store.tables["runs_running"] = [x for x in store.tables["runs_running"] if x["run_id"] != rid]
        return old(e)
    st.rows = rows
    st.rid = rid


MOMENTS = [("sqlite3", 0, 0), ("sqlite3", 1, 1), ("sqlite3", 2, 2), ("sqlite3", 3, 3),
           ("mongodb", 0, 0), ("mongodb", 1, 1), ("mongodb", 2, 2), ("mongodb", 0, 1), ("mongodb", 1, 2), ("mongodb", 0, 2), ("mongodb", 0, 9)]


def I03(rule):
    """A run which ends while it is looked up."""
    for typ, a, b in MOMENTS:
        when = "{}, recorded before reading {} and removed before reading {}".format(typ, a + 1, b + 1)
        for fmt in ("json", "tabular", "pretty"):
            for opts in ({}, {"run": ["y0 run_id"]}, {"job": ["job j"]}):
                if fmt == "pretty" and (opts or typ == "mongodb"):
                    continue
                def build(st, typ=typ, a=a, b=b, fmt=fmt, opts=opts):
                    scene(st, typ)
                    ends_meanwhile(st, "y0", a, b)
                    o = {"job": None, "run": None, "format": fmt}
                    o.update({k: [S(x) for x in v] for k, v in opts.items()})
                    info(st, "run", "list", **o)
                    return NONE

                def check(q, fmt=fmt):
                    if not finished(q, "run list"):
                        return
                    st = q.st
                    loc = st.reads[-1].loc if st.reads else q.last_loc()
                    msg = "a run which ends while runs are listed is listed once"
                    if fmt == "json":
                        if len(st.dumped) != 1:
                            q.require(None, loc, "document not understood")
                            return
                        o = q.ip.deref(st.dumped[0])
                        if o is None or o.kind != "dict" or o.rest is not None:
                            q.require(None, loc, "document not understood")
                            return
                        q.require(sum(k == st.rid for k, v in o.entries) == 1, loc, msg)
                        return
                    ls = [l for l in lines(printed(q)) if has(l, st.rid)]
                    q.require(len(ls) == 1, loc, msg)
                rule.scenario("run list {} {}, {}".format(fmt, opts, when), build, check)

        def build(st, typ=typ, a=a, b=b):
            scene(st, typ)
            ip = st.ip
            ends_meanwhile(st, "y0", a, b)
            fn = text(path(st, S("data_dir"), C("runs"), S("job j"), st.rid, C("output.txt")))
            for f in ("isfile", "exists"):
                ip.ext_overrides["os.path." + f] = lambda ip, a, k: C(text(a[0]) == fn)
            info(st, "run", "output", run=st.rid)
            return NONE

        def check(q):
            if q.outcome == "exc" and "SystemExit" in exc_name(q.ip, q.val):
                q.require(False, q.st.reads[-1].loc if q.st.reads else q.last_loc(), "the output of a run which ends meanwhile is found")
                return
            if finished(q, "run output"):
                q.require(True, q.last_loc(), "the output of a run which ends meanwhile is found")
        rule.scenario("run output, {}".format(when), build, check)


RULES = {"I02": I02, "I03": I03}
