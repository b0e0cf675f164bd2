"""Rules over the database backends and the queries they send."""
import re

from . import clock, sql
from .core import *  # noqa: F401,F403
from .dbmodel import Store
from .fsmodel import text
from .interp import Stop, PyExc
from .scenario import NOW, Anchor, State
from .r_sched import sql_events, insert_values, where_values, is_commit, eq3, no_files, next_time, RUNNING_COLS, DONE_COLS

SQL_TYPES = ("sqlite3", "mysql", "postgresql")
ALL = SQL_TYPES + ("mongodb",)


def backend(st, typ, conf=None, quiet=True):
    """the database object of a configuration with this type"""
    ip = st.ip
    d = [(C("type"), C(typ) if isinstance(typ, str) else typ)] if typ is not None else []
    d += conf or {
        "sqlite3": [(C("file"), S("dbfile"))],
        "mysql": [(C("connection"), S("connection"))],
        "postgresql": [(C("dsn"), S("dsn"))],
        "mongodb": [(C("uri"), S("uri")), (C("database"), S("dbname"))],
    }.get(typ, [])
    ip.facts[("truthy", S("dbfile"))] = True
    ip.facts[("truthy", S("uri"))] = True
    ip.facts[("truthy", S("dbname"))] = True
    ip.facts[("eq", S("dbfile"), NONE)] = False
    ip.ext_overrides.setdefault("os.path.exists", lambda ip, a, k: TRUE)
    ip.ext_overrides.setdefault("os.path.isdir", lambda ip, a, k: TRUE)
    jobs = getattr(st, "jobs_", [])
    st.cfg = st.config(jobs, database=ip.new_dict(d))
    g = st.w.repo.funcs.get("dsari.database.get_database")
    if g is None:
        raise Anchor("dsari.database.get_database")
    n0 = len(ip.events)
    v = ip.call(("fn", g), [st.cfg], {})
    st.init_events = ip.events[n0:]
    if quiet:
        del ip.events[n0:]
    return v


def cls_of(ip, v):
    o = ip.deref(v)
    return o.cls if o is not None and o.kind == "inst" else None


def done_run(st, j, name="r0"):
    ip = st.ip
    r = st.running(j, name, age=st.param("age", 0))
    o = ip.deref(r)
    o.attrs["stop_time"] = NOW
    o.attrs["exit_code"] = st.param("code", 0, 192)
    ip.kinds[S("code")] = "int"
    o.attrs["trigger_data"] = ip.new_dict([(C("td"), S("tdv"))])
    o.attrs["run_data"] = ip.new_dict([(C("rd"), S("rdv"))])
    ip.kinds[S("trigger_type " + name)] = "str"
    return r


def meth(ip, v, name, *args, **kw):
    return ip.call(ip.getattr_(v, name), list(args), kw)


OPS = ("insert_running_run", "insert_run", "clear_runs_running", "get_previous_runs", "get_runs", "by_job", "by_id", "running", "both", "twice")


def perform(st, db, op):
    ip = st.ip
    j = st.j
    if op in ("insert_running_run", "insert_run"):
        return meth(ip, db, op, st.r0)
    if op == "clear_runs_running":
        return meth(ip, db, op)
    if op == "get_previous_runs":
        return meth(ip, db, op, j)
    if op == "get_runs":
        return meth(ip, db, "get_runs")
    if op == "by_job":
        return meth(ip, db, "get_runs", job_names=ip.new_list([S("name1"), S("name2")]))
    if op == "by_id":
        return meth(ip, db, "get_runs", run_ids=ip.new_list([S("rid1")]), runs_running=TRUE)
    if op == "both":
        return meth(ip, db, "get_runs", job_names=ip.new_list([S("name1"), S("name2")]), run_ids=ip.new_list([S("rid1"), S("rid2"), S("rid3")]))
    if op == "twice":
        return meth(ip, db, "get_runs", job_names=ip.new_list([S("name1"), S("name1")]))
    if op == "running":
        return meth(ip, db, "get_runs", runs_running=TRUE)


def base(st, typ, quiet=True):
    st.j = st.job("j")
    st.jobs_ = [st.j]
    st.r0 = done_run(st, st.j)
    st.db = backend(st, typ, quiet=quiet)
    return st.db


def templates(q, events):
    out = []
    for e, s, ps in sql_events(q, events):
        out.append((e, s, ps))
    return out


def placeholders(t):
    toks = sql.tokens(t)
    return [x for x in toks if sql.is_placeholder(x)]


def foreign(typ, text):
    """a part of a statement which this database does not know"""
    ts = [t.upper() for t in sql.tokens(text)]
    two = set(zip(ts, ts[1:]))
    if typ == "postgresql":
        if ts[:1] == ["REPLACE"] or two & {("INSERT", "OR"), ("INSERT", "IGNORE"), ("DUPLICATE", "KEY")}:
            return "REPLACE, INSERT OR, INSERT IGNORE or ON DUPLICATE KEY"
        if "`" in text:
            return "`"
        if two & {("GLOB", t) for t in ts}:
            return "GLOB"
    if typ == "mysql" and two & {("INSERT", "OR"), ("ON", "CONFLICT"), ("NULLS", "LAST"), ("NULLS", "FIRST")} | ({("x", "x")} if "RETURNING" in ts or "::" in text else set()):
        return "INSERT OR, ON CONFLICT, NULLS or RETURNING"
    if typ == "sqlite3" and (two & {("INSERT", "IGNORE"), ("DUPLICATE", "KEY")} or ts[:1] == ["TRUNCATE"]):
        return "INSERT IGNORE, ON DUPLICATE KEY or TRUNCATE"
    return None


def D01(rule):
    """Statements are constant, values are parameters."""
    for typ in SQL_TYPES:
        for op in OPS:
            def build(st, typ=typ, op=op):
                base(st, typ, quiet=False)
                st.res = perform(st, st.db, op)
                return NONE

            def check(q, typ=typ, op=op):
                n = 0
                for e in q.events:
                    if e.name not in (".execute", ".executemany", ".executescript"):
                        continue
                    n += 1
                    t = e.args[0] if e.args else NONE
                    if t[0] == "top":
                        q.require(None, e.loc, "statement unknown")
                        continue
                    q.require(is_const(t) and isinstance(t[2], str), e.loc, "data is made part of an SQL statement")
                    if not is_const(t):
                        continue
                    ph = placeholders(t[2])
                    marks = {"sqlite3": {"?"}, "mysql": {"%s"}, "postgresql": {"%s"}}[typ]
                    q.require(all(p in marks for p in ph), e.loc, "a placeholder is not one the database library ({}) understands".format(typ))
                    bad = foreign(typ, t[2])
                    q.require(not bad, e.loc, "a statement is not valid for {}: {}".format(typ, bad))
                    q.require("{}" not in t[2], e.loc, "a statement contains an unreplaced placeholder")
                    ps = None
                    for e2, s, p in sql_events(q, [e]):
                        ps = p
                    q.require(None if ps is None else len(ps) == len(ph), e.loc, "a statement has another number of parameters than placeholders")
                    st = sql.parse(t[2])
                    q.require(st is not None and st.kind is not None and not st.kind.endswith("?") or None, e.loc, "statement not understood")
                    q.rule.count("SQL statements")
                if op != "clear" and typ == "sqlite3":
                    q.require(n > 0 or None, q.last_loc(), "no statement")
            rule.scenario("{}: {}".format(typ, op), build, check)


def schema(q, typ):
    """{table: {column: definition}} the backend creates"""
    out = {}
    for e, s, ps in sql_events(q):
        if s is not None and s.kind == "CREATE":
            out[s.table] = (dict(s.cols), e, s.keys)
    return out


def D02(rule):
    """Statements and schema agree."""
    for typ in SQL_TYPES:
        for op in OPS:
            def build(st, typ=typ, op=op):
                base(st, typ, quiet=False)
                st.n = len(st.ip.events)
                perform(st, st.db, op)
                return NONE

            def check(q, typ=typ):
                sch = schema(q, typ)
                for t, cols in (("runs", DONE_COLS), ("runs_running", RUNNING_COLS)):
                    q.require(t in sch, q.events[0].loc if q.events else "?", "a new database does not get a table {}".format(t))
                    if t not in sch:
                        continue
                    d, e, keys = sch[t]
                    uniq = [c for c, df in d.items() if re.search(r"\b(primary key|unique)\b", df)]
                    for ks in keys:
                        if ks[0] in ("primary", "unique"):
                            ks = [x for x in ks[ks.index("("):] if x not in "(),"] if "(" in ks else ["?"]
                            uniq += [] if "run_id" in ks else ["/".join(ks)]
                        elif ks[0] in ("check", "foreign"):
                            q.require(None, e.loc, "constraint not understood")
                    q.require(set(uniq) <= {"run_id"}, e.loc, "table {} takes only one run with the same {}".format(t, ", ".join(u for u in uniq if u != "run_id")))
                    q.require(any(is_commit(q, c) for c in q.events[e.n:q.st.n]), e.loc, "the creation of a table is not committed")
                    for c in cols:
                        q.require(c in d, e.loc, "a new table {} has no column {}".format(t, c))
                    for c, df in d.items():
                        want = {"schedule_time": ("real", "timestamp", "datetime", "float", "double", "numeric"),
                                "start_time": ("real", "timestamp", "datetime", "float", "double", "numeric"),
                                "stop_time": ("real", "timestamp", "datetime", "float", "double", "numeric"),
                                "exit_code": ("int", "smallint", "tinyint unsigned", "integer", "bigint"),
                                "job_name": ("text", "varchar", "char", "varbinary"), "run_id": ("text", "varchar", "char", "uuid"),
                                "trigger_type": ("text", "varchar", "char"), "trigger_data": ("text", "json", "longtext", "mediumtext"),
                                "run_data": ("text", "json", "longtext", "mediumtext")}.get(c)
                        if want:
                            n = re.match(r"(?:var)?char\((\d+)\)", df)
                            need = {"job_name": 64, "run_id": 36, "trigger_type": 8}.get(c)
                            q.require(not n or need is None or int(n[1]) >= need, e.loc, "column {} of table {} is too short for its values ({})".format(c, t, df))
                            q.require(not (typ == "mysql" and c.endswith("_data") and df.startswith("text")), e.loc, "column {} of table {} cannot hold more than 64 KB".format(c, t))
                            q.require(df.startswith(want), e.loc, "column {} of table {} cannot hold its values ({})".format(c, t, df))
                            if typ == "mysql" and c == "job_name":
                                q.require("_bin" in df or "_cs" in df or re.search(r"\bbinary\b", df) is not None, e.loc, "names which differ only in case are the same in column {} of table {} ({})".format(c, t, df))
                            q.require(not df.startswith("tinyint") or "unsigned" in df, e.loc, "exit codes above 127 do not fit their column")
                            prec = re.match(r"(?:datetime|timestamp|timestamptz)\((\d+)\)", df)
                            if typ != "sqlite3" and c.endswith("_time"):
                                q.require(int(prec[1]) >= 6 if prec else typ != "mysql" or not df.startswith(("datetime", "timestamp")), e.loc, "times lose their fraction in column {}".format(c))
                            ck = re.search(r"check ?\((\w+) ?(<=?) ?(\d+)\)", df)
                            if "check" in df:
                                q.require(int(ck[3]) - (ck[2] == "<") >= 192 if ck and ck[1] == c == "exit_code" else None, e.loc, "exit codes up to 192 do not fit their column")
                for e, s, ps in sql_events(q, q.events[q.st.n:]):
                    if s is None or s.table is None:
                        q.require(None, e.loc, "statement not understood")
                        continue
                    q.require(s.table in sch, e.loc, "a statement uses a table which is not created")
                    d = sch.get(s.table, ({},))[0]
                    used = list(s.cols) + [w[0] for w in s.where] + [o[0] for o in s.order]
                    for c in used:
                        if c in ("*", "count(*)"):
                            continue
                        q.require(c in d, e.loc, "a statement uses column {} which table {} does not have".format(c, s.table))
                    if s.kind and s.kind.startswith("INSERT"):
                        for c, df in d.items():
                            if "not null" in df and "default" not in df:
                                q.require(c in s.cols, e.loc, "a record lacks column {} which must not be null".format(c))
                        q.require(len(s.cols) == len(s.vals) and len(set(s.cols)) == len(s.cols), e.loc, "a record has another number of values than columns")
                    q.rule.count("statements compared with the schema")
            rule.scenario("{}: schema and {}".format(typ, op), build, check)

        # a database where only one of the tables is there
        for missing in ("runs", "runs_running"):
            def build3(st, typ=typ, missing=missing):
                base(st, typ, quiet=False)
                events = st.init_events
                del st.ip.events[:]
                st.store = Store(st, typ, missing={missing})
                backend(st, typ, quiet=False)
                return NONE

            def other(q, missing=missing):
                made = [s.table for e, s, ps in sql_events(q) if s is not None and s.kind == "CREATE" and not s.limit]
                cond = [s.table for e, s, ps in sql_events(q) if s is not None and s.kind == "CREATE" and s.limit]
                loc = next((e.loc for e, s, ps in sql_events(q)), q.last_loc())
                q.require(missing in made + cond if q.outcome == "ret" else None, loc, "table {} is not created if only the other one exists".format(missing))
                q.require(set(made) <= {missing}, loc, "a table which exists is created again")
            rule.scenario("{}: only {} is missing".format(typ, missing), build3, other)

        # an existing table is left alone
        def build2(st, typ=typ):
            st.rows = lambda e: [st.ip.new_dict([(C("name"), S("t"))])]
            base(st, typ, quiet=False)
            return NONE

        def keep(q, typ=typ):
            for e, s, ps in sql_events(q):
                if s is None or s.kind is None:
                    q.require(None, e.loc, "statement not understood")
                    continue
                bad = s.kind in ("DROP", "DELETE", "TRUNCATE", "ALTER") or (s.kind == "CREATE" and not s.limit)
                q.require(not bad, e.loc, "an existing database's tables are created again or changed on start")
        rule.scenario("{}: existing database".format(typ), build2, keep)


BIG = {"x1": 1000, "x2": 2000, "x3": 3000, "x4": 4000, "x5": 5000, "x6": 6000}


def row_of(st, typ, name, job, stop, code, took=5, waited=2, at=0):
    """a recorded run: its record as the backend keeps it"""
    ip = st.ip
    d = {"job_name": job, "run_id": S(name + " run_id")}
    ip.facts[("truthy", d["run_id"])] = True
    ip.data.setdefault("distinct", set()).add(d["run_id"])
    for c, t in (("schedule_time", -waited - took), ("start_time", -took), ("stop_time", 0)):
        if stop is None and c == "stop_time":
            continue
        v = st.param("{} {}".format(name, c), (stop or at) + t, (stop or at) + t + 1)
        kind = "float" if typ == "sqlite3" else "datetime"
        ip.kinds[v] = kind
        ip.facts[("types", v)] = frozenset({kind})
        d[c] = v
    if code is not None:
        d["exit_code"] = C(code)
    d["trigger_type"] = S(name + " trigger_type")
    for c in ("trigger_data", "run_data"):
        v = ip.new_dict([(C("key"), S("{} {}".format(name, c)))])
        d[c] = v if typ == "mongodb" else app("json.dumps", v)
        ip.facts[("types", d[c])] = frozenset({"str"})
    return d


def json_loads(st):
    def loads(ip, a, k):
        if a and a[0][0] == "app" and a[0][1] == "json.dumps":
            return a[0][2]
        if a and a[0][0] == "obj":
            ip.throw("TypeError", "the JSON object must be str")
        return NotImplemented
    st.ip.ext_overrides["json.loads"] = loads


HISTORIES = {
    "no runs": [],
    "runs of other jobs": [("k", 9000, 0), ("k", 9500, 3)],
    "one good": [("j", 1000, 0)],
    "one bad": [("j", 1000, 1)],
    "good then bad": [("j", 1000, 0), ("j", 2000, 137), ("k", 9000, 0)],
    "bad then good": [("k", 9000, 2), ("j", 1000, 255), ("j", 2000, 0)],
    "several": [("j", 3000, 2), ("j", 1000, 0), ("k", 9000, 0), ("j", 5000, 0), ("j", 4000, 143), ("j", 2000, 0)],
    "several, ending in bad ones": [("j", 1000, 1), ("j", 6000, 1), ("j", 3000, 0), ("j", 5000, 2), ("j", 2000, 0), ("k", 9000, 1)],
    "only bad ones": [("j", 2000, 1), ("j", 3000, 9), ("j", 1000, 2)],
    "the last one started first": [("j", 2000, 0), ("j", 3000, 0), ("j", 5000, 0, 4900), ("j", 2500, 1), ("j", 4000, 7, 3900), ("j", 3500, 2)],
    "only good ones": [("j", 2000, 0), ("j", 3000, 0), ("j", 1000, 0)],
}


def D03(rule):
    """Previous runs."""
    for typ in ALL:
        for hname, hist in HISTORIES.items():
            def build(st, typ=typ, hist=hist):
                base(st, typ)
                k = S("job k")
                st.ip.data.setdefault("distinct", set()).add(k)
                rows = [row_of(st, typ, "h%d" % i, S("job j") if h[0] == "j" else k, *h[1:]) for i, h in enumerate(hist)]
                run = [row_of(st, typ, "running", S("job j"), 8000, None)]
                del run[0]["stop_time"]
                json_loads(st)
                Store(st, typ, {"runs": rows, "runs_running": run})
                st.tab = rows
                return perform(st, st.db, "get_previous_runs")

            def check(q, typ=typ, hist=hist):
                if q.outcome == "exc":
                    q.require(None if q.p.taint else False, q.last_loc(), "looking up previous runs fails: {}".format(exc_name(q.ip, q.val)))
                    return
                r = q.val
                if q.outcome != "ret" or r[0] != "tuple" or len(r[1]) != 3:
                    q.require(None, q.last_loc(), "result unknown: {}".format(q.val if isinstance(q.val, str) else ""))
                    return
                mine = [(h[1], h[2], i) for i, h in enumerate(hist) if h[0] == "j"]
                want = [max(mine, default=None), max([x for x in mine if x[1] == 0], default=None), max([x for x in mine if x[1] != 0], default=None)]
                loc = next((e.loc for e in reversed(q.events) if e.name in (".execute", ".find", ".sort")), q.last_loc())
                for nm, w, v in zip(("run", "good run", "bad run"), want, r[1]):
                    if w is None:
                        q.require(v == NONE, loc, "a previous {} is reported although there is none".format(nm))
                        continue
                    if v == NONE:
                        q.require(False, loc, "the previous {} is not found".format(nm))
                        continue
                    row = q.st.tab[w[2]]
                    q.require(same(q.attr(v, "id"), row["run_id"]), loc, "the previous {} is not the last of the job's which ended so".format(nm))
                    q.require(same(q.attr(v, "job"), q.st.j), loc, "a previous run is one of another job")
                    for c in ("schedule_time", "start_time", "stop_time", "exit_code", "trigger_type"):
                        q.require(same(q.attr(v, c), row[c]), loc, "a previous run's {} is not the one recorded".format(c))
                q.rule.count("queries evaluated", len(q.st.ip.data.get("cursors", ())))
            rule.scenario("{}: previous runs: {}".format(typ, hname), build, check)


def same(x, y):
    if x == y:
        return True
    if x is None:
        return False
    if x[0] == "app" and x[1] in LOSSY:
        return False
    if x[0] in ("top", "app", "res"):
        return None
    return False


LOSSY = ("round", "int", "math.floor", "math.ceil", "math.trunc", "floordiv", "abs")


def same_data(q, x, y):
    """the same value, or dictionaries with the same contents"""
    if x == y:
        return True
    if x is None:
        return False
    ox, oy = q.ip.deref(x), q.ip.deref(y)
    if ox is not None and oy is not None and ox.kind == oy.kind == "dict":
        return [tuple(e) for e in ox.entries] == [tuple(e) for e in oy.entries] and ox.rest == oy.rest
    return same(x, y)


def running_rows(st, typ, *names):
    out = []
    for i, n in enumerate(names):
        d = row_of(st, typ, n, S("job j"), 1000 * (i + 1), None)
        del d["stop_time"]
        out.append(d)
    return out


def D04(rule):
    """What is recorded when."""
    for typ in ALL:
        for op in ("insert_running_run", "insert_run", "clear_runs_running", "insert_run, not recorded as running"):
            known, op = "," not in op, op.split(",")[0]

            def build(st, typ=typ, op=op, known=known):
                base(st, typ, quiet=False)
                st.n = len(st.ip.events)
                rows = running_rows(st, typ, "a", "b")
                if op != "insert_running_run" and known:
                    r0 = dict(rows[0], run_id=S("id r0"))
                    rows.insert(1, r0)
                    st.ip.data.setdefault("distinct", set()).add(S("id r0"))
                st.ended = row_of(st, typ, "z", S("job j"), 500, 0)
                st.store = Store(st, typ, {"runs": [st.ended], "runs_running": rows})
                st.store.commits.append((None, st.store.snapshot()))
                perform(st, st.db, op)
                return NONE

            def check(q, typ=typ, op=op, known=known):
                for e in q.events[: q.st.n]:
                    if e.name.endswith(".connect") and e.kw:
                        for k, v in e.kw.items():
                            q.require(not (k == "isolation_level" and v == NONE) and not (k == "autocommit" and v == TRUE), e.loc, "each statement is its own transaction")
                    if e.name == "setattr" and len(e.args) == 3 and e.args[1] in (C("isolation_level"), C("autocommit")):
                        q.require(e.args[2] in (FALSE, C("DEFERRED"), C("")), e.loc, "each statement is its own transaction")
                if q.outcome != "ret":
                    q.require(None if q.p.taint or q.outcome != "exc" else False, q.last_loc(), "a run cannot be recorded: {}".format(q.val if isinstance(q.val, str) else exc_name(q.ip, q.val)))
                    return
                s = q.st.store

                def ids(t, snap):
                    return [r.get("run_id") for r in snap[t]]
                final = s.snapshot()
                loc = s.log[-1][0].loc if s.log else q.last_loc()
                if typ != "mongodb":
                    q.require(s.commits[-1][1] == final, loc, "what was recorded is not committed")
                me, others, z = S("id r0"), [S("a run_id"), S("b run_id")], S("z run_id")
                if op == "clear_runs_running":
                    q.require(ids("runs_running", final) == [], loc, "runs stay recorded as running at start")
                    q.require(ids("runs", final) == [z], loc, "ended runs are lost at start")
                    return
                for e, snap in s.commits:
                    at = e.loc if e is not None else loc
                    q.require([x for x in ids("runs_running", snap) if x != me] == others, at, "the record of another running run is lost")
                    q.require([x for x in ids("runs", snap) if x != me] == [z], at, "the record of another run is lost")
                    if op == "insert_run":
                        a, b = ids("runs", snap).count(me), ids("runs_running", snap).count(me)
                        if typ == "mongodb" and known:
                            q.require(a + b >= 1, at, "a crash while a run's end is recorded loses the run")
                        elif known:
                            q.require(a + b == 1, at, "a crash while a run's end is recorded leaves it recorded both as ended and running, or as neither")
                if op == "insert_run":
                    q.require(ids("runs", final).count(me) == 1, loc, "a run which ended is not recorded exactly once")
                    q.require(me not in ids("runs_running", final), loc, "a run that ended stays recorded as running")
                else:
                    q.require(ids("runs_running", final).count(me) == 1, loc, "a run which started is not recorded exactly once as running")
                    q.require(me not in ids("runs", final), loc, "a run which started is recorded as ended")
                q.rule.count("commits examined", len(s.commits) - 1)
            rule.scenario("{}: {}{}".format(typ, op, "" if known else ", not recorded as running"), build, check)


def D05(rule):
    """What is read back is what was recorded."""
    for typ in ALL:
        for op in ("insert_run", "insert_running_run"):
            for how in ("get_runs", "by id", "previous"):
                if how == "previous" and op != "insert_run":
                    continue

                def build(st, typ=typ, op=op, how=how):
                    base(st, typ)
                    ip = st.ip
                    json_loads(st)
                    store = Store(st, typ)
                    store.event_conn = True
                    perform(st, st.db, op)
                    rows = [r for rs in store.tables.values() for r in rs]
                    if len(rows) != 1:
                        raise Stop("no record")
                    st.row = rows[0]
                    for c, v in rows[0].items():
                        if c.endswith("_time"):
                            kind = "float" if typ == "sqlite3" else "datetime"
                            ip.facts[("types", v)] = frozenset({kind})
                        if c in ("trigger_data", "run_data") and v[0] != "obj":
                            ip.facts[("types", v)] = frozenset({"str"})
                    ip.facts[("truthy", rows[0].get("run_id", NONE))] = True
                    if how == "previous":
                        return perform(st, st.db, "get_previous_runs")
                    kw = {"job_names": ip.new_list([S("job j")])} if how == "get_runs" else {"run_ids": ip.new_list([S("id r0")])}
                    return meth(ip, st.db, "get_runs", runs_running=C(op != "insert_run"), **kw)

                def check(q, typ=typ, op=op, how=how):
                    if q.outcome == "exc":
                        q.require(None if q.p.taint else False, q.last_loc(), "a recorded run cannot be read back: {}".format(exc_name(q.ip, q.val)))
                        return
                    ms, more = q.members(q.val) if q.outcome == "ret" else (None, None)
                    if ms is None:
                        q.require(None, q.last_loc(), "result unknown {}".format(q.val))
                        return
                    q.require(len(ms) == (3 if how == "previous" else 1) and ms[0] != NONE, q.last_loc(), "a recorded run is not found again")
                    for v in ms[:1]:
                        if v == NONE:
                            continue
                        q.require(q.attr(v, "job") == q.st.j, q.last_loc(), "a run read back is one of another job")
                        for c in (DONE_COLS if op == "insert_run" else RUNNING_COLS):
                            a = {"job_name": None, "run_id": "id"}.get(c, c)
                            if a is not None:
                                q.require(same_data(q, q.attr(v, a), q.attr(q.st.r0, a)), q.last_loc(), "a run's {} read back is not the one recorded".format(c))
                rule.scenario("{}: {}, read by {}".format(typ, op, how), build, check)


class TimeStore(Store):
    """what each database keeps of a time, and gives back"""

    aware = False  # of MongoDB's client

    def row(self, r, cols):
        return super().row({c: self.kept(v) if c.endswith("_time") else v for c, v in r.items()}, cols)

    def kept(self, v):
        ip, t = self.ip, clock.parts(v)
        if self.typ == "sqlite3":
            if t is not None:
                return app("str", v)
            ip.facts[("types", v)] = frozenset({"float"})
            return v
        if t is None:
            return v
        aware, x, z = t
        if self.typ == "mysql":  # without its offset
            return clock.wall(ip, z, x)
        if self.typ == "postgresql":
            zoned = "with time zone" in self.coltype or "timestamptz" in self.coltype
            if zoned:
                return clock.at(ip, x if aware else clock.read(ip, z, x, C("server")), C("server"))
            return clock.wall(ip, C("server") if aware else z, x)
        x = x if aware else clock.read(ip, z, x, clock.UTC)  # in UTC
        return clock.at(ip, x, clock.UTC) if self.aware else clock.wall(ip, clock.UTC, x)


def D08(rule):
    """Times keep their instants."""
    ZONES = (("the scheduler's zone", clock.LOCAL), ("its job's zone", S("tz j")), ("UTC", clock.UTC))
    for typ in ALL:
        for zname, zone in ZONES:
            for op in ("insert_run", "insert_running_run"):
                for how in ("get_runs", "by id", "previous"):
                    if how == "previous" and op != "insert_run":
                        continue

                    def build(st, typ=typ, op=op, how=how, zone=zone):
                        ip = st.ip
                        base(st, typ, quiet=False)
                        events, st.init_events = st.init_events, []
                        json_loads(st)
                        ip.data["clock"] = True
                        store = TimeStore(st, typ)
                        store.event_conn = True
                        texts = [e.args[0][2] for e in events if e.name == ".execute" and e.args and is_const(e.args[0])]
                        store.coltype = " ".join(t.lower() for t in texts if "create table" in t.lower() and "timestamp" in t.lower())
                        store.aware = any(e.name.endswith("MongoClient") and (e.kw.get("tz_aware") == TRUE or any("tz_aware" in show(a) for a in e.args)) for e in events if e.name.endswith("MongoClient"))
                        del ip.events[:]
                        o = ip.deref(st.r0)
                        st.want = {}
                        for c, z in (("schedule_time", zone), ("start_time", clock.LOCAL), ("stop_time", clock.LOCAL)):
                            x = st.param("instant of the " + c, 0)
                            ip.kinds[x] = "float"
                            st.want[c] = x
                            o.attrs[c] = clock.at(ip, x, z)
                        perform(st, st.db, op)
                        rows = [r for rs in store.tables.values() for r in rs]
                        if len(rows) != 1:
                            raise Stop("no record")
                        for c, v in rows[0].items():
                            if c in ("trigger_data", "run_data") and v[0] != "obj":
                                ip.facts[("types", v)] = frozenset({"str"})
                        ip.facts[("truthy", rows[0].get("run_id", NONE))] = True
                        if how == "previous":
                            return perform(st, st.db, "get_previous_runs")
                        kw = {"job_names": ip.new_list([S("job j")])} if how == "get_runs" else {"run_ids": ip.new_list([S("id r0")])}
                        return meth(ip, st.db, "get_runs", runs_running=C(op != "insert_run"), **kw)

                    def check(q, typ=typ, op=op):
                        if q.outcome == "exc":
                            q.require(None if q.p.taint else False, q.last_loc(), "a recorded run cannot be read back: {}".format(exc_name(q.ip, q.val)))
                            return
                        ms, more = q.members(q.val) if q.outcome == "ret" else (None, None)
                        if not ms:
                            q.require(None, q.last_loc(), "result unknown {}".format(q.val))
                            return
                        for c in ("schedule_time", "start_time") + (("stop_time",) if op == "insert_run" else ()):
                            v = q.attr(ms[0], c)
                            t = clock.parts(v) if v is not None else None
                            if t is None:
                                q.require(False if v is None or v[0] in ("const", "app") else None, q.last_loc(), "a run's {} read back is no time: {}".format(c, v and show(v)))
                                continue
                            q.require(t[1] == q.st.want[c], q.last_loc(), "a run's {} read back is another time than the recorded one if the zones of scheduler, job and server differ".format(c))
                            q.require(t[0], q.last_loc(), "a run's {} read back has no offset and cannot be compared with the current time".format(c))
                    rule.scenario("{}: schedule time in {}, {}, read by {}".format(typ, zname, op, how), build, check)


def D06(rule):
    """Selecting runs."""
    SEL = {
        "all": ({}, "012345"),
        "a job": ({"job_names": ("job j",)}, "035"),
        "two jobs": ({"job_names": ("job gone", "job j")}, "01235"),
        "an unknown job": ({"job_names": ("job nowhere",)}, ""),
        "a run": ({"run_ids": ("x2 run_id",)}, "2"),
        "three runs": ({"run_ids": ("x5 run_id", "x0 run_id", "x4 run_id")}, "045"),
        "an unknown run": ({"run_ids": ("nowhere run_id",)}, ""),
        "a job and runs": ({"job_names": ("job j",), "run_ids": ("x0 run_id", "x1 run_id", "x5 run_id")}, "05"),
        "jobs and a run of another": ({"job_names": ("job gone", "job gone2"), "run_ids": ("x3 run_id",)}, ""),
        "a job named twice": ({"job_names": ("job gone", "job gone")}, "12"),
        "no jobs": ({"job_names": ()}, ""),
        "no runs": ({"run_ids": ()}, ""),
    }
    names = ("job j", "job gone", "job gone", "job j", "job gone2", "job j")
    for typ in ALL:
        for sel, (kws, want) in SEL.items():
            for running in (False, True):
                def build(st, typ=typ, kws=kws, running=running):
                    base(st, typ)
                    ip = st.ip
                    ip.data.setdefault("distinct", set()).update(S(x) for x in names + ("job nowhere", "nowhere run_id"))
                    rows = [row_of(st, typ, "x%d" % i, S(n), 1000 * (i + 1), i % 3) for i, n in enumerate(names)]
                    other = [row_of(st, typ, "y%d" % i, S(n), 100 * (i + 1), i % 3) for i, n in enumerate(names)]
                    for r in rows if running else other:
                        del r["stop_time"], r["exit_code"]
                    json_loads(st)
                    st.store = Store(st, typ, {"runs": other if running else rows, "runs_running": rows if running else other})
                    st.tab = rows
                    kw = {k: ip.new_list([S(x) for x in v]) for k, v in kws.items()}
                    if running:
                        kw["runs_running"] = TRUE
                    return meth(ip, st.db, "get_runs", **kw)

                def check(q, typ=typ, sel=sel, want=want, running=running):
                    if q.outcome == "exc":
                        q.require(None if q.p.taint else False, q.last_loc(), "selecting runs fails: {}".format(exc_name(q.ip, q.val)))
                        return
                    ms, more = q.members(q.val) if q.outcome == "ret" else (None, None)
                    if ms is None:
                        q.require(None, q.last_loc(), "result unknown {}".format(q.val))
                        return
                    loc = next((e.loc for e in reversed(q.events) if e.name in (".execute", ".find")), q.last_loc())
                    for e, n in q.st.store.limits:
                        q.require(False, e.loc, "no more than {} runs are listed".format(n))
                    ids = [q.attr(m, "id") for m in ms]
                    exp = [S("x{} run_id".format(i)) for i in want]
                    ok = sorted(ids, key=repr) == sorted(exp, key=repr)
                    q.require(ok if all(i is not None and i[0] == "sym" for i in ids) else None, loc, "the runs listed are not exactly the {} ones asked for".format("running" if running else "ended"))
                    for m in ms:
                        i = q.attr(m, "id")
                        if i is None or i not in exp:
                            continue
                        n = int(i[1][1])
                        j = q.attr(m, "job")
                        q.require(j is not None and q.attr(j, "name") == S(names[n]), loc, "a run is listed for another job")
                        if names[n] == "job j":
                            q.require(j == q.st.j, loc, "a run is not listed with its job's configuration")
                        for c in ("schedule_time", "start_time", "trigger_type") + (() if running else ("stop_time", "exit_code")):
                            q.require(same(q.attr(m, c), q.st.tab[n][c]), loc, "a listed run's {} is not the one recorded".format(c))
                rule.scenario("{}: {} runs: {}".format(typ, "running" if running else "ended", sel), build, check)


CONNECT = {"sqlite3": "sqlite3.connect", "mysql": "MySQLdb.connect", "postgresql": "psycopg2.connect", "mongodb": "pymongo.MongoClient"}


def D07(rule):
    """Which backend is used."""
    CONFS = [(t, None) for t in ("sqlite3", "mysql", "postgresql", "mongodb", None)]
    CONFS += [(t, ()) for t in ("sqlite3", "mysql", "postgresql", "mongodb")]
    CONFS += [
        ("sqlite3", ("file=None",)), (None, ("file",)), (None, ("dsn", "connection", "uri")),
        ("mongodb", ("uri",)), ("mongodb", ("database",)), ("mongodb", ("connection",)), ("mongodb", ("uri", "connection", "database")),
        ("postgresql", ("dsn", "file")), ("mysql", ("connection", "file", "uri", "dsn")), ("sqlite3", ("file", "dsn", "connection", "uri", "database")),
    ]
    NAMES = {"file": "dbfile", "dsn": "dsn", "uri": "uri", "database": "dbname"}
    for typ, keys in CONFS:
        def build(st, typ=typ, keys=keys):
            ip = st.ip
            for n in CONNECT.values():
                ip.ext_overrides[n] = lambda ip, a, k, n=n: (ip.emit(n, a, k), S("dbconn"))[1]
            st.conn = ip.new_dict([(C("port"), S("dbport"))] if typ == "mongodb" else [(C("host"), S("dbhost")), (C("db"), S("dbdb"))])
            st.jobs_ = []
            conf = None
            if keys is not None:
                conf = []
                for k in keys:
                    k, _, none = k.partition("=")
                    conf.append((C(k), NONE if none else st.conn if k == "connection" else S(NAMES[k])))
                    if k == "file" and not none:
                        ip.facts[("types", S("dbfile"))] = frozenset({"str"})
                conf = conf or [(C("other"), S("other"))]
            elif typ == "mysql":
                conf = [(C("connection"), st.conn)]
            db = backend(st, typ, conf=conf, quiet=False)
            st.n = len(ip.events)
            meth(ip, db, "get_runs")
            return NONE

        def check(q, typ=typ, keys=keys):
            got = [e for e in q.events if e.name in CONNECT.values()]
            w = CONNECT[typ or "sqlite3"]
            wrong = [e for e in got if e.name != w]
            q.require(not wrong, wrong[0].loc if wrong else q.last_loc(), "a configuration with database type {} uses another database".format(typ))
            need = {"mysql": "connection", "postgresql": "dsn"}.get(typ)
            if keys is not None and need and need not in keys:
                return  # it cannot be used
            if q.outcome == "exc" and not got:
                q.require(None, q.last_loc(), "path ends in an exception")
                return
            q.require(len(got) == 1, got[0].loc if got else q.last_loc(), "a configuration with database type {} opens no database, or several".format(typ))
            ks = set(keys if keys is not None else {"sqlite3": ["file"], "mysql": ["connection"], "postgresql": ["dsn"], "mongodb": ["uri", "database"], None: []}[typ])
            for e in got:
                a = e.args[0] if e.args else None
                if e.name == "sqlite3.connect":
                    a = a if a is not None else e.kw.get("database")
                    if "file" not in ks:
                        q.require(a is not None and text(a) == text(q.ip.models["os.path.join"](q.ip, [S("data_dir"), C("dsari.sqlite3")], {})), e.loc, "the default database is not dsari.sqlite3 in the data directory")
                    else:
                        q.require(same(a, S("dbfile")), e.loc, "another database file than the configured one is used")
                if e.name == "psycopg2.connect":
                    q.require(same(a if a is not None else e.kw.get("dsn"), S("dsn")), e.loc, "another database than the configured one is used")
                if e.name == "MySQLdb.connect" and (a is None):
                    q.require(e.kw.get("host") == S("dbhost") and e.kw.get("db") == S("dbdb"), e.loc, "another database than the configured one is used")
                if e.name == "pymongo.MongoClient":
                    a = a if a is not None else e.kw.get("host", NONE)
                    q.require(same(a, S("uri") if "uri" in ks else NONE), e.loc, "another database than the configured one is used")
                    q.require((e.kw.get("port") == S("dbport")) == ("connection" in ks), e.loc, "the configured connection is not used, or one not configured is")
            if typ == "mongodb":
                fs = q.evs(".find")
                want = S("dbname") if "database" in ks else C("dsari")
                other = C("dsari") if "database" in ks else S("dbname")
                for e in fs:
                    q.require(None if e.recv is None or e.recv[0] == "top" else mentions(e.recv, want) and not mentions(e.recv, other), e.loc, "another database than the configured one (or else dsari) is used")
        rule.scenario("type {}{}".format(typ, "" if keys is None else " with " + (", ".join(keys) or "nothing")), build, check)


RULES = {"D01": D01, "D02": D02, "D03": D03, "D04": D04, "D05": D05, "D06": D06, "D07": D07, "D08": D08}
