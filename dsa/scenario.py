"""Abstract pre-states of the scheduler, and what the rules ask of its paths."""
from .front import Repo, ClassInfo
from .interp import Interp, OInst, OList, ODict, Stop, Prune, AnalysisError, PyExc
from .values import *  # noqa: F401,F403
from .values import C, S, app, NONE, TRUE, FALSE

WAITS = {
    "os.wait4", "os.waitpid", "os.wait", "os.wait3", "select.select", "signal.pause",
    "signal.sigtimedwait", "signal.sigwait", "signal.sigwaitinfo", "select.poll",
}
EXECS = {"os." + n for n in ("execv", "execve", "execvp", "execvpe", "execl", "execle", "execlp", "execlpe")}
KNOWN = {
    "shutdown", "args", "config", "logger", "jobs", "scheduled_runs", "running_runs",
    "running_groups", "wakeups", "next_wakeup", "db", "shutdown_begin",
}
NOW = S("NOW")


class Anchor(Exception):
    """Something the analysis needs is not in the source any more."""


class World:
    """Finds the roots in the source."""

    def __init__(self, repo=None):
        self.repo = Repo(repo or "/repo") if not isinstance(repo, Repo) else repo
        self.sched = self.find_scheduler()
        self.loop = self.find_loop()
        self.job_cls = self.cls("dsari.Job")
        self.run_cls = self.cls("dsari.Run")
        self.group_cls = self.cls("dsari.ConcurrencyGroup")
        self.config_cls = self.cls("dsari.config.Config")

    def cls(self, q):
        r = self.repo.resolve_dotted(q)
        if not r or r[0] != "class":
            raise Anchor("class " + q)
        return r[1]

    def find_scheduler(self):
        best = None
        for c in self.repo.classes.values():
            n = 0
            for f in c.methods.values():
                t = self.repo.trans[f.qual]
                if any("os.fork" in self.repo.trans[f.qual]["lib"] for f in [f]):
                    n += 1
            if n and (best is None or n > best[0]):
                best = (n, c)
        if best is None:
            raise Anchor("a class which starts child processes")
        return best[1]

    def find_loop(self):
        """The method from which everything is reached: it starts processes,
        waits for them and is called by no other method of the class."""
        c = self.sched
        cands = []
        for f in c.methods.values():
            lib = self.repo.trans[f.qual]["lib"]
            if "os.fork" in lib and lib & {"os.wait4", "os.waitpid", "os.wait", "os.wait3"}:
                if f.name != "__init__":
                    cands.append(f)
        tops = [
            f for f in cands
            if not any(
                f.qual in self.repo.trans[g.qual]["calls"] for g in c.methods.values() if g is not f
            )
        ]
        if len(tops) != 1:
            raise Anchor("the scheduler's main loop")
        return tops[0]

    # -- abstract state --------------------------------------------------

    def interp(self, **kw):
        ip = Interp(self.repo)
        ip.overrides["dsari.config.ConfigLoader.load_dir"] = self._load_dir
        for k, v in kw.items():
            setattr(ip, k, v)
        return ip

    def _load_dir(self, ip, f, args, kw):
        st = ip.data.get("st")
        if st is None or st.load_config is None:
            raise Stop("load_config")
        e = ip.emit("load_config", args, kw)
        return st.load_config(ip, args[0])


class State:
    """One abstract scheduler state, built inside a path."""

    def __init__(self, world, ip):
        self.w, self.ip = world, ip
        ip.data["st"] = self
        self.load_config = None
        self.on_wait = None
        self.ended = []  # what waits for other processes did not report
        self.on_sleep = None
        self.idle = None  # or how often nothing was waited for
        self.hook = None
        self.rows = None
        self.extra = []
        self.nextpid = 0
        ip.on_event = self.event

    # events

    def asked(self, e, pid):
        """whether what is waited for includes the process"""
        if e.name not in ("os.wait4", "os.waitpid") or not e.args or pid == C(0):
            return True
        want = e.args[0]
        if want == pid or want == C(-1):
            return True
        if is_const(want):
            return False  # 0: the runs' processes are in groups of their own
        return None if self.ip.cmp_known("==", want, pid) is None and "pid" not in show(want) else False

    def wait_result(self, e):
        if self.on_wait is None:
            raise Stop("wait")
        for r in self.ended:
            if self.asked(e, r[1][0]) is True:
                self.ended.remove(r)
                return r
        r = self.on_wait(e)
        if isinstance(r, tuple) and r and r[0] == "tuple" and self.asked(e, r[1][0]) is False:
            self.ended.append(r)
            return ("tuple", (C(0), C(0), S("rusage"))[:len(r[1])])
        return r

    def event(self, ip, e):
        if self.hook is not None:
            r = self.hook(e)
            if r is not None:
                return r
        r = self.database(ip, e)
        if r is not None:
            return r
        if e.name in WAITS:
            return self.wait_result(e)
        if e.name == "time.sleep":
            if self.on_sleep is not None:
                return self.on_sleep(e)
            a = e.args[0] if e.args else NONE
            if a == C(0):
                if self.idle is not None:
                    self.idle += 1
                    if self.idle > 4:
                        raise Stop("spins")
                return None
            if is_num(a) and cval(a) <= 0.05:
                return None
            raise Stop("wait")
        return None

    def database(self, ip, e):
        """cursors: what a query returns is said by self.rows(event), else nothing"""
        cs = ip.data.setdefault("cursors", {})
        if e.name == ".cursor":
            r = ip.fresh(".cursor")
            ip.kinds[r] = "object"
            cs[r] = []
            return r
        if e.name in (".execute", ".find", ".find_one", ".aggregate"):
            rows = list(self.rows(e) or ()) if self.rows is not None else []
            if e.name == ".find_one":
                return rows[0] if rows else NONE
            r = e.recv if e.recv in cs else ip.fresh(e.name)
            ip.kinds[r] = "object"
            cs[r] = rows
            return r
        if e.recv in cs:
            if e.name in (".sort", ".limit", ".skip", ".batch_size", ".hint", ".clone"):
                return e.recv
            rows = cs[e.recv]
            if e.name == ".fetchone":
                return rows.pop(0) if rows else NONE
            if e.name == ".fetchmany":
                n = e.args[0] if e.args else e.kw.get("size", C(1))
                n = ip.bound(n, len(rows))
                if not is_const(n) or type(n[2]) is not int:
                    raise Stop("number of rows not understood")
                cs[e.recv] = rows[n[2]:]
                return ip.new_list(rows[: n[2]])
            if e.name in (".fetchall", ".to_list"):
                cs[e.recv] = []
                return ip.new_list(rows)
        elif e.name == ".fetchone":
            return NONE
        elif e.name == ".fetchall":
            return ip.new_list()
        return None

    # objects

    def param(self, name, lo=None, hi=None, lo_open=False, hi_open=False, kind=None):
        v = S(name)
        self.ip.set_range(v, lo, hi, lo_open, hi_open)
        if kind:
            self.ip.kinds[v] = kind
        return v

    def flag(self, name):
        v = S(name)
        self.ip.kinds[v] = "bool"
        return v

    def limited(self, job):
        """a job with a max_execution and a grace time"""
        nm = show(self.ip.deref(job).attrs["name"])
        for a in ("max_execution", "max_execution_grace"):
            v = self.param("{} {}".format(a, nm), 0, None, lo_open=a == "max_execution", kind="timedelta")
            if a == "max_execution":
                self.ip.facts[("truthy", v)] = True
            self.ip.deref(job).attrs[a] = v
        return job

    def quiet(self, f):
        n = len(self.ip.events)
        r = f()
        del self.ip.events[n:]
        return r

    def group(self, name, max=None):
        self.ip.data.setdefault("distinct", set()).add(S("group " + name))
        v = self.quiet(lambda: self.ip.instantiate(self.w.group_cls, [S("group " + name)], {}))
        if max is not None:
            self.ip.deref(v).attrs["max"] = max
        return v

    def job(self, name="j", **attrs):
        nm = S("job " + name)
        self.ip.kinds[nm] = "str"
        self.ip.facts[("types", nm)] = frozenset({"str"})
        self.ip.data.setdefault("distinct", set()).add(nm)
        self.ip.facts[("eq", S("tz " + name), NONE)] = False
        self.ip.facts[("truthy", S("tz " + name))] = True
        v = self.quiet(lambda: self.ip.instantiate(self.w.job_cls, [nm], {}))
        o = self.ip.deref(v)
        o.attrs["command"] = S("command " + name)
        o.attrs["schedule_timezone"] = S("tz " + name)
        for k, x in attrs.items():
            if k not in o.attrs:
                raise Anchor("attribute {} of a job".format(k))
            o.attrs[k] = x
        return v

    def run(self, job, name="r", **attrs):
        rid = S("id " + name)
        self.ip.data.setdefault("distinct", set()).update((rid, S("pid " + name)))
        self.ip.facts[("truthy", rid)] = True
        v = self.quiet(lambda: self.ip.instantiate(self.w.run_cls, [job], {"id": rid}))
        o = self.ip.deref(v)
        o.name = name
        o.attrs.update(
            trigger_type=S("trigger_type " + name),
            trigger_data=self.ip.new_dict(),
            run_data=self.ip.new_dict(),
        )
        o.attrs.update(attrs)
        return v

    def running(self, job, name="r0", age=None, **attrs):
        """A run which was forked: what the scheduler's own code set on it."""
        d = dict(
            schedule_time=S("schedule_time " + name),
            start_time=lin_add(NOW, age, -1) if age is not None else S("start_time " + name),
            pid=S("pid " + name),
            term_sent=self.flag("term_sent " + name),
            kill_sent=self.flag("kill_sent " + name),
            respawn=self.flag("respawn " + name),
            previous_run=NONE, previous_good_run=NONE, previous_bad_run=NONE,
        )
        for a in ("pid", "term_sent", "kill_sent"):
            if a not in self.w.repo.attr_names:
                raise Anchor("attribute {} of a run".format(a))
        self.ip.set_range(S("pid " + name), 1, None)
        self.ip.kinds[S("start_time " + name)] = "datetime"
        self.ip.kinds[S("schedule_time " + name)] = "datetime"
        d.update(attrs)
        v = self.run(job, name, **d)
        self.ip.deref(v).lazy = lambda name: self.set_at_start(v, job, name)
        return v

    def set_at_start(self, v, job, name):
        """the value of an attribute which the program sets on runs at their
        start; anything if that is not the same for all"""
        import ast

        ip, cache = self.ip, self.w.__dict__.setdefault("attr_sets", {})
        found = cache.get(name, ())
        if name not in cache:
            found = cache[name] = []
        for m in self.w.repo.modules.values() if not found else ():
            for n in ast.walk(m.tree):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                for t in ts:
                    if isinstance(t, ast.Attribute) and t.attr == name and not (isinstance(t.value, ast.Name) and t.value.id == "self"):
                        found.append((t.value, n.value))
        if not found:
            return None
        if len(found) == 1:
            base, x = found[0]
            if isinstance(x, ast.Constant):
                return C(x.value)
            path = []
            while isinstance(x, ast.Attribute):
                path.insert(0, x.attr)
                x = x.value
            o = None
            if isinstance(x, ast.Name) and isinstance(base, ast.Name):
                o = v if x.id == base.id else job if x.id == "job" else None
            for a in path:
                i = ip.deref(o) if o is not None else None
                o = job if o == v and a == "job" else i.attrs.get(a) if i is not None and i.kind == "inst" else None
            if o is not None:
                return o
        return ip.top("attribute {} of a run".format(name))

    def config(self, jobs=(), groups=(), **attrs):
        ip = self.ip
        v = self.quiet(lambda: ip.instantiate(self.w.config_cls, [], {}))
        o = ip.deref(v)
        o.attrs["jobs"] = ip.new_dict([(ip.deref(j).attrs["name"], j) for j in jobs])
        o.attrs["concurrency_groups"] = ip.new_dict([(ip.deref(g).attrs["name"], g) for g in groups])
        o.attrs["data_dir"] = S("data_dir")
        o.attrs.update(attrs)
        return v

    def scheduler(self, cfg, **fields):
        """An instance with the fields its constructor sets, of which those
        named here have the given values."""
        ip = self.ip
        st = self
        ip.data["fork_sorts"] = True

        def load(ip, loader):
            src = ip.deref(cfg).attrs
            tgt = ip.deref(ip.getattr_(loader, "config"))
            tgt.attrs.update(src)
            return NONE

        old, self.load_config = self.load_config, load
        jobs = ip.deref(cfg).attrs["jobs"]
        n0 = len(ip.events)
        empty = ip.new_dict()
        ip.deref(cfg).attrs["jobs"] = empty
        facts, dec, ch = dict(ip.facts), list(ip.decisions), ip.choose
        ip.choose = lambda n, why=None: 0  # which way is taken here is all the same
        try:
            s = ip.instantiate(self.w.sched, [S("args")], {})
        finally:
            ip.choose = ch
        ip.facts, ip.decisions[:] = facts, dec
        ip.deref(cfg).attrs["jobs"] = jobs
        self.load_config = old
        self.init_events = ip.events[n0:]
        del ip.events[n0:]
        o = ip.deref(s)
        for k in ("jobs", "scheduled_runs", "running_runs", "running_groups"):
            if k not in o.attrs:
                raise Anchor("scheduler field " + k)
        for k in list(o.attrs):
            if k not in KNOWN:
                self.extra.append(k)
                o.attrs[k] = ip.top("field " + k)
        o.attrs["config"] = cfg
        o.attrs["jobs"] = ip.new_list([v for _, v in ip.deref(jobs).entries])
        for k, v in fields.items():
            if isinstance(v, list):
                v = ip.new_list(v)
            if isinstance(v, dict):
                v = ip.new_dict([(a, ip.new_list(b)) for a, b in v.items()])
            o.attrs[k] = v
        self.s = s
        return s

    def field(self, name):
        return self.ip.deref(self.s).attrs.get(name)

    def loop(self):
        return self.ip.call(("bound", self.s, self.w.loop), [], {})


class Clock:
    """Time passes only where the scheduler sleeps or waits.  script: what the
    next waits report, as (not before time, pid, status)."""

    def __init__(self, st, limit, script=()):
        self.st, self.ip, self.limit = st, st.ip, limit
        self.script = list(script)
        self.idle = 0
        st.on_sleep, st.on_wait = self.sleep, self.wait

    def advance(self, d):
        ip = self.ip
        ip.now = lin_add(ip.now, d)
        if ip.compare_num(">", ip.now, lin_add(NOW, self.limit)):
            raise Stop("time is over")

    def sleep(self, e):
        ip = self.ip
        d = e.args[0] if e.args else C(0)
        if ip.compare_num("<=", d, C(0)):
            self.idle += 1
            if self.idle > 40:
                raise Stop("spins")
            self.advance(C(0.001))
        else:
            self.idle = 0
            self.advance(d)
        return NONE

    def wait(self, e):
        import os as _os
        ip = self.ip
        none = ("tuple", (C(0), C(0), S("rusage")))
        if e.name not in ("os.wait4", "os.waitpid", "os.wait3"):
            raise AnalysisError("waits with " + e.name)
        opt = e.args[0 if e.name == "os.wait3" else 1]
        if self.script:
            t, pid, status = self.script[0]
            if ip.compare_num(">=", ip.now, t):
                self.script.pop(0)
                pid = pid() if callable(pid) else pid
                return ("tuple", (pid, status, S("rusage"))[: 2 if e.name == "os.waitpid" else 3])
        if not is_const(opt):
            raise AnalysisError("options of " + e.name)
        if not opt[2] & _os.WNOHANG:
            raise Stop("blocked")
        return ("tuple", none[1][: 2 if e.name == "os.waitpid" else 3])
