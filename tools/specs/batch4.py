exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("sys").argv[1]), "batch2.py")).read().split("\nseed(")[0])

FAKEMY = r'''
# A database server's library whose columns hold what was declared
import re, sqlite3
class Cursor:
    def __init__(self, c, types): self.c, self.types, self.rows = c.cursor(), types, None
    def execute(self, sql, args=()):
        m = re.match(r"\s*CREATE TABLE (\w+) \((.*)\)\s*$", sql, re.S)
        if "information_schema" in sql:
            self.c.execute("select name from sqlite_master where name = ?", (re.search(r"table_name = '(\w+)'", sql).group(1),))
            return
        if m:
            self.types[m.group(1)] = {l.split()[0]: " ".join(l.split()[1:]).lower() for l in m.group(2).strip().split("\n")}
            self.c.execute("create table %s (%s)" % (m.group(1), ",".join(self.types[m.group(1)])))
            return
        m = re.match(r"\s*INSERT INTO (\w+) \(([^)]*)\)", sql)
        if m:
            for col, v in zip([x.strip() for x in m.group(2).split(",")], args):
                t = self.types[m.group(1)][col]
                if t.startswith("tinyint"):
                    lo, hi = (0, 255) if "unsigned" in t else (-128, 127)
                    if not lo <= v <= hi: raise OverflowError("Out of range value for column '%s': %r" % (col, v))
        self.c.execute(sql.replace("%s", "?"), [str(a) if hasattr(a, "isoformat") else a for a in args])
    def fetchone(self): return self.c.fetchone()
    def close(self): pass
class Conn:
    def __init__(self): self.c, self.types = sqlite3.connect(":memory:"), {}
    def cursor(self): return Cursor(self.c, self.types)
    def commit(self): pass
sys.modules["MySQLdb"] = types.ModuleType("MySQLdb")
sys.modules["MySQLdb.cursors"] = types.ModuleType("MySQLdb.cursors")
sys.modules["MySQLdb"].cursors = sys.modules["MySQLdb.cursors"]
sys.modules["MySQLdb.cursors"].DictCursor = object
sys.modules["MySQLdb"].connect = lambda **kw: Conn()
'''

seed("s08-unblock-before-fork", "S08",
     "a reload (SIGHUP) which comes while a run is being started",
     "signals are let in just before the fork, so a reload replaces the queue in the middle of a run's start",
     [(D, '''        child_pid = os.fork()
        if child_pid == 0:
            self.run_child_executor(run)
''', '''        # The child starts without blocked signals
        signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
        child_pid = os.fork()
        if child_pid != 0:
            signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
        else:
            self.run_child_executor(run)
''')], r'''
import signal, time
from h import *
PRE = """
import signal
real_makedirs = os.makedirs
def makedirs(*a, **k):
    real_makedirs(*a, **k)
    os.kill.__globals__["real"](me, signal.SIGHUP)
os.makedirs = makedirs
"""
with Daemon({"jobs": {"j": {"command": ["sleep", "1"]}}}, PRE) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1 or not d.alive()), "the run was not recorded")
    check(d.alive(), "the scheduler has ended")
    check(len(d.rows()) == 1, "the run was not recorded")
''')

seed("t01-trigger-kept-while-loading", "T01",
     "a trigger file whose content cannot be parsed, corrected later or not",
     "a trigger file is only removed once it was parsed: a broken one is tried, and complained about, again and again",
     [(UT, '''        if delete_during:
            os.remove(file)
        try:
            if file_type == "yaml":
                return yaml.safe_load(f)
            else:
                return json.load(f)
''', '''        try:
            if file_type == "yaml":
                data = yaml.safe_load(f)
            else:
                data = json.load(f)
            if delete_during:
                os.remove(file)
            return data
''')], r'''
import os
from h import *
with Daemon({"jobs": {"j": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("j", text="{broken")
    check(d.wait(lambda: not os.path.exists(os.path.join(d.data, "trigger", "j", "trigger.json")), 5), "the trigger file is still there")
    check(d.alive(), "the scheduler has ended")
''')

seed("t03-epoch-whole-seconds", "T03",
     "a trigger with a schedule_time with a fraction of a second, and a moment before it",
     "a trigger's epoch time is cut to whole seconds: the run starts early and is recorded with another scheduled time",
     [(D, '''                t = epoch_to_dt(float(j["schedule_time"]))
''', '''                t = epoch_to_dt(int(j["schedule_time"]))
''')], r'''
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["true"]}}}) as d:
    d.start()
    t = int(time.time()) + 2.75
    d.trigger("j", {"schedule_time": t})
    check(d.wait(lambda: len(d.rows()) == 1), "no run")
    r = d.rows()[0]
    check(r["start_time"] >= t, "started early")
    check(abs(r["schedule_time"] - t) < 0.01, "another scheduled time")
''')

seed("t05-sleeps-until-next-run", "T05",
     "a job which is due in more than a minute, and a trigger without SIGUSR1",
     "the scheduler sleeps until the next run is due, and so does not look for triggers before",
     [(D, '''        self.next_wakeup = dtnow() + seconds_to_td(60.0)
        for wakeup in self.wakeups:
            if wakeup < self.next_wakeup:
                self.next_wakeup = wakeup
''', '''        self.next_wakeup = min(
            self.wakeups, default=dtnow() + seconds_to_td(60.0)
        )
''')], r'''
import signal, time
from h import *
with Daemon({"jobs": {"j": {"command": ["true"]}, "k": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("k", {"schedule_time": time.time() + 3600})
    time.sleep(2)
    d.trigger("j", now=False)
    check(d.wait(lambda: len(d.rows()) == 1, 75), "the trigger was not noticed")
''')

seed("d01-inline-run-data", "D01",
     "return data with an apostrophe",
     "a run's data is written into the SQL statement that records its end",
     [(DB, '''                {}, {}, {}, {}, {}, {}, {}, {}, {}
            )
        """
        sql_statement = self._modify_statement(sql_statement)
''', '''                {}, {}, {}, {}, {}, {}, {}, {}, RUN_DATA
            )
        """
        sql_statement = self._modify_statement(sql_statement)
        sql_statement = sql_statement.replace(
            "RUN_DATA", "'{}'".format(json.dumps(run.run_data))
        )
'''), (DB, '''                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                    ("run_data", run.run_data),
                ]
            ),
''', '''                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                ]
            ),
''')], r'''
from h import *
c = ["sh", "-c", "echo '{\"a\": \"it\\u0027s\"}' > return_data.json"]
with Daemon({"jobs": {"j": {"command": c}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1 or not d.alive()), "the run was not recorded")
    check(d.alive(), "the scheduler has ended")
    check(json.loads(d.rows()[0]["run_data"]) == {"return_data": {"a": "it's"}}, "other data")
''')

seed("d02-signed-exit-code", "D02",
     "MySQL, and a run ended by a signal",
     "the column of exit codes cannot hold those of 128 and more: a run ended by a signal cannot be recorded",
     [(DB, '''exit_code tinyint unsigned NOT NULL''', '''exit_code tinyint NOT NULL''')], BASE + FAKEMY + r'''
write({"jobs": {"j": J}, "database": {"type": "mysql", "connection": {}}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 1, 2, 137)
''')

seed("d05-milliseconds", "D05",
     "times with microseconds, SQLite",
     "times are rounded to milliseconds when they are recorded",
     [(DB, '''                out.append(dt_to_epoch(v))
''', '''                out.append(round(dt_to_epoch(v), 3))
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
r = run(db, c.jobs["j"], 1, 0.123456, 1.234567, 2.345678)
s, = db.get_runs()
for k in ("schedule_time", "start_time", "stop_time"):
    check(abs((getattr(s, k) - getattr(r, k)).total_seconds()) < 0.00001, k)
''')

seed("t02-sorted-json", "T02",
     "a YAML trigger with names and numbers as keys",
     "the data of a trigger with keys of several types cannot be recorded, and the scheduler ends",
     [(DB, '''                out.append(dt_to_epoch(v))
            elif k in ("trigger_data", "run_data"):
                out.append(json.dumps(v))
''', '''                out.append(dt_to_epoch(v))
            elif k in ("trigger_data", "run_data"):
                out.append(json.dumps(v, sort_keys=True))
''')], r'''
from h import *
with Daemon({"jobs": {"j": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("j", text="1: one\ntwo: 2\n", name="trigger.yaml")
    check(d.wait(lambda: len(d.rows()) == 1 or not d.alive()), "the run was not recorded")
    check(d.alive(), "the scheduler has ended")
''')

seed("d06-one-stub-job", "D06",
     "recorded runs of two jobs which are no longer configured",
     "all runs of jobs which are no longer configured are listed under the name of the first of them",
     [(DB, '''        fake_jobs = {}
        for db_result in cur:
            if db_result["job_name"] in self.config.jobs:
                job = self.config.jobs[db_result["job_name"]]
            elif db_result["job_name"] in fake_jobs:
                job = fake_jobs[db_result["job_name"]]
            else:
                job = dsari.Job(db_result["job_name"])
                fake_jobs[db_result["job_name"]] = job
''', '''        fake_job = None
        for db_result in cur:
            if db_result["job_name"] in self.config.jobs:
                job = self.config.jobs[db_result["job_name"]]
            else:
                if fake_job is None:
                    fake_job = dsari.Job(db_result["job_name"])
                job = fake_job
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
for n, name in enumerate(("a", "b", "j")):
    run(db, dsari.Job(name), n, 0, 1, 2)
check(sorted(r.job.name for r in db.get_runs()) == ["a", "b", "j"], "other job names")
''')

seed("d07-uri-only", "D07",
     "MongoDB with both a uri and connection options (e.g. tls or authSource)",
     "the connection options of MongoDB are dropped if there is a uri",
     [(DB, '''        else:
            uri = None
        if ("connection" in config.database) and (
            type(config.database["connection"]) == dict
        ):
''', '''        else:
            uri = None
        if (
            (uri is None)
            and ("connection" in config.database)
            and (type(config.database["connection"]) == dict)
        ):
''')], BASE + r'''
calls = []
m = types.ModuleType("pymongo")
class Any(dict):
    def __getitem__(self, k): return Any()
    def __getattr__(self, k): return Any()
    def __call__(self, *a, **k): return Any()
def client(*a, **k):
    calls.append((a, k))
    return Any()
m.MongoClient = client
m.DESCENDING = -1
sys.modules["pymongo"] = m
write({"jobs": {"j": J}, "database": {"type": "mongodb", "uri": "mongodb://db/", "connection": {"tls": True}}})
dsari.database.get_database(load())
check(calls[0][1].get("tls") is True and (calls[0][0] or (calls[0][1].get("host"),))[0] == "mongodb://db/", repr(calls))
''')

seed("s13-assign-before-load", "S13",
     "a reload (SIGHUP) with a configuration which cannot be loaded, then the end of a run or a trigger",
     "a reload replaces the configuration before it is known to be valid",
     [(D, '''        self.config = dsari.config.get_config(self.args.config_dir)
''', '''        self.config = dsari.config.Config()
        dsari.config.ConfigLoader(self.config).load_dir(self.args.config_dir)
''')], r'''
import os, signal, time
from h import *
with Daemon({"jobs": {"j": {"command": ["sh", "-c", "echo $DATA_DIR"]}}}) as d:
    d.start()
    with open(os.path.join(d.conf, "dsari.json"), "w") as f:
        json.dump({"data_dir": os.path.join(d.d, "other"), "jobs": {"j": {"command": 5}}}, f)
    d.signal(signal.SIGHUP)
    time.sleep(1.5)
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1, 8), "the run was not started")
    check(d.output(d.rows()[0]).strip() == d.data, "another data directory")
''')

seed("s15-stale-of-vanished-jobs", "S15",
     "a scheduler crashes while a run runs, and its job is removed from the configuration before the next start",
     "only the stale running records of configured jobs are cleared at the start",
     [(DB, '''        sql_statement = """
            DELETE
            FROM
                runs_running
        """
        sql_statement = self._modify_statement(sql_statement)
        cur = self.db_conn.cursor()
        cur.execute(sql_statement)
        self.db_conn.commit()
''', '''        sql_statement = """
            DELETE
            FROM
                runs_running
            WHERE
                job_name = {}
        """
        sql_statement = self._modify_statement(sql_statement)
        cur = self.db_conn.cursor()
        for job_name in self.config.jobs:
            cur.execute(sql_statement, (job_name,))
        self.db_conn.commit()
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, dsari.Job("gone"), 1, 0, 1, None)
run(db, c.jobs["j"], 2, 0, 1, None)
from h import Daemon
with Daemon({"jobs": {"j": J}}) as d:
    shutil.copy(os.path.join(DATA, "dsari.sqlite3"), d.data)
    d.start()
    check(d.rows("runs_running") == [], "stale running records are left")
''')

seed("s16-sort-by-group", "S16",
     "SIGQUIT while two runs of a job are running, one of them started before a reload gave the job a concurrency group",
     "SIGQUIT fails if of a job's running runs one has a concurrency group and another has none",
     [(D, '''        for run in sorted(self.running_runs, key=lambda x: x.job.name):
''', '''        for run in sorted(
            self.running_runs, key=lambda x: (x.job.name, x.concurrency_group)
        ):
''')], r'''
import signal, time
from h import *
c = {"command": ["sleep", "6"], "concurrent_runs": True}
with Daemon({"jobs": {"j": c}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    d.write({"jobs": {"j": dict(c, concurrency_groups=["g"])}})
    d.signal(signal.SIGHUP)
    time.sleep(1)
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "no second run")
    d.signal(signal.SIGQUIT)
    check(d.wait(lambda: len(d.rows()) == 2 or not d.alive()), "not recorded")
    check(d.alive(), "the scheduler has ended")
''')

seed("s17-group-of-changed-job", "S17",
     "a reload which takes the concurrency group from a job of which a run is running",
     "a run whose job no longer names its group loses its place in it, so the group exceeds its maximum",
     [(D, '''                if run.concurrency_group.name in self.config.concurrency_groups:
''', '''                if run.concurrency_group.name in [
                    x.name for x in run.job.concurrency_groups
                ]:
''')], r'''
import signal, time
from h import *
a, b = {"command": ["sleep", "5"]}, {"command": ["sleep", "5"], "concurrency_groups": ["g"]}
with Daemon({"jobs": {"a": b, "b": b}}) as d:
    d.start()
    d.trigger("a")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    d.write({"jobs": {"a": a, "b": b}})
    d.signal(signal.SIGHUP)
    time.sleep(1)
    d.trigger("b")
    t = time.time() + 2
    while time.time() < t:
        check(len(d.rows("runs_running")) <= 1, "more runs than the group's maximum")
        time.sleep(0.05)
''')

CF_ = "dsari/config.py"

seed("c01-only-dots", "C01",
     "a job named ...",
     "all names of dots only are refused, not just . and ..",
     [(CF_, """        if job_name in (".", ".."):
            return False
""", """        if job_name.strip(".") == "":
            return False
""")], BASE + r"""
write({"jobs": {"...": J}})
check(list(load().jobs) == ["..."], "a valid name was refused")
""")

seed("c02-no-job-names", "C02",
     "a job group without job_names",
     "a job group without job_names is accepted, and is none",
     [(CF_, """            if "job_names" not in job_template:
                raise ConfigError(
                    "Job group {}: job_names required".format(job_group_name)
                )
""", """            if job_template.setdefault("job_names", []) is None:
                raise ConfigError(
                    "Job group {}: job_names required".format(job_group_name)
                )
""")], BASE + r"""
write({"job_groups": {"g": dict(J, schedule="H * * * *")}})
try:
    load()
except dsari.config.ConfigError:
    sys.exit(0)
fail("a job group without job_names was accepted")
""")

seed("c03-no-grace", "C03",
     "a max_execution_grace of 0",
     "a max_execution_grace of 0 becomes the default of 60 seconds",
     [(CF_, """            "max_execution_grace": utils.seconds_to_td,
""", """            "max_execution_grace": lambda x: utils.seconds_to_td(x or 60.0),
""")], BASE + r"""
write({"jobs": {"j": dict(J, max_execution=5, max_execution_grace=0), "k": dict(J, max_execution=5, max_execution_grace=2)}})
c = load()
check(c.jobs["k"].max_execution_grace.total_seconds() == 2, "another grace")
check(c.jobs["j"].max_execution_grace.total_seconds() == 0, "another grace")
""")

seed("c04-groups-untried", "C04",
     "a job group whose schedule cannot be understood",
     "the schedules of job groups are not tried when the configuration is loaded",
     [(CF_, """        if job.schedule is not None:
            try:
""", """        if job.schedule is not None and job.job_group is None:
            try:
""")], BASE + r"""
write({"job_groups": {"g": dict(J, job_names=["a"], schedule="nonsense")}})
try:
    load()
except dsari.config.ConfigError:
    sys.exit(0)
fail("a bad schedule was accepted")
""")

seed("h02-inclusive", "H02",
     "an RRULE, looked up exactly at one of its times (without a fraction of a second)",
     "the next time of a recurrence is the present one, if it is exactly now",
     [(UT, """.after(start_time)
""", """.after(start_time, inc=True)
""")], BASE + r"""
t = datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc)
n = dsari.utils.get_next_schedule_time("RRULE:FREQ=SECONDLY", "j", start_time=t)
check((n - t).total_seconds() >= 1, "the next time is now")
""")

seed("h03-process-hash", "H03",
     "a restart of the scheduler",
     "hashed positions are different in each process, so a restart moves or loses times of a schedule",
     [("dsari/utils.py", """    crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
    subsecond""", """    crc = hash(job_name) & 0xFFFFFFFF
    subsecond""")], BASE + r"""
code = "import sys,os,datetime; sys.path.insert(0, os.getcwd()); import dsari.utils as u; print([u.get_next_schedule_time('@daily', n, start_time=datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc)) for n in 'abcdef'])"
out = {subprocess.run([PY, "-c", code], stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=s, PYTHONDONTWRITEBYTECODE="1")).stdout for s in ("1", "2", "3")}
check(len(out) == 1, "the times of a schedule depend on the process")
""")

seed("i01-cleans-up", "I01",
     "a database with a run recorded both as running and as ended (as on MongoDB for a moment)",
     "looking runs up removes running records of ended runs",
     [(DB, """        cur = self.db_conn.cursor()
        cur.execute(sql_statement, where_in)
        runs = []
""", """        cur = self.db_conn.cursor()
        cur.execute(sql_statement, where_in)
        db_results = cur.fetchall()
        # Runs which have ended are not running
        cur.execute(
            "DELETE FROM runs_running WHERE run_id IN (SELECT run_id FROM runs)"
        )
        runs = []
"""), (DB, """        for db_result in cur:
""", """        for db_result in db_results:
""")], BASE + r"""
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 1, 2)
run(db, c.jobs["j"], 1, 0, 1, None)
p = tool("info", "-c", CONF, "run", "list")
check(p.returncode == 0, p.stderr)
import sqlite3
n = sqlite3.connect(os.path.join(DATA, "dsari.sqlite3")).execute("select count(*) from runs_running").fetchone()[0]
check(n == 1, "a record was removed")
""")

seed("i05-whole-seconds", "I05",
     "--job-cache-time with a fraction",
     "the exporter refuses a --job-cache-time with a fraction of a second",
     [(PR, """        "--job-cache-time",
        type=float,
""", """        "--job-cache-time",
        type=int,
""")], BASE + r"""
write({"jobs": {"j": J}})
p = tool("prometheus_exporter", "-c", CONF, "--dump", "--job-cache-time", "0.5")
check(p.returncode == 0, p.stderr)
""")

seed("i05-no-subcommand", "I05",
     "dsari-info job, without a command",
     "dsari-info accepts a command without its subcommand, and fails on the way",
     [(IN, """    subparsers_job.required = True
""", """    subparsers_job.required = False
""")], BASE + r"""
write({"jobs": {"j": J}})
p = tool("info", "-c", CONF, "job")
check(p.returncode == 2 and "Traceback" not in p.stderr, p.stderr)
""")

seed("m02-time-before-lookup", "M02",
     "a request which fails (e.g. the database cannot be reached) after metrics have been cached, and one after it",
     "after a failed lookup old metrics count as new ones",
     [(PR, """            self.job_cache = self.get_job_metrics()
            self.job_cache_time = dtnow()
""", """            self.job_cache_time = dtnow()
            self.job_cache = self.get_job_metrics()
""")], BASE + r"""
import dsari.prometheus_exporter as pe, time
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 1, 2)
p = pe.Prometheus(pe.parse_args(["-c", CONF, "--job-cache-time", "1"]))
check('dsari_run_count{job_name="j"} 1' in p.get_metrics(), "no metrics")
run(db, c.jobs["j"], 2, 3, 4, 5)
time.sleep(1.5)
real = p.db.get_runs
def broken(*a, **k): raise OSError("down")
p.db.get_runs = broken
try:
    p.get_metrics()
    fail("no failure")
except OSError:
    pass
p.db.get_runs = real
check('dsari_run_count{job_name="j"} 2' in p.get_metrics(), "old metrics")
""")

seed("m03-without-run-id", "M03",
     "two runs of a job in progress at once",
     "the metrics of runs in progress have no run_id: two runs of a job have the same",
     [(PR, """                running_run_start_time.append(
                    (
                        {"job_name": job.name, "run_id": run.id},
                        dt_to_epoch(run.start_time),
                    )
                )
""", """                running_run_start_time.append(
                    ({"job_name": job.name}, dt_to_epoch(run.start_time))
                )
""")], BASE + r"""
import re
write({"jobs": {"j": dict(J, concurrent_runs=True)}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 1, None)
run(db, c.jobs["j"], 2, 0, 1, None)
p = tool("prometheus_exporter", "-c", CONF, "--dump")
series = [l.rsplit(" ", 1)[0] for l in p.stdout.splitlines() if not l.startswith("#")]
check(len(series) == len(set(series)), "a metric twice")
""")

seed("r04-gz-in-place", "R04",
     "report_html_gz, and dsari-render interrupted while it writes a page",
     "compressed pages are written under their names: an interrupted one stays",
     [(RE, """    if filename.endswith(".gz"):
        data = gzip.compress(data)
""", """    if filename.endswith(".html.gz"):
        with gzip.open(filename, "wb") as f:
            f.write(data)
        return
""")], BASE + r"""
import gzip
write({"jobs": {"j": J}, "report_html_gz": True})
c = load()
db = dsari.database.get_database(c)
r = run(db, c.jobs["j"], 1, 0, 1, 2)
import dsari.render, argparse
class Interrupted(BaseException): pass
real, real_compress = gzip.GzipFile.write, gzip.compress
def write_(self, data):
    real(self, data[: len(data) // 2])
    raise Interrupted
def compress(*a, **k): raise Interrupted
gzip.GzipFile.write, gzip.compress = write_, compress
try:
    dsari.render.Renderer(argparse.Namespace(config_dir=CONF, regenerate=False, debug=False)).render()
except Interrupted:
    pass
gzip.GzipFile.write, gzip.compress = real, real_compress
p = tool("render", "-c", CONF)
f = os.path.join(DATA, "html", "j", r.id, "index.html.gz")
try:
    text = gzip.open(f, "rt").read()
except (OSError, EOFError) as e:
    fail(repr(e))
check("</html>" in text, "a partial page stays")
""")

seed("s10-previous-of-first-attempt", "S10",
     "a run which is blocked by its concurrency group while another run of its job ends, then starts",
     "the previous runs are those of the first attempt to start a run, not of its start",
     [(D, """        run.concurrency_group = None
        if len(job.concurrency_groups) > 0:
""", """        if not hasattr(run, "previous_run"):
            (
                run.previous_run,
                run.previous_good_run,
                run.previous_bad_run,
            ) = self.db.get_previous_runs(job)
        run.concurrency_group = None
        if len(job.concurrency_groups) > 0:
"""), (D, """        (
            run.previous_run,
            run.previous_good_run,
            run.previous_bad_run,
        ) = self.db.get_previous_runs(job)

        if not os""", """        if not os""")], r"""
import time
from h import *
c = {"command": ["sh", "-c", "echo $PREVIOUS_RUN_ID; sleep 2"], "concurrency_groups": ["g"], "concurrent_runs": True}
with Daemon({"jobs": {"j": c}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 2, 40), "no second run")
    a, b = sorted(d.rows(), key=lambda r: r["start_time"])
    check(d.output(b).strip() == a["run_id"], "another previous run")
""")

seed("s11-command-grows", "S11",
     "command_append_run, and the second run of the job",
     "the job's name and the run's id are appended in the scheduler, so they add up from run to run",
     [(D, """        child_pid = os.fork()
        if child_pid == 0:
            self.run_child_executor(run)
""", """        # Build command line
        if job.command_append_run:
            job.command.append(job.name)
            job.command.append(run.id)

        child_pid = os.fork()
        if child_pid == 0:
            self.run_child_executor(run)
"""), (D, """        # Build command line
        command = job.command
        if job.command_append_run:
            command.append(job.name)
            command.append(run.id)
""", """        command = job.command
""")], r"""
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["echo", "x"], "command_append_run": True}}}) as d:
    d.start()
    for n in (1, 2):
        d.trigger("j")
        check(d.wait(lambda: len(d.rows()) == n), "no run")
    for r in d.rows():
        check(d.output(r).split() == ["x", "j", r["run_id"]], "another command line")
""")

seed("s06-kill-stops-at-killed", "S06",
     "shutdown_kill_runs and a grace time, while a run which was killed for its max_execution is not gone yet",
     "after the grace time the runs behind one which had its SIGKILL are not killed",
     [(D, """            if run.kill_sent:
                continue
            job = run.job
            self.logger.info(
                "[{} {}] Shutdown grace""", """            if run.kill_sent:
                return
            job = run.job
            self.logger.info(
                "[{} {}] Shutdown grace""")], r"""
import os, time
from h import *
# The process which was killed is not waited for, as if it was not gone yet
PRE = '''
hold = os.environ["HOLD"]
real_wait4 = os.wait4
def wait4(pid, options):
    if os.path.exists(hold):
        return (0, 0, None)
    return real_wait4(pid, options)
os.wait4 = wait4
'''
t = ["sh", "-c", "trap '' TERM; sleep 15; sleep 15"]
with Daemon({"shutdown_kill_runs": True, "shutdown_kill_grace": 3, "jobs": {"a": {"command": t, "max_execution": 2, "max_execution_grace": 1}, "b": {"command": t}}}, PRE) as d:
    hold = os.path.join(d.d, "hold")
    os.environ["HOLD"] = hold
    d.start()
    d.trigger("a")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    d.trigger("b")
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "no run")
    open(hold, "w").close()
    check(d.wait(lambda: any(s == 9 for _, s in d.kills()), 15), "not killed")
    d.signal(signal.SIGTERM)
    ok = d.wait(lambda: len({p for p, s in d.kills() if s == 9}) == 2, 10)
    os.remove(hold)
    check(ok, "the other run was not killed")
""")
