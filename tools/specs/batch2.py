"""Planted bugs outside the scheduler's loop."""
DB = "dsari/database.py"
CF = "dsari/config.py"
UT = "dsari/utils.py"
IN = "dsari/info.py"
PR = "dsari/prometheus_exporter.py"
RE = "dsari/render.py"
CH = "dsari/croniter_hash.py"
D = "dsari/daemon.py"

# A data directory with runs in its database, for the programs which read it
BASE = r'''
import datetime, io, json, os, shutil, subprocess, sys, tempfile, types, contextlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from h import check, fail, PY
import atexit
TOP = tempfile.mkdtemp(prefix="dsari-demo-")
atexit.register(shutil.rmtree, TOP, True)
CONF, DATA = os.path.join(TOP, "conf"), os.path.join(TOP, "data")
os.makedirs(CONF)
os.makedirs(DATA)
import dsari, dsari.config, dsari.database, dsari.utils

def write(config):
    with open(os.path.join(CONF, "dsari.json"), "w") as f:
        json.dump(dict(config, data_dir=DATA), f)

def load():
    return dsari.config.get_config(CONF)

def run(db, job, n, schedule, start, stop, code=0, **kw):
    r = dsari.Run(job, id="00000000-0000-0000-0000-%012d" % n)
    t0 = datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc)
    for k, v in (("schedule_time", schedule), ("start_time", start), ("stop_time", stop)):
        if v is not None:
            setattr(r, k, t0 + datetime.timedelta(seconds=v))
    r.exit_code = code
    r.trigger_type = kw.get("trigger_type", "schedule")
    r.trigger_data = kw.get("trigger_data", {})
    r.run_data = kw.get("run_data", {})
    (db.insert_run if stop is not None else db.insert_running_run)(r)
    return r

def output(r, text):
    d = os.path.join(DATA, "runs", r.job.name, r.id)
    os.makedirs(d)
    with open(os.path.join(d, "output.txt"), "w") as f:
        f.write(text)

def tool(module, *args):
    code = "import sys,os; sys.path.insert(0, os.getcwd()); sys.argv=sys.argv[1:]; import dsari.%s as m; sys.exit(m.main())" % module
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([PY, "-c", code, module, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60, env=env)

def page(*names):
    with open(os.path.join(DATA, "html", *names)) as f:
        return f.read()
J = {"command": ["true"]}
'''

seed("d03-by-schedule-time", "D03",
     "a run which was scheduled earlier but ended later than another one (concurrent runs, or a delayed run)",
     "the previous run of a job is the one scheduled last, not the one which ended last",
     [(DB, '''                job_name = {}
            ORDER BY
                stop_time DESC
        """
''', '''                job_name = {}
            ORDER BY
                schedule_time DESC
        """
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
a = run(db, c.jobs["j"], 1, 0, 0, 100)
b = run(db, c.jobs["j"], 2, 50, 50, 60)
check(db.get_previous_runs(c.jobs["j"])[0].id == a.id, "not the last run")
''')

seed("d08-drop-zone", "D08",
     "a job with a schedule_timezone which is not the local one",
     "epochs of times in another timezone are computed from their reading, so the times of runs are off by the difference of the offsets",
     [(UT, '''    return dt.timestamp()
''', '''    return datetime.datetime.combine(dt.date(), dt.time()).timestamp()
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
for hours in (-5, 3, 9):
    tz = datetime.timezone(datetime.timedelta(hours=hours))
    t = datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc)
    check(abs(dsari.utils.dt_to_epoch(t.astimezone(tz)) - t.timestamp()) < 0.01, "wrong epoch")
''')

seed("c05-lists-add", "C05",
     "two configuration files which both give the same list (e.g. a job's command or concurrency_groups)",
     "a list in a later file is added to the one in an earlier file and does not replace it",
     [(UT, '''            out[k] = copy.deepcopy(v)
''', '''            new = copy.deepcopy(v)
            if isinstance(v, list) and isinstance(out.get(k), list):
                new = out[k] + [x for x in new if x not in out[k]]
            out[k] = new
''')], BASE + r'''
write({"jobs": {"j": {"command": ["a", "b"]}}})
os.makedirs(os.path.join(CONF, "config.d"))
with open(os.path.join(CONF, "config.d", "x.json"), "w") as f:
    json.dump({"jobs": {"j": {"command": ["c"]}}}, f)
check(load().jobs["j"].command == ["c"], "not the later file's command")
''')

seed("c07-unshared-group", "C07",
     "a concurrency group which is only named by its jobs (no concurrency_groups section)",
     "every job gets its own group object, which is not registered, so the jobs do not share one limit",
     [(CF, '''                concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
                self.config.concurrency_groups[
                    concurrency_group.name
                ] = concurrency_group
''', '''                concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
''')], BASE + r'''
g = {"command": ["true"], "concurrency_groups": ["g"]}
write({"jobs": {"a": g, "b": g}})
c = load()
check("g" in c.concurrency_groups, "group is not in the configuration")
check(c.jobs["a"].concurrency_groups[0] is c.jobs["b"].concurrency_groups[0], "group is not shared")
''')

seed("h01-random-byte", "H01",
     "R items in the later fields (e.g. the sixth, seconds): the random number is shifted by the position",
     "R items draw from one byte, so that most numbers of the range never come up",
     [(CH, """            crc = random.randint(0, 0xFFFFFFFF)
""", """            crc = random.randint(0, 0xFF)
""")], r"""
import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from h import *
from dsari.croniter_hash import croniter_hash
seen = set()
for i in range(3000):
    seen.add(str(croniter_hash("0 0 1 1 * R", hash_id="job").expanded[5]))
check(len(seen) > 50, "only {} of 60 seconds".format(len(seen)))
""")

seed("h04-fixed-offset", "H04",
     "a named schedule_timezone, and a schedule whose next time is after the next change of the clocks",
     "times in a zone are converted to its offset at that time, so next times beyond a change of the clocks are an hour off",
     [(UT, '''            return dt.astimezone(tz)
        elif''', '''            return dt.astimezone(datetime.timezone(dt.astimezone(tz).utcoffset()))
        elif''')], BASE + r'''
import dateutil.tz
tz = dateutil.tz.gettz("America/New_York")
if tz is None:
    sys.exit(0)
now = dsari.utils.dtlocalize(datetime.datetime(2021, 3, 1, 12, tzinfo=datetime.timezone.utc), tz)
t = dsari.utils.get_next_schedule_time("0 12 1 7 *", "j", now)
check(t.astimezone(tz).hour == 12, "not at noon: {}".format(t.astimezone(tz)))
''')

seed("i02-tabular-order", "I02",
     "runs whose order of starting differs from the order they were scheduled in (e.g. delayed by a concurrency group)",
     "dsari-info run list --format tabular is not in the order of the start times",
     [(IN, '''                for run in sorted(runs, key=lambda run: run.start_time):
''', '''                for run in sorted(runs, key=lambda run: run.schedule_time):
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 100, 110)
run(db, c.jobs["j"], 2, 50, 60, 70)
p = tool("info", "-c", CONF, "run", "list", "--format", "tabular")
check(p.returncode == 0, p.stderr)
ids = [l.split("\t")[0][-1] for l in p.stdout.splitlines()]
check(ids == ["2", "1"], "order {}".format(ids))
''')

seed("m01-last-by-start", "M01",
     "concurrent runs of a job, of which the one started first ends last",
     "the last-run metrics are those of the run which was started last, not of the one which ended last",
     [(PR, '''                last_run = sorted(runs, key=lambda run: run.stop_time)[-1]
''', '''                last_run = sorted(runs, key=lambda run: run.start_time)[-1]
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 1, 0, 0, 100, 3)
run(db, c.jobs["j"], 2, 50, 50, 60, 5)
p = tool("prometheus_exporter", "-c", CONF, "--dump")
check(p.returncode == 0, p.stderr)
check('dsari_last_run_exit_code{job_name="j"} 3' in p.stdout, "not the last run")
''')

seed("m02-stale-cache-after-reload", "M02",
     "a reload (SIGHUP) of the exporter with a changed set of jobs, before the job cache expires",
     "the cached job metrics of the old configuration are served after a reload",
     [(PR, '''        self.args = args
        self.load_config()
        self.db =''', '''        self.args = args
        self.job_cache = None
        self.job_cache_time = None
        self.load_config()
        self.db ='''), (PR, '''        self.config = dsari.config.get_config(self.args.config_dir)
        self.job_cache = None
        self.job_cache_time = None
''', '''        self.config = dsari.config.get_config(self.args.config_dir)
''')], BASE + r'''
write({"jobs": {"old": J}})
import dsari.prometheus_exporter as m
p = m.Prometheus(m.parse_args(["-c", CONF]))
check('"old"' in p.get_metrics(), "no metrics")
write({"jobs": {"new": J}})
p.load_config()
t = p.get_metrics()
check('"new"' in t and '"old"' not in t, "metrics of the old configuration")
''')

seed("r01-recent-failures", "R01",
     "a failed run which is older than the latest 100 runs",
     "the failed runs on the index page are searched for in the latest 100 runs only",
     [(RE, '''                    [run for run in self.runs if run.exit_code > 0],
''', '''                    [run for run in self.runs[-100:] if run.exit_code > 0],
''')], BASE + r'''
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
run(db, c.jobs["j"], 7, 0, 0, 1, 4)
for i in range(100, 205):
    run(db, c.jobs["j"], i, i, i, i + 1)
p = tool("render", "-c", CONF)
check(p.returncode == 0, p.stderr)
check("000000000007" in page("index.html"), "failed run not listed")
''')

seed("r02-autoescape-with-extension", "R02",
     "a Jinja version which has autoescape built in, where the extension cannot be imported any more",
     "pages are only escaped if Jinja's autoescape extension exists",
     [(RE, """    return ext in ("html", "htm", "xml")
""", """    return HAS_AUTOESCAPE and ext in ("html", "htm", "xml")
""")], BASE + r"""
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
r = run(db, c.jobs["j"], 1, 0, 0, 1, trigger_type="file", trigger_data={"description": "<script>x</script>"})
p = tool("render", "-c", CONF)
check(p.returncode == 0, p.stderr)
check("<script>x" not in page("j", r.id, "index.html"), "not escaped")
""")

seed("r03-limit-end-zero", "R03",
     "report_run_output_start without report_run_output_end, and an output longer than it",
     "with an end limit of 0 the whole output follows the shortened one",
     [(RE, '''            if limit_end > 0:
                run.output += raw_output[(0 - limit_end) :]
''', '''            run.output += raw_output[(0 - limit_end) :]
''')], BASE + r'''
write({"report_run_output_start": 10, "jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
r = run(db, c.jobs["j"], 1, 0, 0, 1)
output(r, "a" * 500 + "END")
p = tool("render", "-c", CONF)
check(p.returncode == 0, p.stderr)
check("END" not in page("j", r.id, "index.html"), "the output is not limited")
''')

seed("c02-bool-as-int", "C02",
     "true or false where a number is expected, e.g. \"max\": true",
     "booleans are accepted as numbers in the configuration",
     [(CF, '''            if type(v) not in valid_values[k]:
''', '''            if not isinstance(v, valid_values[k]):
''')], BASE + r'''
write({"concurrency_groups": {"g": {"max": True}}, "jobs": {"j": J}})
try:
    load()
except dsari.config.ConfigError:
    pass
else:
    fail("max: true is accepted")
''')

seed("c06-days", "C06",
     "a limit of more than a day",
     "limits longer than a day are shown without their days",
     [(UT, '''    return td.total_seconds()
''', '''    return td.seconds + td.microseconds / 1e6
''')], BASE + r'''
write({"jobs": {"j": {"command": ["true"], "max_execution": 90000}}})
p = tool("info", "-c", CONF, "config", "dump")
check(p.returncode == 0, p.stderr)
check(json.loads(p.stdout)["jobs"]["j"]["max_execution"] == 90000, "wrong max_execution")
''')

seed("i04-next-in-local-zone", "I04",
     "a job with a schedule_timezone which is not the local one",
     "dsari-info shows a next scheduled run which is computed in the local timezone",
     [(IN, '''                        job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
''', '''                        job.schedule, job.name, start_time=dtnow()
''')], BASE + r'''
# at least one of them is not the local one
for name in ("Asia/Tokyo", "America/New_York"):
    import dateutil.tz
    tz = dateutil.tz.gettz(name)
    if tz is None:
        sys.exit(0)
    write({"jobs": {"j": {"command": ["true"], "schedule": "30 3 * * *", "schedule_timezone": name}}})
    p = tool("info", "-c", CONF, "job", "list", "--format", "json")
    check(p.returncode == 0, p.stderr)
    t = datetime.datetime.fromisoformat(json.loads(p.stdout)["j"]["next_scheduled_run"])
    check(t.astimezone(tz).strftime("%H:%M") == "03:30", "next run at {} in {}".format(t.astimezone(tz), name))
''')

seed("c09-wrong-data-dir", "C09",
     "an installation configured in /usr/local/etc/dsari",
     "the data directory of a configuration in /usr/local/etc/dsari is /var/lib/dsari and not /usr/local/lib/dsari",
     [(CF, '''    DEFAULT_DATA_DIR = "/usr/local/lib/dsari"
''', '''    DEFAULT_DATA_DIR = "/var/lib/dsari"
''')], r'''
import os, subprocess
from h import *
code = """
import os, sys
sys.path.insert(0, os.getcwd())
os.environ.pop("DSARI_HOME", None)
real = os.path.exists
os.path.exists = lambda p: str(p).startswith("/usr/local/etc/dsari/") or ("dsari" not in str(p) and real(p))
import dsari.config as c
print(c.DEFAULT_CONFIG_DIR, c.DEFAULT_DATA_DIR)
"""
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME="/nonexistent")
out = subprocess.check_output([PY, "-c", code], env=env).decode().split()
check(out == ["/usr/local/etc/dsari", "/usr/local/lib/dsari"], str(out))
''')
