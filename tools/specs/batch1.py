D = "dsari/daemon.py"
seed("s01-reload-forgets-job", "S01",
     "a reload (SIGHUP) while a run of the job is running, then a trigger of the job",
     "after a reload a running run keeps its old job, so a second run of a job without concurrent_runs starts beside it",
     [(D, '''            if run.job.name in self.config.jobs:
                run.job = self.config.jobs[run.job.name]
            else:
''', '''            if run.job.name not in self.config.jobs:
''')], r'''
import signal, time
from h import *
with Daemon({"jobs": {"j": {"command": ["sleep", "4"]}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    d.signal(signal.SIGHUP)
    time.sleep(1)
    d.trigger("j")
    t = time.time() + 2
    while time.time() < t:
        check(len(d.rows("runs_running")) < 2, "two runs of the job at once")
        time.sleep(0.05)
''')
seed("s02-reload-empties-groups", "S02",
     "a reload (SIGHUP) while two runs of one concurrency group are running",
     "of several running runs in a group only the last one keeps its place after a reload, so the group exceeds its maximum",
     [(D, '''                    if concurrency_group not in self.running_groups:
                        self.running_groups[concurrency_group] = []
                    self.running_groups[concurrency_group].append(run)
''', '''                    self.running_groups[concurrency_group] = [run]
''')], r'''
import signal, time
from h import *
c = {"command": ["sleep", "5"], "concurrency_groups": ["g"]}
with Daemon({"concurrency_groups": {"g": {"max": 2}}, "jobs": {"a": c, "b": c, "c": c}}) as d:
    d.start()
    d.trigger("a")
    d.trigger("b")
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "no runs")
    d.signal(signal.SIGHUP)
    time.sleep(1)
    d.trigger("c")
    t = time.time() + 2
    while time.time() < t:
        check(len(d.rows("runs_running")) <= 2, "more runs than the group's maximum")
        time.sleep(0.05)
''')
seed("s03-record-after-fork", "S03",
     "a crash of the scheduler, or a quick command, between the fork and the record",
     "a run's process is started before the run is recorded as running",
     [(D, '''        self.db.insert_running_run(run)

        child_pid = os.fork()
''', '''        child_pid = os.fork()
'''), (D, '''        run.pid = child_pid
        self.logger.info(
            "[{} {}] Running PID {}: {}".format(
''', '''        run.pid = child_pid
        self.db.insert_running_run(run)
        self.logger.info(
            "[{} {}] Running PID {}: {}".format(
''')], r'''
from h import *
# the command looks for its own record; the scheduler is slow after the fork
code = "import os,sqlite3; c=sqlite3.connect(os.environ['DATA_DIR']+'/dsari.sqlite3'); print(c.execute('select count(*) from runs_running where run_id=?',(os.environ['RUN_ID'],)).fetchone()[0])"
pre = """
import os, time
_fork = os.fork
def fork():
    p = _fork()
    if p: time.sleep(1.5)
    return p
os.fork = fork
"""
with Daemon({"jobs": {"j": {"command": [PY, "-c", code]}}}, pre) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1), "run not recorded")
    check(d.output(d.rows()[0]).strip() == "1", "a running run is not recorded")
''')
seed("s04-next-run-from-schedule-time", "S04",
     "a run of a frequent schedule which starts late, here because the previous one takes longer than the interval",
     "the next run is scheduled for the next time after the time for which the previous one was scheduled, not after now: missed times pile up",
     [(D, '''                start_time=dtlocalize(now, job.schedule_timezone),
            )
            if t is None:
                self.logger.debug(
                    "[{}] Schedule {} does not produce a future run, skipping".format(
                        job.name, job.schedule
                    )
                )
                return
''', '''                start_time=dtlocalize(run.schedule_time, job.schedule_timezone),
            )
            if t is None:
                self.logger.debug(
                    "[{}] Schedule {} does not produce a future run, skipping".format(
                        job.name, job.schedule
                    )
                )
                return
''')], r'''
from h import *
with Daemon({"jobs": {"j": {"command": ["sleep", "3"], "schedule": "RRULE:FREQ=SECONDLY;INTERVAL=1"}}}) as d:
    d.start()
    check(d.wait(lambda: len(d.rows()) >= 3, 40), "no runs")
    r = sorted(d.rows(), key=lambda x: x["start_time"])
    for a, b in zip(r, r[1:]):
        check(b["schedule_time"] >= a["start_time"], "a next run was scheduled for a time before the previous start")
''')
seed("s05-first-wakeup-only", "S05",
     "several queued runs of which a later due one comes first in the scheduler's shuffled list",
     "the scheduler does not wake up for the earliest of its queued runs, but for another one",
     [(D, '''            if wakeup < self.next_wakeup:
                self.next_wakeup = wakeup
''', '''            if wakeup < self.next_wakeup:
                self.next_wakeup = wakeup
                break
''')], r'''
import time
from h import *
pre = "import random; random.shuffle = lambda l: None"
now = time.time()
with Daemon({"jobs": {"a": {"command": ["true"]}, "b": {"command": ["true"]}}}, pre) as d:
    d.trigger("a", {"schedule_time": now + 25}, now=False)
    d.trigger("b", {"schedule_time": now + 6}, now=False)
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1, 14), "a due run was not started in time")
''')
seed("s06-second-term", "S06",
     "shutdown_kill_runs, and a second SIGTERM or SIGINT while a run is still running",
     "every further shutdown request sends SIGTERM to the running runs again",
     [(D, '''                os.kill(run.pid, signal.SIGTERM)
                run.term_sent = True
        elif len(self.running_runs) > 0:
''', '''                os.kill(run.pid, signal.SIGTERM)
        elif len(self.running_runs) > 0:
''')], r'''
import signal, time
from h import *
with Daemon({"shutdown_kill_runs": True, "jobs": {"j": {"command": ["sh", "-c", "trap '' TERM; sleep 4"]}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "no run")
    time.sleep(0.5)
    d.signal(signal.SIGTERM)
    time.sleep(0.7)
    d.signal(signal.SIGINT)
    time.sleep(0.7)
    k = [x for x in d.kills() if x[1] == signal.SIGTERM]
    check(len(k) == 1, "SIGTERM sent %d times" % len(k))
''')
seed("s07-limit-from-schedule-time", "S07",
     "a run which started later than it was scheduled (blocked, or triggered with an earlier schedule_time), with max_execution",
     "max_execution is measured from the time a run was scheduled for: a run which had to wait is killed too early",
     [(D, '''        delta = now - run.start_time
''', '''        delta = now - run.schedule_time
''')], r'''
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["sleep", "2"], "max_execution": 30}}}) as d:
    d.start()
    d.trigger("j", {"schedule_time": time.time() - 3600})
    check(d.wait(lambda: len(d.rows()) == 1), "no run")
    check(d.rows()[0]["exit_code"] == 0 and not d.kills(), "a run within its execution time was killed")
''')
seed("s09-child-returns", "S09",
     "a command which cannot be executed",
     "the child of a run whose command does not exist goes on as a second scheduler",
     [(D, '''            self.run_child_executor(run)
            raise OSError("run_child_executor returned, when it should not have")
''', '''            try:
                self.run_child_executor(run)
            except OSError as e:
                self.logger.error("[{} {}] {}".format(job.name, run.id, e))
                return
''')], r'''
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["/nonexistent/command"]}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows("runs_running")) + len(d.rows()) >= 1), "no run")
    time.sleep(2)
    check(len(d.session()) == 1, "there is more than one scheduler")
    check(len(d.rows()) == 1, "the run did not end")
''')
seed("s10-good-start-time", "S10",
     "a previous good run which is not the previous run",
     "PREVIOUS_GOOD_START_TIME is that of the previous run, good or bad",
     [(D, '''                dt_to_epoch(run.previous_good_run.start_time)
''', '''                dt_to_epoch(run.previous_run.start_time)
''')], r'''
from h import *
code = "import os,sys; print(os.environ.get('PREVIOUS_GOOD_START_TIME')); sys.exit(int(os.environ.get('EC','0')))"
with Daemon({"jobs": {"j": {"command": [PY, "-c", code]}}}) as d:
    d.start()
    for n, ec in enumerate(("0", "3", "0")):
        d.trigger("j", {"environment": {"EC": ec}})
        check(d.wait(lambda: len(d.rows()) == n + 1), "no run")
    r = sorted(d.rows(), key=lambda x: x["start_time"])
    check(abs(float(d.output(r[2])) - r[0]["start_time"]) < 0.001, "wrong PREVIOUS_GOOD_START_TIME")
''')
seed("s11-pgrp-only-on-tty", "S11",
     "a scheduler which is not started from a terminal",
     "runs stay in the scheduler's process group",
     [(D, '''        os.setpgid(os.getpid(), 0)
''', '''        if os.isatty(0):
            os.setpgid(os.getpid(), 0)
''')], r'''
from h import *
with Daemon({"jobs": {"j": {"command": [PY, "-c", "import os; print(os.getpgrp() == os.getpid())"]}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1), "no run")
    check(d.output(d.rows()[0]).strip() == "True", "a run is in the scheduler's process group")
''')
seed("s12-exit-code-masked", "S12",
     "a command with an exit status above 127",
     "exit statuses above 127 are recorded as others",
     [(D, '''            child_exit = child_exit >> 8
''', '''            child_exit = (child_exit >> 8) & 0x7F
''')], r'''
from h import *
with Daemon({"jobs": {"j": {"command": ["sh", "-c", "exit 200"]}}}) as d:
    d.start()
    d.trigger("j")
    check(d.wait(lambda: len(d.rows()) == 1), "no run")
    check(d.rows()[0]["exit_code"] == 200, "wrong exit code")
''')
seed("s14-return-data-directory", "S14",
     "a run which leaves a directory, or a file which cannot be read, as return_data.json",
     "the scheduler ends when return data cannot be read",
     [(D, '''                run.run_data["return_data"] = return_data
            except Exception:
''', '''                run.run_data["return_data"] = return_data
            except (ValueError, TypeError):
''')], r'''
from h import *
with Daemon({"jobs": {"j": {"command": ["sh", "-c", "mkdir $RUN_DIR/return_data.json"]}}}) as d:
    d.start()
    d.trigger("j")
    d.wait(lambda: len(d.rows()) == 1 or not d.alive(), 10)
    check(d.alive() and len(d.rows()) == 1, "the scheduler did not survive return data it cannot read")
''')
seed("t02-list-only", "T02",
     "a trigger file which contains a string, a number or null",
     "a trigger which is neither a mapping nor a list ends the scheduler",
     [(D, '''        if type(j) != dict:
''', '''        if isinstance(j, list):
''')], r'''
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["true"]}}}) as d:
    d.start()
    for t in ("5", "null", '"environment"'):
        d.trigger("j", text=t)
        time.sleep(0.8)
    check(d.alive(), "the scheduler ended")
    d.trigger("j", {})
    check(d.wait(lambda: len(d.rows()) == 1), "no run")
''')
seed("t04-schedule-ends", "T04",
     "the trigger of a job whose next scheduled run is queued",
     "after a trigger has replaced the queued run, the job's schedule does not go on",
     [(D, '''                run.respawn = old_run.respawn
''', '')], r'''
import time
from h import *
with Daemon({"jobs": {"j": {"command": ["true"], "schedule": "RRULE:FREQ=SECONDLY;INTERVAL=5"}}}) as d:
    d.start()
    d.trigger("j", {})
    check(d.wait(lambda: any(r["trigger_type"] == "file" for r in d.rows())), "no triggered run")
    check(d.wait(lambda: d.rows() and max(d.rows(), key=lambda r: r["start_time"])["trigger_type"] == "schedule", 15), "the schedule ended")
''')
seed("d04-two-transactions", "D04",
     "a crash between the two statements which record a run's end",
     "a run's end is recorded in two transactions: after a crash it is recorded as ended and as running",
     [("dsari/database.py", '''                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                    ("run_data", run.run_data),
                ]
            ),
        )

        sql''', '''                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                    ("run_data", run.run_data),
                ]
            ),
        )
        self.db_conn.commit()

        sql''')], r'''
import os, sqlite3, sys, tempfile, shutil, types
from h import *
sys.path.insert(0, os.getcwd())
import dsari, dsari.database
from dsari.utils import dtnow
t = tempfile.mkdtemp()
try:
    cfg = types.SimpleNamespace(database={"type": "sqlite3", "file": t + "/db"}, data_dir=t, jobs={})
    db = dsari.database.get_database(cfg)
    job = dsari.Job("j")
    cfg.jobs["j"] = job
    run = dsari.Run(job)
    run.schedule_time = run.start_time = run.stop_time = dtnow()
    run.exit_code = 0
    run.trigger_type = "file"
    db.insert_running_run(run)
    bad = []
    def seen(statement):
        # what another connection, or the next start, sees at each statement
        c = sqlite3.connect(t + "/db")
        try:
            a = c.execute("select count(*) from runs").fetchone()[0]
            b = c.execute("select count(*) from runs_running").fetchone()[0]
        except sqlite3.OperationalError:
            return
        finally:
            c.close()
        if a + b != 1:
            bad.append(statement)
    db.db_conn.set_trace_callback(seen)
    db.insert_run(run)
    db.db_conn.set_trace_callback(None)
    check(not bad, "a crash leaves the run recorded twice, or not at all")
finally:
    shutil.rmtree(t)
''')
