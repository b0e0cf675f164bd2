"""Runs the dsari daemon of the current directory on a scratch directory."""
import json
import os
import shutil
import signal
import sqlite3
import subprocess
import sys
import tempfile
import time

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
LAUNCH = r'''
import json, os, sys
sys.path.insert(0, os.getcwd())
log = os.environ.pop("DEMO_LOG")
real = os.kill
me = os.getpid()

def kill(pid, sig):
    # recorded; only delivered to a child of this very process
    with open(log, "a") as f:
        f.write("kill {} {}\n".format(pid, int(sig)))
    try:
        with open("/proc/{}/stat".format(int(pid))) as f:
            ppid = int(f.read().rpartition(")")[2].split()[1])
    except (OSError, ValueError):
        raise ProcessLookupError(pid)
    if int(pid) > 1 and ppid == me:
        real(int(pid), sig)

os.kill = kill
os.killpg = lambda pg, sig: kill(pg, sig)
extra = os.environ.pop("DEMO_PRE", "")
if extra:
    exec(extra)
import dsari.daemon
sys.argv = ["dsari-daemon", "--debug", "-c", sys.argv[1]]
sys.exit(dsari.daemon.main())
'''


class Daemon:
    def __init__(self, config, pre=""):
        self.d = tempfile.mkdtemp(prefix="dsari-demo-")
        self.conf, self.data = os.path.join(self.d, "conf"), os.path.join(self.d, "data")
        os.makedirs(self.conf)
        os.makedirs(self.data)
        self.pre = pre
        self.p = None
        self.write(config)

    def write(self, config):
        config = dict(config)
        config["data_dir"] = self.data
        tmp = os.path.join(self.conf, "new")
        with open(tmp, "w") as f:
            json.dump(config, f)
        os.rename(tmp, os.path.join(self.conf, "dsari.json"))

    def env(self):
        return dict(os.environ, DEMO_LOG=os.path.join(self.d, "kills"), DEMO_PRE=self.pre, PYTHONDONTWRITEBYTECODE="1")

    def start(self):
        self.out = open(os.path.join(self.d, "log"), "ab")
        self.p = subprocess.Popen([PY, "-c", LAUNCH, self.conf], stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL, env=self.env(), start_new_session=True)
        self.wait(lambda: "Scheduler running" in self.log() or self.p.poll() is not None, 15)
        return self

    def log(self):
        with open(os.path.join(self.d, "log"), errors="replace") as f:
            return f.read()

    def kills(self):
        try:
            with open(os.path.join(self.d, "kills")) as f:
                return [tuple(int(x) for x in l.split()[1:]) for l in f]
        except FileNotFoundError:
            return []

    def trigger(self, job, data=None, text=None, name="trigger.json", now=True):
        t = os.path.join(self.data, "trigger", job)
        os.makedirs(t, exist_ok=True)
        tmp = os.path.join(t, "new")
        with open(tmp, "w") as f:
            f.write(text if text is not None else json.dumps(data if data is not None else {}))
        os.rename(tmp, os.path.join(t, name))
        if now:
            self.signal(signal.SIGUSR1)

    def signal(self, sig):
        # self.p is a process this demonstration started
        if self.p.poll() is None:
            self.p.send_signal(sig)

    def rows(self, table="runs"):
        try:
            c = sqlite3.connect(os.path.join(self.data, "dsari.sqlite3"), timeout=10)
            c.row_factory = sqlite3.Row
            try:
                return [dict(r) for r in c.execute("select * from " + table)]
            finally:
                c.close()
        except sqlite3.OperationalError:
            return []

    def output(self, row):
        with open(os.path.join(self.data, "runs", row["job_name"], row["run_id"], "output.txt"), errors="replace") as f:
            return f.read()

    def wait(self, cond, timeout=20, step=0.05):
        end = time.time() + timeout
        while time.time() < end:
            if cond():
                return True
            time.sleep(step)
        return bool(cond())

    def alive(self):
        return self.p.poll() is None

    def stop(self, timeout=20):
        self.signal(signal.SIGTERM)
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return False
        return True

    def session(self):
        """processes of the daemon's session: it and its descendants"""
        out = []
        for n in os.listdir("/proc"):
            if not n.isdigit():
                continue
            try:
                with open("/proc/{}/stat".format(n)) as f:
                    st = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(st[3]) == self.p.pid and st[0] != "Z":
                out.append(int(n))
        return out

    def close(self):
        if self.p is not None:
            for pid in self.session():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        if self.p is not None and self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        if os.environ.get("DEMO_SHOW"):
            sys.stderr.write(self.log())
        shutil.rmtree(self.d, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def fail(msg):
    print("BROKEN: " + msg)
    sys.exit(1)


def check(ok, msg):
    if not ok:
        fail(msg)
