exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("sys").argv[1]), "batch2.py")).read().split("\nseed(")[0])

GONE = r'''
def without(*libs):
    """a program's main function where these libraries are missing"""
    def f(module, *args):
        code = "import sys,os; sys.path.insert(0, os.getcwd())\nfor n in sys.argv[1].split(','): sys.modules[n]=None\nsys.argv=sys.argv[2:]; import dsari.%s as m; sys.exit(m.main())" % module
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        return subprocess.run([PY, "-c", code, ",".join(libs), module, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60, env=env)
    return f

def python_without(code, *libs):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([PY, "-c", "import sys,os; sys.path.insert(0, os.getcwd())\nfor n in %r: sys.modules[n]=None\n" % (libs,) + code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60, env=env)
'''

seed("c10-croniter-takes-rrule", "C10",
     "croniter is not installed, python-dateutil is; a job with an RRULE schedule",
     "RRULE schedules need croniter, too: their jobs do not run without it",
     [(UT, '''try:
    import dateutil.rrule as dateutil_rrule
except ImportError as e:
    dateutil_rrule = e

''', '''try:
    import dateutil.rrule as dateutil_rrule
    from . import croniter_hash
except ImportError as e:
    croniter_hash = dateutil_rrule = e

'''), (UT, '''
try:
    from . import croniter_hash
except ImportError as e:
    croniter_hash = e
''', '''''')], BASE + GONE + r'''
write({"jobs": {"r": {"command": ["true"], "schedule": "RRULE:FREQ=DAILY"}, "c": {"command": ["true"], "schedule": "0 3 * * *"}}})
p = without("croniter")("info", "-c", CONF, "job", "list", "--format", "json")
check(p.returncode == 0, p.stderr)
d = json.loads(p.stdout)
check(d["r"].get("next_scheduled_run"), "the job with an RRULE has no next run")
p = tool("info", "-c", CONF, "job", "list", "--format", "json")
check(json.loads(p.stdout)["c"].get("next_scheduled_run"), "the cron job has no next run")
''')

seed("c10-xz-without-lzma", "C10",
     "Python without the lzma module, and output compressed with xz",
     "dsari-info crashes when it meets output compressed with xz where Python has no lzma module",
     [(UT, '''    elif (not isinstance(lzma, ImportError)) and os.path.isfile(
        "{}.xz".format(filename)
    ):
''', '''    elif os.path.isfile("{}.xz".format(filename)):
''')], BASE + GONE + r'''
import lzma
write({"jobs": {"j": J}})
c = load()
db = dsari.database.get_database(c)
r = run(db, c.jobs["j"], 1, 0, 1, 2)
output(r, "")
d = os.path.join(DATA, "runs", "j", r.id)
os.remove(os.path.join(d, "output.txt"))
with lzma.open(os.path.join(d, "output.txt.xz"), "wb") as f:
    f.write(b"hello\n")
p = without("lzma", "_lzma")("info", "-c", CONF, "run", "output", "--run", r.id)
if "unrecognized" in p.stderr or "required" in p.stderr:
    p = without("lzma", "_lzma")("info", "-c", CONF, "run", "output", r.id)
check(p.returncode == 0 and "Traceback" not in p.stderr, p.stderr)
''')

seed("c10-offers-yaml", "C10",
     "PyYAML is not installed, dsari-info is asked to print YAML",
     "dsari-info accepts the format yaml where PyYAML is missing, and then crashes",
     [(IN, '''    if not isinstance(yaml, ImportError):
        optional_formats.append("yaml")
''', '''    if yaml is not None:
        optional_formats.append("yaml")
''')], BASE + GONE + r'''
write({"jobs": {"j": J}})
p = without("yaml")("info", "-c", CONF, "job", "list", "--format", "yaml")
check(p.returncode == 2 and "invalid choice" in p.stderr, p.stderr)
''')

seed("c10-broken-json", "C10",
     "PyYAML is not installed, and the configuration is no valid JSON",
     "without PyYAML a configuration with a syntax error is not refused but crashes the program",
     [(UT, '''        except ValueError as e:
            e.args += (file,)
            raise
''', '''        except (yaml.YAMLError, ValueError) as e:
            if not isinstance(e, ValueError):
                raise ValueError(str(e), file)
            e.args += (file,)
            raise
''')], BASE + GONE + r'''
with open(os.path.join(CONF, "dsari.json"), "w") as f:
    f.write("{")
code = "import dsari.config\ntry: dsari.config.get_config(%r)\nexcept dsari.config.ConfigError: print('refused')\n" % CONF
p = python_without(code, "yaml")
check(p.stdout == "refused\n", p.stderr)
''')

seed("c10-yaml-trigger-lost", "C10",
     "PyYAML is not installed, and somebody leaves a trigger in YAML",
     "a YAML trigger is removed although it cannot be read",
     [(UT, '''    if file_type == "yaml" and isinstance(yaml, ImportError):
        raise ImportError("yaml not available")
    with open(file) as f:
        if delete_during:
            os.remove(file)
''', '''    with open(file) as f:
        if delete_during:
            os.remove(file)
        if file_type == "yaml" and isinstance(yaml, ImportError):
            raise ImportError("yaml not available")
'''), (D, '''            if fn_type == "yaml" and isinstance(yaml, ImportError):
                continue
            trigger_file = test_file
''', '''            trigger_file = test_file
''')], BASE + GONE + r'''
write({"jobs": {"j": J}})
t = os.path.join(DATA, "trigger", "j")
os.makedirs(t)
with open(os.path.join(t, "trigger.yaml"), "w") as f:
    f.write("{}\n")
code = r"""
import types, dsari.daemon as d
cls = next(c for c in vars(d).values() if isinstance(c, type) and hasattr(c, "process_triggers"))
args = types.SimpleNamespace(config_dir=%r, debug=False, no_timestamps=False, fork=False)
s = cls(args)
s.process_triggers()
""" % CONF
p = python_without(code, "yaml")
check(p.returncode == 0, p.stderr)
check(os.path.exists(os.path.join(t, "trigger.yaml")), "the trigger was removed")
''')
