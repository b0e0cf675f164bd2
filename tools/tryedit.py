"""Apply edits to a scratch copy of /repo and show what the checks say.

usage: tryedit.py SPEC.py [names]; SPEC defines EDITS = [(name, ids, [(file, old, new)...])]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
TESTS = os.environ.get("TESTS")


def one(e):
    name, ids, edits = e
    d = tempfile.mkdtemp(prefix="tryedit-")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        for f, old, new in edits:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                return "{}: {} matches of {!r}".format(name, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, DSA_REPO=d + "/repo", DSA_EVIDENCE=d + "/ev")
        out = "" if ids else "(all)"
        r = subprocess.run([sys.executable, here + "/run.py", *ids], env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or " violations (" in l or "undecided:" in l]
        s = r.stdout + r.stderr
        summ = [re.sub(r"obligations, \d+ discharged, ", "", l) for l in s.splitlines() if " violations (" in l]
        if os.environ.get("SHOW"):
            summ.append(s)
        else:
            summ = [x for x in summ if len(ids) <= 3 or " 0 undecided, 0 violations" not in x] or ["quiet"]
        return "{}: rc={} {}".format(name, r.returncode, " | ".join(summ))
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, [e for e in g["EDITS"] if not only or e[0] in only]):
        print(r, flush=True)
