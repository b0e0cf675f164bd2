"""mkseed.py SPEC.py: makes seeded/<id>/ from a spec which calls seed(...)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ONLY = sys.argv[2:]


def seed(id, prop, needs, breaks, edits, demo):
    if ONLY and id not in ONLY:
        return
    t = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
        assert d
        o = os.path.join(V, "seeded", id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(d)
        open(o + "/demo.py", "w").write(demo.lstrip("\n"))
        shutil.copy(V + "/tools/demo/demo.sh", o + "/demo.sh")
        shutil.copy(V + "/tools/demo/h.py", o + "/h.py")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
        print("made", id)
    finally:
        shutil.rmtree(t)


exec(open(sys.argv[1]).read())
