import importlib
import json
import os
import sys
import time

from .core import Rule
from .scenario import World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["r_sched", "r_child", "r_trigger", "r_db", "r_config", "r_life", "r_hash", "r_info", "r_prom", "r_render", "r_look", "r_opt"]
EXPLAIN = (
    "Static analysis of the current source of /repo: abstract interpretation over "
    "syntax trees (finite abstract domains, partitioned paths) and the rules of this "
    "property; nothing of the analysed program was executed."
)


def rules():
    out = {}
    for m in MODULES:
        out.update(importlib.import_module("dsa." + m).RULES)
    return out


def known_findings():
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("known: property="):
                    pid, _, rest = line[len("known: property="):].strip().partition(" ")
                    out.setdefault(pid, []).append(rest)
    except FileNotFoundError:
        pass
    return out


def decide(pid, fn, tier, seed, world=None):
    t0 = time.time()
    rule = None
    try:
        rule = Rule(pid, world or World(os.environ.get("DSA_REPO")))
        rule.tier, rule.doc = tier, fn.__doc__
        fn(rule)
    except Exception as e:
        if os.environ.get("DSA_DEBUG"):
            raise
        if rule is None:
            rule = Rule(pid, None)
        rule.require(None, "?", "analysis not possible: {}: {}".format(type(e).__name__, e))
    uniq = {}
    for key, loc, msg, trace in rule.violations:
        uniq.setdefault((loc, msg.split(" [")[0]), (loc, msg, trace))
    known = known_findings().get(pid, [])
    bad, found = [], []
    for loc, msg, trace in uniq.values():
        k = next((x for x in known if x.split(" :: ")[0] in msg), None)
        if k:
            found.append(k)
        else:
            bad.append((loc, msg, trace))
    return rule, bad, found, time.time() - t0


def report(rule, bad, found, wall, tier, seed):
    pid = rule.pid
    ev = os.environ.get("DSA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    und = {}
    for loc, msg in rule.undecided:
        und.setdefault(msg, loc)
    cov = {
        "explanation": EXPLAIN,
        "scenarios": [{"name": n, "paths": k} for n, k in rule.scenarios],
        "paths": rule.paths,
        "obligations": rule.obligations,
        "discharged": rule.discharged,
        "undecided": len(rule.undecided),
        "undecided_items": ["{} {}".format(l, m) for m, l in list(und.items())[:10]],
        "functions_analysed": sorted(rule.funcs),
        "library_call_sites": len(rule.sites),
        "constructs": rule.items,
        "rule": (rule.doc or "").strip(),
        "samples": rule.samples[:6],
    }
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": cov, "wall_s": round(wall, 3), "violations": len(bad),
        "assumptions": [
            "library functions behave as their transfer functions in dsa/models.py say",
            "the interpreter's and operating system's behaviour itself is not analysed",
        ],
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for x in found:
        print("KNOWN-FINDING: property={} {}".format(pid, x))
    for i, (loc, msg, trace) in enumerate(bad[:10]):
        path = os.path.join(ev, "{}-violation-{}.txt".format(pid, i + 1))
        with open(path, "w") as f:
            f.write("property: {}\nat: {}\n{}\n\n".format(pid, loc, msg))
            f.write("\n".join(trace) + "\n")
        print("{}: {}".format(loc, msg))
        print("VIOLATION property={} replay={}".format(pid, path))
    for m, l in list(und.items())[:10]:
        print("NOT DECIDED: {} {}".format(l, m))
    print(
        "{}: {} obligations, {} discharged, {} undecided, {} violations ({} paths, {:.1f} s)".format(
            pid, rule.obligations, rule.discharged, len(rule.undecided), len(bad), rule.paths, wall
        )
    )


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    rs = rules()
    if argv == ["--setup"]:
        print("{} rules ready".format(len(rs)))
        return 0
    ids = argv or sorted(rs)
    rc = 0
    for pid in ids:
        rule, bad, found, wall = decide(pid, rs[pid], tier, seed)
        report(rule, bad, found, wall, tier, seed)
        if bad:
            rc = 1
        elif not rule.discharged and rc == 0:
            print("{}: nothing was decided".format(pid))
            rc = 2
    return rc
