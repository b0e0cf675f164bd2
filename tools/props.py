#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), na=None, note=None, technique=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "hook_needed": None,
        },
    }
    assert len(title) <= 80, title
    P.append((d, na, note, technique))


DAEMON, DB, INIT, CONF, UTILS = "dsari/daemon.py", "dsari/database.py", "dsari/__init__.py", "dsari/config.py", "dsari/utils.py"
NOTESTS = "The existing tests cover only the configuration loader, the schedule hash and time helpers; none runs the scheduler. "
AI = "abstract interpretation of the source (trace-partitioned, effect and typestate rules)"
SQLAI = "abstract interpretation; SQL/MongoDB queries evaluated on abstract tables"
BASE = (
    "Decided on every path the abstract interpreter finds through the current source from the listed scenarios' "
    "abstract pre-states (symbolic times, names, ids, statuses; loops over unknown collections are unrolled to a "
    "small bound, which the paths' independence of position makes representative). Trusts the transfer functions "
    "of library calls in dsa/models.py; constructs it does not understand leave an obligation undecided, which is "
    "printed and raises no alarm. "
)

exec(open(os.path.join(HERE, "tools", "props_list.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, na, note, tech in P:
            f.write(json.dumps(d) + "\n")
    man = {"version": 1, "setup_cmd": "/usr/bin/python3 run.py --setup", "checks": [], "not_applicable": []}
    for d, na, note, tech in P:
        if na:
            man["not_applicable"].append({"property": d["id"], "reason": na})
            continue
        man["checks"].append({
            "property": d["id"],
            "quick_cmd": "/usr/bin/python3 run.py " + d["id"],
            "thorough_cmd": "VERIF_TIER=thorough /usr/bin/python3 run.py " + d["id"],
            "evidence_file": "evidence/{}.json".format(d["id"]),
            "technique": tech or AI,
            "level": "other",
            "level_note": BASE + (note or ""),
        })
    man["notes"] = "All checks share the analyser in dsa/; see DESIGN.md."
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
