"""Mutants of one source file which no check reports.

usage: mutate.py FILE OUT [--checks ID,ID...] [--lines A-B] [--every N]
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("out")
ap.add_argument("--checks", default="")
ap.add_argument("--lines", default="1-100000")
ap.add_argument("--every", type=int, default=1)
ap.add_argument("--jobs", type=int, default=7)
a = ap.parse_args()
src = open(os.path.join("/repo", a.file)).read()
tree = ast.parse(src)
lines = src.split("\n")
starts = [0]
for l in lines:
    starts.append(starts[-1] + len(l.encode()) + 1)
raw = src.encode()
lo, hi = map(int, a.lines.split("-"))


def pos(n):
    return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset


def seg(n):
    b, e = pos(n)
    return raw[b:e].decode()


muts = []


def add(n, new, what):
    b, e = pos(n)
    if lo <= n.lineno <= hi:
        muts.append((n.lineno, what, (raw[:b] + new.encode() + raw[e:]).decode()))


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
docs = set()
for n in ast.walk(tree):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        docs.add(n.value)
logs = set()
for n in ast.walk(tree):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (
        (isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "logger") or n.func.attr == "add_argument"):
        for m in ast.walk(n):
            logs.add(m)
    if isinstance(n, ast.Raise):
        for m in ast.walk(n):
            logs.add(m)
for n in ast.walk(tree):
    if n in logs and not isinstance(n, ast.Raise):
        continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        l, r = seg(n.left), seg(n.comparators[0])
        add(n, "{} {} {}".format(l, CMP[type(n.ops[0])], r), "cmp: " + seg(n))
        if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            add(n, "{} {} {}".format(r, {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(n.ops[0])], l), "swap: " + seg(n))
    elif isinstance(n, ast.BoolOp):
        op = " or " if isinstance(n.op, ast.And) else " and "
        add(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop: " + seg(n))
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            o = " and " if isinstance(n.op, ast.And) else " or "
            add(n, "(" + o.join("(" + seg(v) + ")" for v in rest) + ")", "drop operand {}: {}".format(seg(n.values[i]), seg(n)))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        add(n, "(" + seg(n.operand) + ")", "drop not: " + seg(n))
    elif isinstance(n, ast.Constant) and n not in docs:
        if n.value is True or n.value is False:
            add(n, str(not n.value), "const: {} line".format(n.value))
        elif isinstance(n.value, (int, float)):
            add(n, repr(n.value + 1), "const: {}".format(n.value))
        elif isinstance(n.value, str) and n.value and "\n" not in n.value and len(n.value) < 60:
            add(n, repr(n.value + "_x"), "const: {!r}".format(n.value))
    elif isinstance(n, ast.BinOp):
        m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.BitAnd: "|", ast.RShift: "<<"}.get(type(n.op))
        if m:
            add(n, "({} {} {})".format(seg(n.left), m, seg(n.right)), "binop: " + seg(n))
    elif isinstance(n, ast.If):
        add(n.test, "False", "if False: " + seg(n.test))
        add(n.test, "True", "if True: " + seg(n.test))
    elif isinstance(n, (ast.Break, ast.Continue)):
        add(n, "pass", type(n).__name__.lower())
    elif isinstance(n, ast.Return) and n.value is not None:
        add(n, "return None", "return None: " + seg(n))
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        if n in logs or (isinstance(n, ast.Expr) and n.value in logs):
            continue
        add(n, "pass", "delete: " + seg(n)[:80])
    elif isinstance(n, ast.Raise):
        add(n, "pass", "delete: " + seg(n)[:80])
    elif isinstance(n, ast.Call) and len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
        x, y = n.args
        b, e = pos(n)
        bx, ex = pos(x)
        by, ey = pos(y)
        if lo <= n.lineno <= hi and isinstance(x, (ast.Name, ast.Attribute)) and isinstance(y, (ast.Name, ast.Attribute)):
            muts.append((n.lineno, "swap args: " + seg(n), (raw[:bx] + raw[by:ey] + raw[ex:by] + raw[bx:ex] + raw[ey:]).decode()))
    if isinstance(n, ast.keyword) and n.arg == "reverse":
        add(n.value, "False" if seg(n.value) == "True" else "True", "reverse")

seen, uniq = set(), []
for m in muts:
    if m[2] in seen or m[2] == src:
        continue
    try:
        ast.parse(m[2])
    except SyntaxError:
        continue
    seen.add(m[2])
    uniq.append(m)
uniq.sort(key=lambda m: m[0])
uniq = uniq[:: a.every]
print(len(uniq), "mutants", flush=True)
stages = [[x for x in g.split(",") if x] for g in a.checks.split("/")]  # A,B/C,D: C and D only if A and B are quiet


def one(m):
    d = tempfile.mkdtemp(prefix="mutate-")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(d, "repo", a.file), "w").write(m[2])
        env = dict(os.environ, DSA_REPO=d + "/repo", DSA_EVIDENCE=d + "/ev")
        by, und = [], []
        for ids in stages:
            try:
                r = subprocess.run([sys.executable, here + "/run.py", *ids], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return m, "timeout"
            by = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
            und += sorted({l.split(":")[0] for l in r.stdout.splitlines() if " undecided, " in l and " 0 undecided," not in l})
            if by:
                break
        return m, ("caught " + ",".join(by)) if by else "SURVIVES" + (" undecided " + ",".join(und) if und else "")
    finally:
        shutil.rmtree(d)


tot = {}
with open(a.out, "w") as f, ThreadPoolExecutor(a.jobs) as ex:
    for m, r in ex.map(one, uniq):
        k = r.split()[0]
        tot[k] = tot.get(k, 0) + 1
        f.write("{}:{} [{}] {} | {}\n".format(a.file, m[0], r, m[1].replace("\n", " "), lines[m[0] - 1].strip()[:100]))
        f.flush()
print(tot)
