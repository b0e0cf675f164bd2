"""The polyhedra domain, as far as it is needed: entailment of one linear
inequality by the linear facts of a path (Fourier-Motzkin elimination)."""
from fractions import Fraction

from .values import lin_parts, lin_add

LIMIT = 400


def integral(ip, a):
    k = ip.kinds.get(a)
    return k == "int" or (a[0] == "app" and a[1] == "len")


def constraint(ip, terms, c, strict):
    """sum(terms) + c <= 0 (or < 0), tightened if everything is an integer"""
    try:
        terms = {a: Fraction(k) for a, k in terms.items() if k}
        c = Fraction(c)
    except (OverflowError, ValueError):
        return None
    if strict and terms and all(k.denominator == 1 and integral(ip, a) for a, k in terms.items()) and c.denominator == 1:
        c, strict = c + 1, False
    return terms, c, strict


def facts(ip, atoms):
    """the constraints known of the given atoms (and those they are related to)"""
    out, todo, seen = [], list(atoms), set(atoms)
    forms = [(dict(k[1]), f) for k, f in ip.facts.items() if isinstance(k, tuple) and k and k[0] == "rng"]
    eqs = []
    while todo:
        a = todo.pop()
        lo, hi, lo_open, hi_open = ip.atom_range(a)
        if lo != -ip.INF:
            out.append(constraint(ip, {a: -1}, lo, lo_open))
        if hi != ip.INF:
            out.append(constraint(ip, {a: 1}, -hi, hi_open))
        for t, f in forms:
            if a in t and len(t) > 1:
                for b in t:
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
    for t, (lo, hi, lo_open, hi_open) in forms:
        if len(t) > 1 and all(a in seen for a in t):
            if lo != -ip.INF:
                out.append(constraint(ip, {a: -k for a, k in t.items()}, lo, lo_open))
            if hi != ip.INF:
                out.append(constraint(ip, t, -hi, hi_open))
    return [c for c in out if c], seen


def infeasible(cs):
    """True: no solution; False: there is one (over the rationals); None: gave up"""
    cs = list(cs)
    while True:
        live = []
        for t, c, strict in cs:
            if not t:
                if c > 0 or (c == 0 and strict):
                    return True
            else:
                live.append((t, c, strict))
        if not live:
            return False
        count = {}
        for t, c, s in live:
            for a, k in t.items():
                p = count.setdefault(a, [0, 0])
                p[k > 0] += 1
        x = min(count, key=lambda a: count[a][0] * count[a][1])
        pos = [z for z in live if z[0].get(x, 0) > 0]
        neg = [z for z in live if z[0].get(x, 0) < 0]
        cs = [z for z in live if x not in z[0]]
        seen = set()
        for tp, cp, sp in pos:
            for tn, cn, sn in neg:
                kp, kn = tp[x], -tn[x]
                t = {}
                for a, k in tp.items():
                    if a != x:
                        t[a] = t.get(a, 0) + k / kp
                for a, k in tn.items():
                    if a != x:
                        t[a] = t.get(a, 0) + k / kn
                t = {a: k for a, k in t.items() if k}
                z = (t, cp / kp + cn / kn, sp or sn)
                key = (frozenset(t.items()), z[1], z[2])
                if key not in seen:
                    seen.add(key)
                    cs.append(z)
        if len(cs) > LIMIT:
            return None


def free(a):
    """may the atom have any value its facts allow?"""
    return a[0] == "sym" or (a[0] == "app" and a[1] == "len" and a[2][0] == "sym")


def holds(ip, op, a, b):
    """True: a op b on the whole path; False: it can be false; None: unknown"""
    if op == "==":
        x, y = holds(ip, "<=", a, b), holds(ip, ">=", a, b)
        return False if x is False or y is False else True if x and y else None
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    c, t = lin_parts(lin_add(a, b, -1))
    try:
        cs, atoms = facts(ip, set(t))
        neg = constraint(ip, {x: -k for x, k in t.items()}, -c, op == "<=")
    except (OverflowError, ValueError, TypeError):
        return None
    if neg is None:
        return None
    r = infeasible(cs + [neg])
    if r:
        return True
    if r is False and all(free(x) for x in t):
        return False
    return None
