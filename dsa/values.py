"""Abstract values.

A value is a tuple whose first element is its kind:

  ("const", type, v)      a Python constant
  ("sym", name)           an unknown input (stands for every value of it)
  ("app", op, *args)      the result of a pure operation on values
  ("res", name, n)        the result of an effectful library call
  ("lin", c, terms)       c + sum(coef * atom): numbers, times, durations
  ("str", parts)          a string, concatenated from parts
  ("tuple", items)        a tuple of values
  ("obj", id)             a heap object (instance, list, dict, closure)
  ("fn", FuncInfo) ("bound", v, FuncInfo) ("cls", ClassInfo) ("bi", name)
  ("mod", name) ("ext", dotted) ("meth", v, name)
  ("top", why)            anything: the analysis lost track
"""


def C(v):
    return ("const", type(v).__name__, v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def S(name):
    return ("sym", name)


def app(op, *args):
    return ("app", op) + args


def is_const(v):
    return v[0] == "const"


def is_num(v):
    return v[0] == "const" and isinstance(v[2], (int, float)) and not isinstance(
        v[2], bool
    )


def cval(v):
    return v[2]


def lin_parts(v):
    """(const, {atom: coef})"""
    if v[0] == "lin":
        return v[1], dict(v[2])
    if v[0] == "const" and isinstance(v[2], (int, float, bool)):
        return (int(v[2]) if isinstance(v[2], bool) else v[2]), {}
    return 0, {v: 1}


def norm_num(x):
    if isinstance(x, float) and x == int(x) if x == x and abs(x) < 1e15 else False:
        return int(x)
    return x


def make_lin(c, terms):
    c = norm_num(c)
    items = tuple(
        sorted(
            ((a, norm_num(k)) for a, k in terms.items() if k != 0),
            key=lambda t: repr(t[0]),
        )
    )
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ("lin", c, items)


def lin_add(a, b, kb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    for t, k in tb.items():
        ta[t] = ta.get(t, 0) + kb * k
    return make_lin(ca + kb * cb, ta)


def lin_scale(a, k):
    c, t = lin_parts(a)
    return make_lin(c * k, {x: y * k for x, y in t.items()})


def make_str(parts):
    out = []
    for p in parts:
        if p[0] == "str":
            sub = p[1]
        else:
            sub = (p,)
        for q in sub:
            if (
                is_const(q)
                and isinstance(q[2], str)
                and out
                and is_const(out[-1])
                and isinstance(out[-1][2], str)
            ):
                out[-1] = C(out[-1][2] + q[2])
            elif is_const(q) and q[2] == "":
                continue
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and is_const(out[0]) and isinstance(out[0][2], str):
        return out[0]
    return ("str", tuple(out))


def subterms(v):
    yield v
    if v[0] in ("app", "str", "tuple", "lin"):
        stack = list(v[1:])
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in KINDS:
                    yield from subterms(x)
                else:
                    stack.extend(x)


KINDS = {
    "const", "sym", "app", "res", "lin", "str", "tuple", "obj", "fn", "bound",
    "cls", "bi", "mod", "ext", "meth", "top",
}


def mentions(v, x):
    return any(t == x for t in subterms(v))


def show(v, depth=0):
    k = v[0]
    if k == "const":
        return repr(v[2])
    if k == "sym":
        return v[1]
    if k == "app":
        if v[1] == "attr":
            return "{}.{}".format(show(v[2]), v[3])
        return "{}({})".format(
            v[1], ", ".join(show(a) if isinstance(a, tuple) else str(a) for a in v[2:])
        )
    if k == "res":
        return "{}()#{}".format(v[1], v[2])
    if k == "lin":
        out = []
        for a, c in v[2]:
            out.append(
                ("" if c == 1 else "-" if c == -1 else "{}*".format(c)) + show(a)
            )
        if v[1]:
            out.append(str(v[1]))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if k == "str":
        return "".join(
            p[2] if is_const(p) and isinstance(p[2], str) else "{" + show(p) + "}"
            for p in v[1]
        )
    if k == "tuple":
        return "(" + ", ".join(show(x) for x in v[1]) + ")"
    if k in ("fn", "bound"):
        return v[-1].qual
    if k == "cls":
        return v[1].qual
    return ":".join(str(x) for x in v)
