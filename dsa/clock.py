"""Times with their zones (only where ip.data["clock"] is set).

  ("app", "at", x, zone)    an aware time: the instant x, shown in a zone
  ("app", "wall", zone, x)  a naive time: what the clocks of a zone show at x

Zones are values: C("local") of the process, C("utc"), C("server") of the
database, or any other.  A naive time read in a zone which is not its own is
an instant of its own, ("app", "misread", x, zone, zone)."""
from .values import C, S, app, NONE, lin_add, show

LOCAL, UTC = C("local"), C("utc")


def parts(v):
    """(aware, instant, zone) of a time, or None"""
    if v[0] == "app" and v[1] == "at":
        return True, v[2], v[3]
    if v[0] == "app" and v[1] == "wall":
        return False, v[3], v[2]
    return None


def mark(ip, v):
    ip.facts[("types", v)] = frozenset({"datetime"})
    ip.kinds[v] = "object"
    return v


def at(ip, x, z):
    return mark(ip, app("at", x, z))


def wall(ip, z, x):
    return mark(ip, app("wall", z, x))


def read(ip, z, x, zone):
    """the instant which a naive time of zone z means in another"""
    if z == zone:
        return x
    v = app("misread", x, z, zone)
    ip.kinds[v] = "float"
    return v


def zone_of(ip, v):
    if v is None or v == NONE:
        return LOCAL
    if v[0] == "const":
        return v
    s = show(v).lower()
    if "utc" in s or s.endswith("timezone()"):
        return UTC
    if "local" in s:
        return LOCAL
    return v


def now(ip, name, args, kw):
    if name == "utcnow":
        return wall(ip, UTC, ip.now)
    tz = args[0] if args else kw.get("tz", NONE)
    return wall(ip, LOCAL, ip.now) if tz == NONE else at(ip, ip.now, zone_of(ip, tz))


def from_timestamp(ip, name, args, kw):
    x = args[0]
    if parts(x):
        ip.throw("TypeError", "a number is required")
    tz = args[1] if len(args) > 1 else kw.get("tz", NONE)
    if name == "utcfromtimestamp":
        return wall(ip, UTC, x)
    return wall(ip, LOCAL, x) if tz == NONE else at(ip, x, zone_of(ip, tz))


def method(ip, v, name, args, kw):
    aware, x, z = parts(v)
    if name == "astimezone":
        to = zone_of(ip, args[0] if args else kw.get("tz", NONE))
        return at(ip, x if aware else read(ip, z, x, LOCAL), to)
    if name == "timestamp":
        return x if aware else read(ip, z, x, LOCAL)
    if name == "replace" and set(kw) == {"fold"} and not args:
        return v
    if name == "replace" and set(kw) == {"tzinfo"} and not args:
        tz = kw["tzinfo"]
        if tz == NONE:
            return wall(ip, z, x)
        to = zone_of(ip, tz)
        return at(ip, read(ip, z, x, to), to)
    if name == "utcoffset" and not aware:
        return NONE
    return NotImplemented


def binop(ip, op, a, b):
    """result, or None if neither is a time"""
    p, q = parts(a), parts(b)
    if p is None and q is None:
        return None
    if op == "-" and p and q:
        if p[0] != q[0]:
            ip.throw("TypeError", "can't subtract offset-naive and offset-aware datetimes")
        y = q[1] if p[0] or p[2] == q[2] else read(ip, q[2], q[1], p[2])
        v = lin_add(p[1], y, -1)
        ip.kinds.setdefault(v, "timedelta")
        return v
    if op in ("+", "-") and (p is None) != (q is None) and not (op == "-" and q):
        t, d = (p, b) if p else (q, a)
        x = lin_add(t[1], d, 1 if op == "+" else -1)
        return at(ip, x, t[2]) if t[0] else wall(ip, t[2], x)
    ip.throw("TypeError", "operand types")


def compare(ip, op, a, b):
    """the two instants to compare, True or False, or None if no times"""
    p, q = parts(a), parts(b)
    if p is None or q is None:
        return None
    if p[0] != q[0]:
        if op in ("==", "!="):
            return op == "!="
        ip.throw("TypeError", "can't compare offset-naive and offset-aware datetimes")
    y = q[1] if p[0] or p[2] == q[2] else read(ip, q[2], q[1], p[2])
    return p[1], y


# -- where ip.data["walls"] is set, a time is what the clocks of its zone show --

def epoch(ip, v):
    """the instant of a time: what is shown less the offset of the zone"""
    x = v
    while x[0] == "app" and x[1] in ("fold", "tz"):
        x = x[2]
    if x[0] == "app" and x[1] == "fromts":
        return x[2]
    if x[0] == "app" and x[1] == "withtz" and zone_of(ip, x[3]) == UTC:
        x = x[2]
        while x[0] == "app" and x[1] == "fold":
            x = x[2]
        return x
    off = app(".utcoffset", x)
    ip.kinds[off] = "timedelta"
    ip.set_range(off, -86400, 86400)
    return lin_add(x, off, -1)
