"""Rules over schedules: hashed items and the next time."""
import ast
import itertools
import signal

from .core import *  # noqa: F401,F403
from .front import ClassInfo
from .interp import OInst, Stop
from .scenario import NOW, Anchor
from .clock import UTC, zone_of
from .r_sched import deliver, eq3, next_time, no_files
from .r_config import mk
from .values import mentions

RANGES = ((0, 59), (0, 23), (1, 31), (1, 12), (0, 6), (0, 59))
IMPURE = ("random", "hash", "id", "os.getpid", "os.urandom", "time.time", "uuid.uuid4", "os.environ")
ALIASES = {"@midnight": "H H(0-2) * * * H", "@hourly": "H * * * * H", "@daily": "H H * * * H", "@weekly": "H H * * H H",
           "@monthly": "H H H * * H", "@yearly": "H H H H * H", "@annually": "H H H H * H"}
OTHER = ["*", "5", "*/5", "1-5", "1,2", "1-5/2", "MON", "L", "jan", "0", "3#2", "?"]


def cron_class(w):
    for c in w.repo.classes.values():
        for b, e in zip(c.bases, c.base_exprs):
            if isinstance(b, ClassInfo):
                continue
            r = w.repo.static_resolve(c.module, e)
            if r and r[0] == "ext" and r[1] == "croniter.croniter":
                return c
    raise Anchor("a subclass of croniter.croniter")


def make(st, expr, hash_id=S("name"), **kw):
    """an instance is created: what the base class gets"""
    ip = st.ip
    cls = cron_class(st.w)
    ip.kinds[S("name")] = "str"
    ip.facts[("types", S("name"))] = frozenset({"str"})
    ip.facts[("truthy", S("name"))] = True
    o = ip.alloc(OInst(cls, {"RANGES": ("tuple", tuple(("tuple", (C(a), C(b))) for a, b in RANGES))}))
    st.obj = o
    kw = dict(kw)
    if hash_id is not None:
        kw["hash_id"] = hash_id
    ip.call(("bound", o, cls.find("__init__")), [expr if isinstance(expr, tuple) else C(expr)], kw)
    return o


def pieces(v):
    """a string value as its fields: lists of constants and values"""
    if is_const(v):
        return [[x] for x in v[2].split()] if isinstance(v[2], str) else None
    if v[0] != "str":
        return None
    fields, cur = [], []
    for p in v[1]:
        if is_const(p):
            t = str(p[2])
            while t:
                i = next((i for i, ch in enumerate(t) if ch.isspace()), None)
                if i is None:
                    cur.append(t)
                    break
                if t[:i]:
                    cur.append(t[:i])
                if cur:
                    fields.append(cur)
                    cur = []
                t = t[i + 1:]
        else:
            cur.append(p)
    if cur:
        fields.append(cur)
    return fields


def leaves(v, out=None):
    out = set() if out is None else out
    if v[0] == "const":
        return out
    if v[0] == "app":
        if str(v[1]).lstrip(".") in IMPURE:
            out.add(("impure", v[1]))
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                leaves(x, out)
    elif v[0] == "lin":
        for a, k in v[2]:
            leaves(a, out)
    elif v[0] == "str":
        for p in v[1]:
            leaves(p, out)
    elif v[0] == "tuple":
        for p in v[1]:
            leaves(p, out)
    else:
        out.add(v)
    return out


LOSES = ("getitem", "slice", "[]", ".lower", ".upper", ".casefold", ".title", ".strip", ".lstrip", ".rstrip", ".swapcase", ".capitalize", "len")


def loses(v):
    """something is made of a part of the name only"""
    if v[0] == "app":
        if v[1] in LOSES and any(isinstance(x, tuple) and S("name") in leaves(x) for x in v[2:3]) and not any(isinstance(x, tuple) and x[0] == "app" and "crc" in str(x[1]) for x in v[2:3]):
            return True
        return any(loses(x) for x in v[2:] if isinstance(x, tuple) and x and isinstance(x[0], str))
    if v[0] == "lin":
        return any(loses(a) for a, k in v[2])
    if v[0] in ("str", "tuple"):
        return any(loses(p) for p in v[1])
    return False


def unstr(v):
    while v[0] == "app" and v[1] == "str" and len(v) == 3:
        v = v[2]
    return v


def expected(item, idx):
    """what stands for an item: text, or (kind, lowest, highest, text after it)"""
    import re
    lo, hi = RANGES[idx]
    if item in ("H", "R"):
        return (item, lo, hi, "")
    m = re.fullmatch(r"(H|R)\((\d+)-(\d+)\)", item)
    if m:
        return (m[1], max(lo, int(m[2])), int(m[3]), "")
    m = re.fullmatch(r"(H|R)/(\d+)", item)
    if m:
        return (m[1], lo, min(lo + int(m[2]) - 1, hi), "-{}/{}".format(hi, int(m[2])))
    m = re.fullmatch(r"(H|R)\((\d+)-(\d+)\)/(\d+)", item)
    if m:
        return (m[1], int(m[2]), min(int(m[2]) + int(m[4]) - 1, int(m[3])), "-{}/{}".format(int(m[3]), int(m[4])))
    return item


def items(idx, tier):
    lo, hi = RANGES[idx]
    mid = (lo + hi) // 2
    pts = [lo, lo + 1, mid, mid + 1, hi - 1, hi]
    pairs = sorted({(a, b) for a in pts for b in pts if a <= b})
    if tier == "thorough":
        pairs = [(a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]
    out = ["H", "R"] + OTHER
    if lo:
        out += ["H(0-{})".format(x) for x in (lo, mid, hi)] + ["R(0-{})".format(mid)]
    for k in "HR":
        for a, b in pairs:
            out.append("{}({}-{})".format(k, a, b))
    steps = [1, 2, 5, 15, 30, 59, 60, 100]
    for k in "HR":
        out += ["{}/{}".format(k, s) for s in steps]
        for n, (a, b) in enumerate(pairs):
            for s in steps if n % 3 == 0 else steps[n % len(steps):][:2]:
                out.append("{}({}-{})/{}".format(k, a, b, s))
    return out


def judge_field(q, got, item, idx, loc, what):
    want = expected(item, idx)
    if isinstance(want, str):
        q.require(got == [want], loc, "{}: the item {} stays as it is".format(what, item))
        return
    kind, lo, hi, after = want
    v = None
    if got and not isinstance(got[0], str):
        v, rest = unstr(got[0]), "".join(x if isinstance(x, str) else "?" for x in got[1:])
    elif got and got[0][:1].isdigit() and len(got) == 1:
        import re
        m = re.match(r"\d+", got[0])
        v, rest = C(int(m[0])), got[0][m.end():]
    if v is None:
        q.require(False if got and all(isinstance(x, str) for x in got) else None, loc, "{}: the item {} is replaced by a number".format(what, item))
        return
    q.require(rest == after, loc, "{}: the range and step of {} stay as they are".format(what, item))
    r = q.ip.rng(v)
    q.require(None if v[0] == "top" else r[0] >= lo and r[1] <= hi, loc, "{}: the number for {} at position {} is from {} to {}".format(what, item, idx, lo, hi))
    if lo < hi:
        q.require(None if v[0] == "top" else r[0] == lo and r[1] == hi, loc, "{}: every number of the range can stand for {} at position {}".format(what, item, idx))
    ls = leaves(v)
    if kind == "H":
        imp = [x for x in ls if x[0] == "impure" or (x[0] == "res" and str(x[1]).startswith(("random", "time", "os.", "uuid")))]
        q.require(not imp, loc, "{}: a hashed number is the same each time".format(what))
        if not imp:
            q.require(ls <= {S("name")} or None, loc, "{}: a hashed number is a function of the name".format(what))
        if lo < hi:
            q.require(S("name") in ls, loc, "{}: a hashed number depends on the name".format(what))
            q.require(not loses(v), loc, "{}: a hashed number depends on the whole name".format(what))
    elif lo < hi:
        q.require(any(x[0] == "res" and "random" in str(x[1]) for x in ls) or None if ls - {S("name")} else False, loc, "{}: a random number is random".format(what))


def H01(rule):
    """Hashed items."""
    def run(name, fields_list, aliases=False):
        def build(st):
            out = []
            for e in fields_list:
                n = len(st.ip.events)
                make(st, e if isinstance(e, str) else " ".join(e), start_time=S("start"))
                sup = [x for x in st.ip.events[n:] if x.name == "super.__init__"]
                if len(sup) != 1:
                    raise Stop("the base class is initialised {} times".format(len(sup)))
                out.append((e, sup[0]))
            st.out = out
            return NONE

        def check(q):
            if q.outcome == "stop":
                q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                return
            q.require(q.outcome != "exc", q.last_loc(), "valid schedules can be expanded ({})".format(name))
            if q.outcome == "exc":
                return
            for e, ev in q.st.out:
                text = e if isinstance(e, str) else " ".join(e)
                want = ALIASES.get(text, text).split()
                got = pieces(ev.args[0]) if ev.args else None
                if got is None:
                    q.require(None, ev.loc, "the expanded schedule is a string ({})".format(text))
                    continue
                q.require(len(got) == len(want), ev.loc, "{} has as many items as before".format(text))
                if len(got) == len(want):
                    for i, (g, w) in enumerate(zip(got, want)):
                        judge_field(q, g, w, i, ev.loc, text)
                q.require("hash_id" not in ev.kw, ev.loc, "the library is given what it knows only")
                q.require(ev.kw.get("start_time") == S("start") and len(ev.args) == 1, ev.loc, "other parameters are passed on")
        rule.scenario(name, build, check)

    lists = [items(i, rule.tier) for i in range(6)]
    n = max(len(x) for x in lists)
    step = 1
    exprs = []
    for shift in (0, 1, 7) if rule.tier == "quick" else (0, 1, 2, 3, 5, 7, 11):
        for k in range(0, n, step):
            exprs.append([lists[i][(k + shift * i) % len(lists[i])] for i in range(6)])
    # 5 items, and hashed ones after each other
    exprs += [e[:5] for e in exprs[::9]]
    exprs += [list(x) for x in itertools.product(("H", "*", "H(3-5)"), repeat=5)]
    for i in range(0, len(exprs), 60):
        run("items {} to {}".format(i, i + 59), exprs[i: i + 60])
    rule.count("expressions", len(exprs))
    run("aliases", list(ALIASES))
    run("several spaces", ["H  H *  * H", " H H * * *", "H\tH(1-5)\t*\t*\tH", "*  H(2-4) * * *", "* * H  H H/2 H"])

    # without a name nothing is expanded
    for none in ("no", None):
        def build(st, none=none):
            make(st, S("schedule"), hash_id=None if none == "no" else NONE, start_time=S("start"))
            return NONE

        def check(q):
            ev = [x for x in q.events if x.name == "super.__init__"]
            if q.outcome in ("exc", "stop") or len(ev) != 1:
                q.require(False if q.outcome == "exc" else None, q.last_loc(), "a schedule can be used without a name")
                return
            q.require(ev[0].args == [S("schedule")] or list(ev[0].args) == [S("schedule")], ev[0].loc, "without a name the schedule stays as it is")
            q.require("hash_id" not in ev[0].kw, ev[0].loc, "the library is given what it knows only")
        rule.scenario("no hash_id ({})".format(none), build, check)


RULES = {"H01": H01}


def residue(ip, v, m):
    """a value congruent to v modulo m, as simple as possible"""
    c, t = lin_parts(v)
    out = C(c)
    for a, k in t.items():
        if a[0] == "app" and a[1] == "%" and is_num(a[3]) and cval(a[3]) % m == 0 and k == int(k):
            a = residue(ip, a[2], m)
        elif a[0] == "app" and a[1] == "naive":
            a = residue(ip, a[2], m)
        out = lin_add(out, lin_scale(a, k))
    return out


def untz(v, out=None):
    """the time without what was done to its timezone; what was done"""
    out = [] if out is None else out
    while v[0] == "app" and v[1] in ("withtz", "tz", "fold", "fromts"):
        if v[1] != "fold":
            out.append(v[3])
        v = v[2]
    c, t = lin_parts(v)
    if any(a[0] == "app" and a[1] in ("withtz", "tz", "fold", "fromts") for a in t):
        r = C(c)
        for a, k in t.items():
            a, _ = untz(a, out)
            r = lin_add(r, lin_scale(a, k))
        return r, out
    return v, out


def own_zone(zs, start):
    """are these the timezone of the given time (or none)?"""
    rs = [z == NONE or (z[0] == "app" and z[1] in ("attr", ".tzinfo") and start in z[2:]) or ((None if z[0] == "top" else False)) for z in zs]
    return False if False in rs else None if None in rs else True


def naive(v):
    """True: has no timezone, False: has one, None: unknown"""
    while v[0] == "app" and v[1] == "fold":
        v = v[2]
    if v[0] == "app" and v[1] == "tz":
        return False
    if v[0] == "app" and v[1] == "withtz":
        return v[3] == NONE
    c, t = lin_parts(v)
    for a in t:
        if a[0] == "app" and a[1] == "withtz":
            return a[3] == NONE
    return False


SCHEDULES = ["* * * * *", "* * * * * *", "H H * * *", "R * * * *", "H H(0-7) * * * 5", "@daily", "@midnight", "0 5 * * MON", "H/5 * * * * *", "* *  * * *", "*\t* * * *", " 5 * * * * ",
             "H(30-59)/10 * * * *", "H H * * * H"]
RULES_ = ["RRULE:FREQ=DAILY", "rrule:freq=daily", "RRule:FREQ=MINUTELY;INTERVAL=5", "RRULE:FREQ=HOURLY;UNTIL=20181225T080000", "RRULE:UNTIL=20181225;FREQ=DAILY",
          "rrule:freq=daily;until=20181225t080000", "RRULE:FREQ=HOURLY;UNTIL=20181225T080000Z", "RRULE:UNTIL=20181225T080000Z;FREQ=DAILY;BYHOUR=3"]


def find_afters(v, out):
    """where a recurrence is asked for its next time"""
    if v[0] == "app":
        if v[1] in (".after", ".before", ".between"):
            out.append(v)
            return
        for y in v[2:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                find_afters(y, out)
    elif v[0] == "lin":
        for a, k in v[2]:
            find_afters(a, out)


def is_none(q):
    return q.val == NONE or any(b and k[0] == "eq" and NONE in k[1:] and q.val in k[1:] for k, b, l in q.p.decisions)


def keywords(v):
    return {x[1].split(":", 1)[1]: x[2] for x in v[2:] if x[0] == "app" and str(x[1]).startswith("kw:")}


def positional(v):
    return [x for x in v[2:] if not (x[0] == "app" and str(x[1]).startswith("kw:"))]


def compute(st, sched, how):
    ip = st.ip
    f = st.w.repo.funcs.get("dsari.utils.get_next_schedule_time")
    if f is None:
        raise Anchor("dsari.utils.get_next_schedule_time")
    ip.kinds[S("name")] = "str"
    ip.facts[("types", S("name"))] = frozenset({"str"})
    ip.facts[("truthy", S("name"))] = True
    ip.kinds[S("start")] = "datetime"
    ip.facts[("eq", S("start"), NONE)] = False
    ip.data["withtz"] = ip.data["tz"] = ip.data["walls"] = True
    cron_class(st.w)
    ip.attr_overrides["RANGES"] = lambda ip, o: ("tuple", tuple(("tuple", (C(a), C(b))) for a, b in RANGES))
    args = [C(sched), S("name")] + ([S("start")] if how == "given" else [NONE] if how == "null" else [])
    return ip.call(("fn", f), args, {})


def H02(rule):
    """The next time of a schedule."""
    import re

    def run(sched, how):
        def build(st):
            return compute(st, sched, how)

        def check(q):
            judge(q, sched, how)
        rule.scenario("{} ({})".format(sched, how), build, check)

    def judge(q, sched, how):
        if q.outcome == "stop":
            q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
            return
        start = S("start") if how == "given" else NOW
        loc = q.last_loc()
        if q.outcome == "exc":
            q.require(False, loc, "the next time of {} can be computed".format(repr(sched)))
            return
        none = is_none(q)
        if not sched.upper().startswith("RRULE:"):
            sup = q.evs("super.__init__")
            nx = [e for e in q.events if e.name in (".get_next", ".get_prev", ".get_current", ".next", ".all_next")]
            if len(sup) != 1 or len(nx) != 1:
                q.require(None, loc, "the schedule library is used once")
                return
            e, g = sup[0], nx[0]
            want = ALIASES[sched].split() if sched in ALIASES else sched.split()
            want += ["H"] * (len(want) == 5)
            got = pieces(e.args[0]) if e.args else None
            q.require(None if got is None else len(got) == 6, e.loc, "without a second, it is hashed")
            if got is not None and len(got) == 6:
                for i, (a, b) in enumerate(zip(got, want)):
                    judge_field(q, a, b, i, e.loc, sched)
            s = e.kw.get("start_time", e.args[1] if len(e.args) > 1 else None)
            q.require(s == start, e.loc, "times after the given one, or after now, are asked for")
            q.require(g.name == ".get_next", g.loc, "the next time is asked for")
            ty = g.args[0] if g.args else g.kw.get("ret_type")
            q.require(ty is not None and "datetime.datetime" in show(ty), g.loc, "the next time is asked for as a time")
            base = g.res
        else:
            afters = []
            if none:
                for k, b, l in q.p.decisions:
                    if b and k[0] == "eq" and NONE in k[1:]:
                        find_afters(next(x for x in k[1:] if x != NONE), afters)
            else:
                find_afters(q.val, afters)
            if len(afters) != 1:
                if not afters and (none or q.evs("super.__init__")):
                    q.require(None if q.p.taint else False, loc, "a recurrence rule has the next time dateutil gives for it")
                    return
                q.require(None, loc, "the recurrence rule is used once")
                return
            a = afters[0]
            q.require(a[1] == ".after", loc, "the next time of the recurrence is asked for")
            rs = a[2]
            if not (rs[0] == "app" and rs[1] == "dateutil.rrule.rrulestr"):
                q.require(None, loc, "the recurrence rule is parsed by dateutil")
                return
            kw, pos = keywords(rs), positional(rs)
            akw, apos = keywords(a), positional(a)[1:]
            q.require(pos[:1] == [C(sched)], loc, "the recurrence rule is the schedule")
            q.require(len(apos) == 1 and not [x for x in akw.values() if x != FALSE], loc, "times after, not at, the given time are asked for")
            d = kw.get("dtstart", pos[1] if len(pos) > 1 else None)
            if d is None or not apos:
                q.require(False if d is None else None, loc, "the recurrence has a first time")
                return
            t0, dz = untz(d)
            t1, az = untz(apos[0])
            q.require(eq3(q, t1, start), loc, "times after the given one, or after now, are asked for")
            ahead = q.ip.rng(lin_add(t1, t0, -1))
            q.require(ahead[0] >= 0, loc, "the recurrence does not begin later than the given time")
            q.require(ahead[1] <= 86400, loc, "the recurrence begins at most a day before the given time")
            r = residue(q.ip, t0, 86400)
            ls = leaves(r)
            q.require(None if ("top" in [x[0] for x in ls]) else not (ls - {S("name")}), loc, "the time of the day of a recurrence is the same whenever it is computed")
            q.require(S("name") in ls, loc, "the time of the day of a recurrence is hashed")
            q.require(not [x for x in ls if x[0] == "impure"], loc, "the time of the day of a recurrence is the same each time")
            local = re.search(r"UNTIL=[0-9T]+(;|$)", sched.upper()) is not None
            q.require(naive(d) == local and naive(apos[0]) == local, loc, "the times given to dateutil have a timezone exactly if UNTIL is not in local time")
            q.require(own_zone(dz + az, start), loc, "the recurrence is one in the timezone of the given time")
            base = a
        if none:
            q.require(sched.upper().startswith("RRULE:"), loc, "there is no next time only if the recurrence is over")
            return
        if base is None:
            q.require(None, loc, "the next time is that of the library")
            return
        res, rz = untz(q.val)
        if sched.upper().startswith("RRULE:") and local:
            q.require(naive(q.val) is False and bool(rz) and rz[0] != NONE and own_zone(rz[:1], start), loc, "the next time has the timezone of the given time")
        elif rz:
            q.require(own_zone(rz, start), loc, "times keep their timezone")
        off = lin_add(res, base, -1)
        r = q.ip.rng(off)
        q.require(r[0] >= 0 and r[1] <= 1.0000001, loc, "the next time is that of the schedule, at most a second later")
        ls = leaves(off)
        q.require(None if "top" in [x[0] for x in ls] else not (ls - {S("name")}), loc, "the fraction of a second depends on the name only")

    for s in SCHEDULES + RULES_:
        for how in ("given", "none", "null") if s in (SCHEDULES[0], RULES_[0], RULES_[3]) else ("given",):
            run(s, how)


# a recurrence, and how far apart its times are, where it matters where it begins
PERIODS = [("FREQ=DAILY", 86400), ("FREQ=HOURLY", 3600), ("FREQ=MINUTELY", 60), ("FREQ=MINUTELY;INTERVAL=5", 300), ("FREQ=HOURLY;INTERVAL=6", 21600),
           ("FREQ=DAILY;BYDAY=MO,TH", 86400), ("FREQ=WEEKLY;BYDAY=MO", 86400), ("FREQ=MONTHLY;BYMONTHDAY=5", 86400), ("FREQ=DAILY;BYHOUR=14", 3600),
           ("FREQ=WEEKLY", 604800), ("FREQ=DAILY;INTERVAL=2", 172800), ("FREQ=MINUTELY;INTERVAL=7", 420), ("FREQ=MONTHLY", None), ("FREQ=YEARLY", None)]


def H03(rule):
    """The times of a schedule do not depend on when they are computed."""
    for text, period in PERIODS:
        def check(q, text=text, period=period):
            loc = q.last_loc()
            if q.outcome in ("stop", "exc"):
                q.require(None, loc, "path not followed: {}".format(q.val))
                return
            if is_none(q):
                return
            afters = []
            find_afters(q.val, afters)
            rs = afters[0][2] if len(afters) == 1 else None
            if rs is None or not (rs[0] == "app" and rs[1] == "dateutil.rrule.rrulestr"):
                q.require(None, loc, "the recurrence rule is used once, and parsed by dateutil")
                return
            d = keywords(rs).get("dtstart", (positional(rs) + [None, None])[1])
            if d is None:
                q.require(False, loc, "the recurrence has a first time")
                return
            t0, z = untz(d)
            ls = leaves(residue(q.ip, t0, period) if period else t0)
            w = "repo:dsari/utils.py"
            q.require(None if "top" in [x[0] for x in ls] else not (ls - {S("name")}), loc if loc != "?" else w, "the times of RRULE:{} do not depend on when they are computed".format(text))
        rule.scenario("RRULE:" + text, lambda st, text=text: compute(st, "RRULE:" + text, "given"), check)

    for text in SCHEDULES:
        def check(q, text=text):
            if q.outcome in ("stop", "exc"):
                q.require(None, q.last_loc(), "path not followed: {}".format(q.val))
                return
            for e in q.evs("super.__init__"):
                ls = leaves(e.args[0]) if e.args else set()
                q.require(S("start") not in ls and NOW not in ls and not [x for x in ls if x[0] == "impure"], e.loc, "the times of {} do not depend on when they are computed".format(text))
        rule.scenario(text, lambda st, text=text: compute(st, text, "given"), check)


RULES["H02"] = H02
RULES["H03"] = H03


# -- H04: clocks which are changed ---------------------------------------------------

def exact(q, v, base, cron):
    """is it known which of the two times that look alike, in an hour which is
    repeated, this is?"""
    start = S("start")
    if v == base:
        return cron
    if v == start or v == NOW:
        return True
    if v[0] == "app" and v[1] == "fold":
        f = v[3]
        if f[0] == "app" and f[1] in ("attr", ".fold"):
            return exact(q, f[2], base, cron)
        return False if f[0] == "const" else None
    if v[0] == "app" and v[1] == "tz":
        return exact(q, v[2], base, cron)
    if v[0] == "app" and v[1] == "withtz":
        return exact(q, v[2], base, cron)
    if v[0] == "app" and v[1] == "fromts":
        c, t = lin_parts(v[2])
        for a in t:
            if a[0] == "app" and a[1] == ".utcoffset":
                return exact(q, a[2], base, cron)
        return None
    if v[0] == "lin":
        c, t = lin_parts(v)
        times = [a for a in t if mentions(a, base) or mentions(a, start) or mentions(a, NOW)]
        if len(times) == 1:
            a = times[0]
            if a[0] == "app" and a[1] == "tz" and zone_of(q.ip, a[3]) == UTC:
                return exact(q, a[2], base, cron)
            return False if exact(q, a, base, cron) is not None else None
    return None


def rules_zone(z):
    """True: a timezone with its rules, False: an offset, None: unknown"""
    if z[0] == "app" and z[1] in ("zone", "dateutil.tz.tzlocal", "local zone", "zoneinfo.ZoneInfo"):
        return True
    if z == C("local") or z == S("the offset at the time of loading"):
        return False
    if z[0] == "app" and z[1] in ("datetime.timezone", "dateutil.tz.tzoffset", "dateutil.tz.tzutc") or z == ("ext", "datetime.timezone.utc"):
        return False
    return None


def H04(rule):
    """Schedules follow the clocks of their timezone."""
    for sched in (SCHEDULES[0], SCHEDULES[2], "@daily", "* * * * * *") + tuple(RULES_[i] for i in (0, 2, 3, 6)):
        def check(q, sched=sched):
            loc = q.last_loc()
            loc = loc if loc != "?" else "repo:dsari/utils.py"
            if q.outcome in ("stop", "exc"):
                q.require(None, loc, "path not followed: {}".format(q.val))
                return
            if is_none(q):
                return
            cron = not sched.upper().startswith("RRULE:")
            if cron:
                nx = [e for e in q.events if e.name == ".get_next"]
                base = nx[0].res if len(nx) == 1 else None
            else:
                afters = []
                find_afters(q.val, afters)
                base = afters[0] if afters and all(a == afters[0] for a in afters) else None
            if base is None:
                q.require(None, loc, "the next time is that of the library")
                return
            ok = exact(q, q.val, base, cron)
            if ok is False and any(k[0] not in ("eq", "is") and any(isinstance(x, tuple) and mentions(x, base) for x in k[1:]) for k, b, l in q.p.decisions):
                ok = None
            q.require(ok, loc, "the next time of {} lies after now also in an hour which is repeated when clocks are turned back".format(sched))
        rule.scenario("{}, repeated hour".format(sched), lambda st, sched=sched: compute(st, sched, "given"), check)

    for how in ("startup", "reload", "a due run"):
        def build(st, how=how):
            ip = st.ip
            no_files(st)
            next_time(st)
            ip.data["zones"] = ip.data["fixed"] = True

            def gettz(ip, a, k):
                v = app("zone", *a) if a and a[0] != NONE else app("local zone")
                ip.kinds[v] = "tzinfo"
                ip.facts[("types", v)] = frozenset({"tzinfo"})
                return v
            ip.ext_overrides["dateutil.tz.gettz"] = gettz
            ip.ext_overrides["zoneinfo.ZoneInfo"] = gettz
            off = S("the offset at the time of loading")
            ip.kinds[off] = "tzinfo"
            ip.facts[("types", off)] = frozenset({"tzinfo"})
            st.loaded = None

            def load(ip, loader):
                raw = {"jobs": {n: {"command": ["x"], "schedule": "0 8 * * *"} for n in ("j", "k")}}
                raw["jobs"]["k"]["schedule_timezone"] = "America/New_York"
                m = ip.type_class(loader).find("load") if hasattr(ip, "type_class") else ip.deref(loader).cls.find("load")
                if m is None:
                    raise Anchor("ConfigLoader.load")
                ip.call(("bound", loader, m), [mk(ip, raw)], {})
                st.loaded = len(st.next_calls)
                return NONE
            st.load_config = load
            if how == "startup":
                st.s = ip.instantiate(st.w.sched, [S("args")], {})
                return NONE
            if how == "reload":
                j = st.job("j", schedule=S("schedule j"))
                ip.facts[("truthy", S("schedule j"))] = True
                st.scheduler(st.config([j]), scheduled_runs=[])
                deliver(st, signal.SIGHUP)
                return NONE
            get = st.w.repo.funcs.get("dsari.config.get_config")
            if get is None:
                raise Anchor("dsari.config.get_config")
            cfg = ip.call(("fn", get), [S("config_dir")], {})
            jobs = ip.deref(ip.getattr_(cfg, "jobs"))
            js = [ip.dict_find(jobs, C(n)) for n in ("j", "k")]
            if None in js:
                raise Anchor("Config.jobs")
            rs = [st.run(j, "r{}".format(i), schedule_time=app("tz", lin_add(NOW, st.param("late {}".format(i), 0), -1), S("zone at that time")), respawn=TRUE) for i, j in enumerate(js)]
            st.scheduler(cfg, scheduled_runs=rs)
            st.loaded = len(st.next_calls)
            ip.ext_overrides["random.shuffle"] = lambda ip, a, k: NONE
            st.on_sleep = lambda e: None if e.args == [C(0)] else (_ for _ in ()).throw(Stop("wait"))
            return st.loop()

        def zones(q, how=how):
            if q.outcome == "exc":
                q.require(None, q.last_loc(), "path not followed")
                return
            calls = q.st.next_calls[q.st.loaded or 0:] if q.st.loaded is not None else []
            names = []
            for args, kw, l in calls:
                nm = args[1] if len(args) > 1 else kw.get("job_name")
                t = args[2] if len(args) > 2 else kw.get("start_time")
                names.append(nm)
                if t is None or t == NONE or t[0] != "app" or t[1] != "tz":
                    q.require(None, l, "the timezone of a next time is known")
                    continue
                q.require(rules_zone(t[3]), l, "after {} the next time of a job {} is one of a timezone with its changes, not of its offset at some time".format(how, "without schedule_timezone" if nm == C("j") else "with schedule_timezone"))
                q.require(None if nm not in (C("j"), C("k")) else mentions(t[3], C("America/New_York")) == (nm == C("k")), l, "the timezone is the job's or the local one")
            q.require(None if not {C("j"), C("k")} <= set(names) else True, q.last_loc(), "the next time of each job is asked for")
        rule.scenario("clocks changed after {}".format(how), build, zones)


RULES["H04"] = H04
