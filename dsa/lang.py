"""Regular languages: what the conditions of a path say about a string."""
import re

try:
    from re import _parser as sre
    from re import _constants as K
except ImportError:  # older Python
    import sre_parse as sre
    import sre_constants as K

from .values import C, app, NONE, is_const

ALPHABET = [chr(i) for i in range(128)] + list("\x80\x85\xa0\xaa\xb2\xdf\xe9\u0663\u2028\u4e2d\u00b5\uff41\u200b") + ["\udcff"]


class Unknown(Exception):
    pass


# -- regular expressions --------------------------------------------------


NFAS = {}


def nfa(pattern, how, flags=0):
    k = (pattern, how, flags)
    if k not in NFAS:
        NFAS[k] = Nfa(*k)
    return NFAS[k]


class Nfa:
    """A pattern under match/search/fullmatch; states are run lazily."""

    def __init__(self, pattern, how, flags=0):
        self.how, self.flags = how, flags
        try:
            tree = sre.parse(pattern, flags)
        except re.error:
            raise Unknown(pattern)
        self.flags = tree.state.flags
        self.eps, self.chars, self.ats, self.memo = {}, {}, {}, {}
        self.n = 0
        self.start = self.new()
        self.end = self.seq(tree, self.start)

    def new(self):
        self.n += 1
        return self.n

    def seq(self, items, s):
        for op, av in items:
            s = self.item(op, av, s)
        return s

    def item(self, op, av, s):
        if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
            t = self.new()
            self.chars.setdefault(s, []).append((op, av, t))
            return t
        if op is K.SUBPATTERN:
            if av[1] or av[2]:
                raise Unknown("flags in a group")
            return self.seq(av[3], s)
        if op is K.BRANCH:
            t = self.new()
            for b in av[1]:
                e = self.seq(b, s)
                self.eps.setdefault(e, []).append(t)
            return t
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 200 or (hi is not K.MAXREPEAT and hi > 200):
                raise Unknown("repeat")
            for _ in range(lo):
                s = self.seq(sub, s)
            t = self.new()
            if hi is K.MAXREPEAT:
                a = self.new()
                self.eps.setdefault(s, []).append(a)
                e = self.seq(sub, a)
                self.eps.setdefault(e, []).append(a)
                self.eps.setdefault(a, []).append(t)
                return t
            self.eps.setdefault(s, []).append(t)
            for _ in range(hi - lo):
                s = self.seq(sub, s)
                self.eps.setdefault(s, []).append(t)
            return t
        if op is K.AT:
            t = self.new()
            self.ats.setdefault(s, []).append((av, t))
            return t
        raise Unknown(str(op))

    def closure(self, threads, first):
        out, todo = set(), list(threads)
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            s, mode = x
            for t in self.eps.get(s, ()):
                todo.append((t, mode))
            for at, t in self.ats.get(s, ()):
                if at in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                    if self.flags & re.M and at is K.AT_BEGINNING:
                        raise Unknown("multiline")
                    if first:
                        todo.append((t, mode))
                elif at is K.AT_END_STRING:
                    todo.append((t, 2))
                elif at is K.AT_END:
                    if self.flags & re.M:
                        raise Unknown("multiline")
                    todo.append((t, max(mode, 1)))
                else:
                    raise Unknown(str(at))
        return frozenset(out)

    def hit(self, op, av, ch):
        cs = {ch}
        if self.flags & re.I:
            cs |= {ch.lower(), ch.upper()}
        if op is K.ANY:
            return bool(self.flags & re.S) or ch != "\n"
        if op is K.LITERAL:
            return any(len(c) == 1 and ord(c) == av for c in cs)
        if op is K.NOT_LITERAL:
            return not any(len(c) == 1 and ord(c) == av for c in cs)
        neg = False
        r = False
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                r |= any(len(c) == 1 and ord(c) == a for c in cs)
            elif o is K.RANGE:
                r |= any(len(c) == 1 and a[0] <= ord(c) <= a[1] for c in cs)
            elif o is K.CATEGORY:
                p = {
                    K.CATEGORY_DIGIT: r"\d", K.CATEGORY_NOT_DIGIT: r"\D", K.CATEGORY_SPACE: r"\s",
                    K.CATEGORY_NOT_SPACE: r"\S", K.CATEGORY_WORD: r"\w", K.CATEGORY_NOT_WORD: r"\W",
                }.get(a)
                if p is None:
                    raise Unknown(str(a))
                r |= bool(re.match(p, ch, self.flags & re.A))
            else:
                raise Unknown(str(o))
        return r != neg

    def initial(self):
        return self.closure({(self.start, 0)}, True)

    def step(self, state, ch):
        r = self.memo.get((state, ch))
        if r is None:
            r = self.memo[state, ch] = self.step_(state, ch)
        return r

    def step_(self, state, ch):
        out = set()
        for s, mode in state:
            if mode == 2 or (mode == 1 and ch != "\n"):
                continue
            m = 2 if mode == 1 else 0
            for op, av, t in self.chars.get(s, ()):
                if self.hit(op, av, ch):
                    out.add((t, m))
            if s == self.end and self.how != "fullmatch":
                out.add((s, m))
        if self.how == "search":
            out.add((self.start, 0))
        return self.closure(out, False)

    def accepts(self, state):
        return any(s == self.end for s, m in state)


class Chars:
    """all characters satisfy a predicate (and there is one, if nonempty)"""

    def __init__(self, pred, nonempty):
        self.pred, self.nonempty = pred, nonempty

    def initial(self):
        return "0"

    def step(self, s, ch):
        return "n" if s == "n" or not self.pred(ch) else "y"

    def accepts(self, s):
        return s == "y" or (s == "0" and not self.nonempty)


class Length:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def initial(self):
        return 0

    def step(self, s, ch):
        top = max(self.lo if self.lo < 1000 else 0, self.hi if self.hi < 1000 else 0) + 1
        return min(s + 1, top)

    def accepts(self, s):
        return self.lo <= s <= self.hi


def literal(text, how):
    """how: eq, contains, startswith, endswith"""
    p = re.escape(text)
    return {
        "eq": lambda: nfa(p, "fullmatch"), "contains": lambda: nfa(p, "search"),
        "startswith": lambda: nfa(p, "match"), "endswith": lambda: nfa("(?:" + p + r")\Z", "search"),
    }[how]()


def witness(langs, limit=200000):
    """a word which is in all (language, wanted) pairs, or None"""
    langs = list(langs)
    start = tuple(a.initial() for a, w in langs)
    seen, todo = {start: ""}, [start]
    while todo:
        nxt = []
        for s in todo:
            if all(a.accepts(x) == w for (a, w), x in zip(langs, s)):
                return seen[s]
            for ch in ALPHABET:
                t = tuple(a.step(x, ch) for (a, w), x in zip(langs, s))
                if t not in seen:
                    seen[t] = seen[s] + ch
                    nxt.append(t)
                    if len(seen) > limit:
                        raise Unknown("too many states")
        todo = nxt
    return None


# -- conditions -------------------------------------------------------------

PREDICATES = {"isalnum": True, "isalpha": True, "isdigit": True, "isdecimal": True, "isnumeric": True, "isspace": True,
              "isascii": False, "isprintable": False}


def regex_of(v, x):
    """the language of strings x for which v, a match, is one"""
    if v[0] == "app" and v[1] in ("re.match", "re.search", "re.fullmatch"):
        a = [y for y in v[2:] if not (y[0] == "app" and str(y[1]).startswith("kw:"))]
        flags = 0
        for y in v[2:]:
            if y[0] == "app" and y[1] == "kw:flags" and is_const(y[2]):
                flags = y[2][2]
        if len(a) > 2 and is_const(a[2]):
            flags = a[2][2]
        if len(a) >= 2 and a[1] == x and is_const(a[0]):
            return nfa(a[0][2], v[1][3:], flags)
    return None


def language(key, x):
    """the strings x for which the condition is true; None if it says nothing
    about x"""
    # a key in which the value does not occur says nothing about it, unless
    # it is about something computed from it
    if x[1] not in repr(key):
        if any(t in repr(key) for t in ("'obj'", "'res'", "'top'")):
            raise Unknown(str(key)[:200])
        return None
    k = key[0]
    if k == "in" and key[2] == x and is_const(key[1]) and isinstance(key[1][2], str):
        return literal(key[1][2], "contains")
    if k == "eq":
        a, b = key[1], key[2]
        if b == x:
            a, b = b, a
        if a == x and is_const(b):
            if isinstance(b[2], str):
                return literal(b[2], "eq")
            return Chars(lambda c: False, True)
        for a, b in ((a, b), (b, a)):
            if b == NONE:
                r = regex_of(a, x)
                if r is not None:
                    return Not(r)
    if k == "truthy":
        v = key[1]
        if v == x:
            return Length(1, 10 ** 9)
        r = regex_of(v, x)
        if r is not None:
            return r
        if v[0] == "app" and v[2:3] == (x,):
            n = str(v[1]).lstrip(".")
            if n in PREDICATES:
                return Chars(lambda c: getattr(c, n)(), PREDICATES[n])
            if n in ("startswith", "endswith") and len(v) == 4 and is_const(v[3]) and isinstance(v[3][2], str):
                return literal(v[3][2], n)
    if k in ("<", "<=", ">", ">=", "==", "!="):
        n = app("len", x)
        if key[1] == n and is_const(key[2]):
            c = key[2][2]
            lo, hi = {"<": (0, c - 1), "<=": (0, c), ">": (c + 1, 10 ** 9), ">=": (c, 10 ** 9), "==": (c, c), "!=": (c, c)}[k]
            return Not(Length(lo, hi)) if k == "!=" else Length(lo, hi)
    raise Unknown(str(key)[:200])


class Not:
    def __init__(self, a):
        self.a = a
        self.initial, self.step = a.initial, a.step

    def accepts(self, s):
        return not self.a.accepts(s)


def of_path(decisions, x):
    """the conditions of a path about x: [(language, wanted)], whether complete"""
    out, complete = [], True
    for key, b, loc in decisions:
        try:
            a = language(key, x)
        except Unknown:
            complete = False
            continue
        if a is not None:
            out.append((a, b))
    return out, complete
