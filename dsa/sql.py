"""The SQL the package uses: a small recogniser of constant statements."""
import re


class Stmt:
    def __init__(self, kind, table, **kw):
        self.kind, self.table = kind, table
        self.cols = kw.get("cols", [])
        self.vals = kw.get("vals", [])
        self.where = kw.get("where", [])  # [(col, op, rhs)]
        self.order = kw.get("order", [])  # [(col, desc)]
        self.limit = kw.get("limit")
        self.text = kw.get("text")
        self.conj = kw.get("conj", "and")
        self.keys = []  # constraints of a table

    def __repr__(self):
        return "<{} {} {} where {} order {}>".format(self.kind, self.table, self.cols, self.where, self.order)


TOK = re.compile(r"\s*('(?:[^']|'')*'|\"[^\"]*\"|`[^`]*`|[A-Za-z_][\w.]*|\d+|%s|%\(\w+\)s|:\w+|\?|<>|!=|<=|>=|[(),=<>*;\[\]$]|.)", re.S)


def tokens(text):
    out = []
    i = 0
    text = text.strip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            break
        t = m.group(1)
        if t[0] in "\"`" and len(t) > 1:
            t = t[1:-1]
        out.append(t)
        i = m.end()
    while out and out[-1] == ";":
        out.pop()
    return out


def split_commas(ts):
    out, cur, d = [], [], 0
    for t in ts:
        if t == "(":
            d += 1
        if t == ")":
            d -= 1
        if t == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def until(ts, i, words):
    d = 0
    j = i
    while j < len(ts):
        if ts[j] == "(":
            d += 1
        elif ts[j] == ")":
            if d == 0:
                break
            d -= 1
        elif d == 0 and ts[j].upper() in words:
            break
        j += 1
    return j


def paren(ts, i):
    assert ts[i] == "("
    d = 0
    for j in range(i, len(ts)):
        if ts[j] == "(":
            d += 1
        elif ts[j] == ")":
            d -= 1
            if d == 0:
                return ts[i + 1:j], j + 1
    raise ValueError("unbalanced")


def parse_where(ts):
    conds, cur, d = [], [], 0
    conj = "and"
    for t in ts:
        if t == "(":
            d += 1
        if t == ")":
            d -= 1
        if d == 0 and t.upper() in ("AND", "OR"):
            if t.upper() == "OR":
                conj = "or"
            conds.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        conds.append(cur)
    out = []
    skip = False
    for i, c in enumerate(conds):
        if skip:
            skip = False
            continue
        while len(c) > 2 and c[0] == "(" and paren(c, 0)[1] == len(c):
            c = c[1:-1]
        col = c[0].split(".")[-1].lower()
        rest = c[1:]
        if rest and rest[0].upper() == "NOT" and len(rest) > 1 and rest[1].upper() == "IN":
            out.append((col, "not in", rest[2:]))
        elif rest and rest[0].upper() == "IN":
            out.append((col, "in", [t for t in rest[1:] if t not in "(),"]))
        elif rest and rest[0].upper() == "BETWEEN" and len(rest) == 2 and i + 1 < len(conds):
            out.append((col, ">=", rest[1:]))
            out.append((col, "<=", conds[i + 1]))
            skip = True
        elif rest and rest[0].upper() in ("LIKE", "ILIKE", "GLOB", "REGEXP", "SIMILAR"):
            out.append((col, "like", rest[1:]))
        elif rest and rest[0].upper() == "IS":
            out.append((col, "is", rest[1:]))
        elif rest:
            op = {"<>": "!=", "==": "="}.get(rest[0], rest[0])
            out.append((col, op, rest[1:]))
        else:
            out.append((col, "truth", []))
    return out, conj


def parse(text):
    return parse_tokens(tokens(text), text)


def parse_tokens(ts, text=None):
    if not ts:
        return None
    k = ts[0].upper()
    try:
        if k in ("INSERT", "REPLACE"):
            i = 1
            mode = ""
            while ts[i].upper() != "INTO":
                mode += " " + ts[i].upper()
                i += 1
            table = ts[i + 1].split(".")[-1]
            i += 2
            cols = []
            if ts[i] == "(":
                inner, i = paren(ts, i)
                cols = [c[0].lower() for c in split_commas(inner)]
            if ts[i].upper() != "VALUES":
                return Stmt("INSERT?", table, text=text)
            inner, i = paren(ts, i + 1)
            vals = [" ".join(v) for v in split_commas(inner)]
            return Stmt("INSERT" + mode, table, cols=cols, vals=vals, text=text)
        if k == "DELETE":
            i = 2
            table = ts[i].split(".")[-1]
            where, conj = [], "and"
            if len(ts) > i + 1:
                if ts[i + 1].upper() != "WHERE":
                    return Stmt("DELETE?", table, text=text)
                where, conj = parse_where(ts[i + 2:])
            return Stmt("DELETE", table, where=where, text=text, conj=conj)
        if k == "TRUNCATE":
            return Stmt("DELETE", ts[-1].split(".")[-1], text=text)
        if k == "UPDATE":
            return Stmt("UPDATE", ts[1].split(".")[-1], text=text)
        if k == "SELECT":
            words = {"FROM", "WHERE", "ORDER", "GROUP", "LIMIT", "HAVING", "OFFSET"}
            j = until(ts, 1, {"FROM"})
            cols = [" ".join(c).lower() for c in split_commas(ts[1:j])]
            i = j + 1
            j = until(ts, i, words)
            table = ts[i].split(".")[-1] if j - i == 1 else " ".join(ts[i:j])
            where, order, limit, conj = [], [], None, "and"
            while j < len(ts):
                w = ts[j].upper()
                e = until(ts, j + 1, words)
                body = ts[j + 1:e]
                if w == "WHERE":
                    where, conj = parse_where(body)
                elif w == "ORDER":
                    order = [
                        (c[0].split(".")[-1].lower(), any(x.upper() == "DESC" for x in c))
                        for c in split_commas(body[1:])
                    ]
                elif w == "LIMIT":
                    limit = " ".join(body)
                elif w in ("GROUP", "HAVING", "OFFSET"):
                    return Stmt("SELECT?", table, text=text)
                j = e
            return Stmt("SELECT", table, cols=cols, where=where, order=order, limit=limit, text=text, conj=conj)
        if k == "CREATE":
            i = 1
            while ts[i].upper() not in ("TABLE", "INDEX", "UNIQUE"):
                i += 1
            if ts[i].upper() != "TABLE":
                return Stmt("CREATE INDEX", "", text=text)
            i += 1
            cond = False
            if ts[i].upper() == "IF":
                i += 3
                cond = True
            table = ts[i].split(".")[-1]
            inner, _ = paren(ts, i + 1)
            cols, keys = [], []
            for c in split_commas(inner):
                if c[0].upper() == "CONSTRAINT":
                    c = c[2:]
                if c[0].upper() in ("PRIMARY", "UNIQUE", "FOREIGN", "CHECK", "KEY", "INDEX"):
                    keys.append([t.lower() for t in c])
                    continue
                cols.append((c[0].lower(), re.sub(r" ?([()]) ?", r"\1", " ".join(c[1:]).lower()).replace(")", ") ").strip()))
            st = Stmt("CREATE", table, cols=cols, text=text, limit=cond)
            st.keys = keys
            return st
    except (IndexError, ValueError, AssertionError):
        pass
    return Stmt(k, None, text=text)


def is_placeholder(t):
    return t in ("?", "%s") or t.startswith("%(") or t.startswith(":")
