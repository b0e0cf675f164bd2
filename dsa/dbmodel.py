"""A database whose tables hold abstract rows: the statements the package
sends are evaluated on them."""
from . import sql
from .interp import Stop
from .values import *  # noqa: F401,F403
from .values import C, S, app, NONE

INFO = ("sqlite_master", "sqlite_schema", "information_schema.tables", "tables")


class Store:
    def __init__(self, st, typ, tables=None, missing=()):
        self.st, self.ip, self.typ = st, st.ip, typ
        self.tables = {"runs": [], "runs_running": []}
        for t, rs in (tables or {}).items():
            self.tables[t] = [dict(r) for r in rs]
        self.missing = set(missing)  # tables not created yet
        self.durable = None
        self.commits = []  # (event, snapshot)
        self.log = []  # (event, kind, table)
        self.rev = None  # "?": rows without an order are returned all in order, or all in reverse
        self.affected = {}  # cursor: how many rows its last statement affected
        self.limits = []  # (event, limit of a listing)
        self.ip.attr_overrides["rowcount"] = lambda ip, b: C(self.affected[b]) if b in self.affected else None
        st.rows = self.query
        old = st.hook

        def hook(e):
            r = old(e) if old is not None else None
            return r if r is not None else self.event(e)

        st.hook = hook

    def snapshot(self):
        return {t: [dict(r) for r in rs] for t, rs in self.tables.items()}

    # -- SQL -------------------------------------------------------------

    def params(self, e):
        if len(e.args) < 2:
            return []
        a = e.args[1]
        if a[0] == "tuple":
            return list(a[1])
        o = self.ip.deref(a)
        if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
            return [s[1] for s in o.segs]
        raise Stop("parameters not understood")

    def query(self, e):
        """the rows e returns"""
        if e.name in (".find", ".find_one", ".aggregate"):
            return self.find(e)
        t = e.args[0] if e.args else NONE
        if not (is_const(t) and isinstance(t[2], str)):
            raise Stop("statement not constant")
        s = sql.parse(t[2])
        if s is None or s.table is None or s.kind.endswith("?"):
            if s is not None and s.kind != "SELECT?":
                self.log.append((e, s.kind, s.table))
            raise Stop("statement not understood")
        self.log.append((e, s.kind, s.table))
        if s.kind == "CREATE":
            self.missing.discard(s.table)
            return []
        if s.table.lower() in INFO or s.table not in self.tables:
            if s.kind == "SELECT":
                ps = list(self.params(e))
                for col, op, rhs in s.where:
                    names = []
                    for x in rhs:
                        if not sql.is_placeholder(x):
                            names.append(x.strip("'"))
                        elif ps:
                            p = ps.pop(0)
                            if col in ("name", "table_name") and not (is_const(p) and isinstance(p[2], str)):
                                raise Stop("parameters not understood")
                            names.append(p[2] if is_const(p) else None)
                    if col in ("name", "table_name") and op == "=" and names and names[0] not in self.missing:
                        return [self.row({"name": C(names[0]), "table_name": C(names[0])}, None)]
                    if col in ("name", "table_name") and op == "in":
                        return [self.row({"name": C(n), "table_name": C(n)}, None) for n in names if n not in self.missing]
                    if col in ("name", "table_name") and op != "=":
                        raise Stop("statement not understood")
                return []
            raise Stop("statement not understood")
        ps = self.params(e)
        if len(ps) != sum(sql.is_placeholder(x) for x in sql.tokens(t[2])):
            self.ip.throw("ValueError", "another number of parameters than placeholders")
        rows = self.tables[s.table]
        if s.kind.startswith("INSERT"):
            if s.kind != "INSERT":
                raise Stop("statement not understood")
            self.affected[e.recv] = 1
            r, i = {}, 0
            for c, v in zip(s.cols, s.vals):
                if sql.is_placeholder(v):
                    if i >= len(ps):
                        raise Stop("parameters not understood")
                    r[c] = ps[i]
                    i += 1
                else:
                    r[c] = self.literal(v)
            rows.append(r)
            return []
        if s.kind == "DELETE":
            s, ps = self.nested(s, list(ps))
            self.tables[s.table] = [r for r in rows if not self.match(s, list(ps), r)]
            self.affected[e.recv] = len(rows) - len(self.tables[s.table])
            return []
        if s.kind == "SELECT":
            s, ps = self.nested(s, list(ps))
            got = [r for r in rows if self.match(s, list(ps), r)]
            got = self.sort(got, s.order)
            self.affected[e.recv] = len(got)
            if s.limit is not None:
                self.limits.append((e, s.limit))
                if not s.limit.isdigit():
                    raise Stop("statement not understood")
                got = got[: int(s.limit)]
            cols = None if s.cols == ["*"] else s.cols
            if cols and cols[0].startswith(("count", "max", "min")):
                raise Stop("statement not understood")
            return [self.row(r, cols) for r in got]
        raise Stop("statement not understood")

    def nested(self, s, ps):
        """s, with the rows of the selections in its conditions"""
        if not any(op in ("in", "not in") and rhs and rhs[0].upper() == "SELECT" for _, op, rhs in s.where):
            return s, ps
        out, where = [], []
        for col, op, rhs in s.where:
            n = sum(sql.is_placeholder(x) for x in rhs)
            mine, ps = ps[:n], ps[n:]
            if rhs and rhs[0].upper() == "SELECT":
                q = sql.parse_tokens(rhs)
                if q is None or q.kind != "SELECT" or q.table not in self.tables or len(q.cols) != 1 or q.order or q.limit is not None:
                    raise Stop("statement not understood")
                c = q.cols[0].split()[-1].split(".")[-1]
                mine = [r.get(c, NONE) for r in self.tables[q.table] if self.match(q, list(mine), r)]
                rhs = ["?"] * len(mine)
            out += mine
            where.append((col, op, rhs))
        t = sql.Stmt(s.kind, s.table, cols=s.cols, where=where, order=s.order, limit=s.limit, text=s.text, conj=s.conj)
        return t, out + ps

    def literal(self, x):
        if x.lstrip("-").isdigit():
            return C(int(x))
        if x[:1] == "'":
            return C(x[1:-1])
        if x.upper() == "NULL":
            return NONE
        raise Stop("statement not understood")

    def match(self, s, ps, r):
        if not s.where:
            return True
        res = []
        for col, op, rhs in s.where:
            vals = [ps.pop(0) if sql.is_placeholder(x) else self.literal(x) for x in rhs]
            res.append(self.test(r.get(col, NONE), op, vals))
        return all(res) if s.conj == "and" else any(res)

    def test(self, v, op, vals):
        ip = self.ip
        if op == "in":
            return any(ip.eq(v, x) for x in vals)
        if op == "not in":
            return not any(ip.eq(v, x) for x in vals)
        if op in ("=", "!=") and len(vals) == 1:
            return ip.eq(v, vals[0]) == (op == "=")
        if op in ("<", ">", "<=", ">=") and len(vals) == 1:
            return ip.compare_vals(op, v, vals[0])
        if op == "like" and len(vals) == 1:
            # names may contain "_", which matches any character
            return self.ip.eq(v, vals[0]) or bool(ip.choose(2))
        if op == "is" and vals == [NONE]:
            return v == NONE
        raise Stop("statement not understood")

    def sort(self, rows, order):
        if len(rows) < 2:
            return rows
        if not order:
            if self.rev is None:
                return rows if not self.ip.choose(2) else rows[::-1]
            if self.rev == "?":
                self.rev = bool(self.ip.choose(2))
            return rows[::-1] if self.rev else rows
        col, desc = order[0]
        out = []
        for r in rows:
            i = 0
            while i < len(out):
                lt = self.ip.cmp_known("<", out[i].get(col, NONE), r.get(col, NONE))
                if lt is None:
                    # times not comparable: any order
                    lt = bool(self.ip.choose(2))
                if lt == desc:
                    break
                i += 1
            out.insert(i, r)
        return out

    def row(self, r, cols):
        ip = self.ip
        d = []
        for c in cols or list(r):
            v = r.get(c, NONE)
            if self.typ == "postgresql" and c in ("trigger_data", "run_data") and v[0] == "app" and v[1] == "json.dumps":
                v = v[2]
            if self.typ != "sqlite3" and c.endswith("_time"):
                # these libraries return times without an offset
                ip.facts.setdefault(("eq", app("attr", v, "tzinfo"), NONE), True)
            if c in ("job_name", "run_id", "trigger_type", "exit_code") and v[0] in ("sym", "app") and ip.types_of(v) is None:
                ip.facts[("types", v)] = frozenset({"int" if c == "exit_code" else "str"})
            if self.typ == "sqlite3" and c.endswith("_time") and v[0] in ("sym", "lin") and ip.types_of(v) is None:
                ip.facts[("types", v)] = frozenset({"float"})
            if v[0] == "app" and v[1] == "json.dumps":
                ip.facts[("types", v)] = frozenset({"str"})
            d.append((C(c), v))
        return ip.new_dict(d, name="sqlite3.Row" if self.typ == "sqlite3" else None)

    # -- MongoDB ---------------------------------------------------------

    def collection(self, v):
        for x in self.tables:
            if v[0] == "app" and v[-1] in (C(x), x):
                return x
        raise Stop("collection not understood")

    def cond(self, f, r):
        ip = self.ip
        if f == NONE:
            return True
        o = ip.deref(f)
        if o is None or o.kind != "dict" or o.rest is not None:
            raise Stop("query not understood")
        for k, v in o.entries:
            if not is_const(k) or str(k[2]).startswith("$"):
                raise Stop("query not understood")
            x = r.get(k[2], NONE)
            p = ip.deref(v)
            if p is not None and p.kind == "dict":
                for op, y in p.entries:
                    ops = {"$ne": "!=", "$eq": "=", "$gt": ">", "$lt": "<", "$gte": ">=", "$lte": "<="}
                    if op[2] in ops:
                        ok = self.test(x, ops[op[2]], [y])
                    elif op[2] in ("$in", "$nin"):
                        ok = self.test(x, "in" if op[2] == "$in" else "not in", [s[1] for s in ip.segs(y)])
                    else:
                        raise Stop("query not understood")
                    if not ok:
                        return False
            elif not ip.eq(x, v):
                return False
        return True

    def find(self, e):
        if e.name == ".aggregate":
            raise Stop("query not understood")
        c = self.collection(e.recv)
        f = e.args[0] if e.args else e.kw.get("filter", NONE)
        self.log.append((e, "find", c))
        got = [r for r in self.tables[c] if self.cond(f, r)]
        if "sort" in e.kw:
            got = self.mongo_sort(got, [e.kw["sort"]])
        elif len(got) > 1:
            got = self.sort(got, [])
        return [self.row(r, None) for r in got]

    def mongo_sort(self, rows, args):
        ip = self.ip
        if len(args) == 2:
            spec = [("tuple", tuple(args))]
        else:
            spec = [s[1] for s in ip.segs(args[0])] if args[0][0] in ("obj", "tuple") else None
        if not spec or spec[0][0] != "tuple":
            raise Stop("order not understood")
        col, d = spec[0][1]
        desc = "DESCENDING" in show(d) or d == C(-1)
        if not desc and not ("ASCENDING" in show(d) or d == C(1)):
            raise Stop("order not understood")
        return self.sort(rows, [(col[2], desc)])

    def event(self, e):
        ip = self.ip
        cs = ip.data.setdefault("cursors", {})
        if e.name in (".insert_one",):
            o = ip.deref(e.args[0])
            if o is None or o.kind != "dict":
                raise Stop("document not understood")
            c = self.collection(e.recv)
            self.tables[c].append({k[2]: v for k, v in o.entries})
            self.log.append((e, "INSERT", c))
            self.commits.append((e, self.snapshot()))
        if e.name in (".delete_many", ".delete_one", ".drop"):
            c = self.collection(e.recv)
            f = e.args[0] if e.args else NONE
            gone = [r for r in self.tables[c] if self.cond(f, r)]
            if e.name == ".delete_one":
                gone = gone[:1]
            self.tables[c] = [r for r in self.tables[c] if not any(r is g for g in gone)]
            self.log.append((e, "DELETE", c))
            self.commits.append((e, self.snapshot()))
        if e.name in (".replace_one", ".update_one", ".update_many", ".insert_many", ".bulk_write"):
            raise Stop("document not understood")
        if e.name == ".commit":
            self.commits.append((e, self.snapshot()))
        if e.name == ".rollback":
            raise Stop("rollback")
        if e.recv in cs and e.name == ".sort":
            objs = cs[e.recv]
            rows = [({k[2]: v for k, v in ip.deref(o).entries}, o) for o in objs]
            srt = self.mongo_sort([dict(r, __o=o) for r, o in rows], e.args)
            cs[e.recv] = [r["__o"] for r in srt]
            return e.recv
        if e.recv in cs and e.name == ".limit":
            if is_num(e.args[0]) and cval(e.args[0]):
                self.limits.append((e, str(cval(e.args[0]))))
                cs[e.recv] = cs[e.recv][: cval(e.args[0])]
            return e.recv
        return None
