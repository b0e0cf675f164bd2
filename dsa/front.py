"""Front end: parses /repo, resolves names, and computes per-function effect
summaries (which attributes a function may assign or mutate, which library
functions it may call, which repository functions it may call), closed over
the call graph."""
import ast
import os

MUTATORS = {
    "append", "remove", "pop", "extend", "insert", "clear", "update", "add",
    "discard", "setdefault", "sort", "popitem", "reverse", "appendleft",
    "popleft", "difference_update",
}
# Method names which never resolve to a repository class by name alone
BUILTIN_METHODS = MUTATORS | {
    "get", "items", "keys", "values", "copy", "format", "join", "split",
    "strip", "startswith", "endswith", "encode", "decode", "upper", "lower",
    "count", "index", "replace", "read", "fileno", "isoformat", "timestamp",
    "total_seconds", "astimezone", "execute", "fetchone", "fetchall", "commit",
    "cursor", "rollback", "find", "limit", "info", "debug", "warning", "error",
    "rsplit", "group", "match", "wait",
}


class FuncInfo:
    def __init__(self, name, node, module, cls=None):
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = "{}.{}{}".format(
            module.name, (cls.name + ".") if cls else "", name
        )
        self.static = any(
            isinstance(d, ast.Name) and d.id == "staticmethod"
            for d in getattr(node, "decorator_list", [])
        )
        self.classmethod = any(
            isinstance(d, ast.Name) and d.id == "classmethod"
            for d in getattr(node, "decorator_list", [])
        )
        self.prop = any(
            (isinstance(d, ast.Name) and d.id in ("property", "cached_property"))
            or (isinstance(d, ast.Attribute) and d.attr in ("cached_property",))
            for d in getattr(node, "decorator_list", [])
        )

    def __repr__(self):
        return self.qual


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = "{}.{}".format(module.name, name)
        self.methods, self.attrs, self.base_exprs = {}, {}, node.bases
        self.bases = []

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c not in out:
                out.append(c)
                todo.extend(b for b in c.bases if isinstance(b, ClassInfo))
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return self.qual


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path)
        self.globals = {}
        self.tried = {}  # names bound in "try" statements of the module
        self.is_pkg = path.endswith("__init__.py")

    def rel(self, level, mod):
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([mod] if mod else []))


def bound_names(s):
    out = set()
    for x in ast.walk(s):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                out.add(a.asname or (a.name.split(".")[0] if isinstance(x, ast.Import) else a.name))
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
    return out


def needed(m):
    """(statement, module) imported whenever m is"""
    out = []

    def go(body):
        for s in body:
            if isinstance(s, ast.Import):
                out.extend((s, a.name) for a in s.names)
            elif isinstance(s, ast.ImportFrom):
                base = m.rel(s.level, s.module)
                out.append((s, base))
                out.extend((s, base + "." + a.name) for a in s.names)
            elif isinstance(s, ast.Try):
                if not any(catches_import_error(h) for h in s.handlers):
                    go(s.body)
                    go(s.orelse)
                go(s.finalbody)
            elif isinstance(s, (ast.With, ast.ClassDef)):
                go(s.body)
    go(m.tree.body)
    return out


def catches_import_error(h):
    names = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
    return any(n is None or (isinstance(n, ast.Name) and n.id in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")) for n in names)


class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.absent = frozenset()  # libraries which are not installed
        self.classes = {}
        self.funcs = {}
        pkg = os.path.join(root, "dsari")
        for dirpath, dirs, files in os.walk(pkg):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for fn in sorted(files):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(path, encoding="utf-8") as f:
                    self.modules[rel] = Module(rel, path, f.read())
        for m in self.modules.values():
            self._scan(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_exprs:
                r = self.static_resolve(c.module, b)
                c.bases.append(r[1] if r and r[0] == "class" else ast.unparse(b))
        self._summaries()

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.globals.setdefault(a.asname, ("import", a.name))
                    else:
                        m.globals.setdefault(
                            a.name.split(".")[0], ("import", a.name.split(".")[0])
                        )
            elif isinstance(s, ast.ImportFrom):
                base = m.rel(s.level, s.module)
                for a in s.names:
                    m.globals.setdefault(a.asname or a.name, ("from", base, a.name))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(s.name, s, m)
                m.globals[s.name] = ("func", f)
                self.funcs[f.qual] = f
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(s.name, s, m)
                m.globals[s.name] = ("class", c)
                self.classes[c.qual] = c
                for x in s.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = FuncInfo(x.name, x, m, c)
                        # a property setter etc. does not replace the getter
                        if x.name not in c.methods or not any(
                            isinstance(d, ast.Attribute)
                            for d in x.decorator_list
                        ):
                            c.methods[x.name] = f
                            self.funcs[f.qual] = f
                    elif isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = x.value
                    elif isinstance(x, ast.AnnAssign) and x.value is not None:
                        if isinstance(x.target, ast.Name):
                            c.attrs[x.target.id] = x.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.globals.setdefault(t.id, ("assign", s.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in t.elts:
                            if isinstance(x, ast.Name):
                                m.globals.setdefault(x.id, ("assign", None))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.globals.setdefault(s.target.id, ("assign", s.value))
            elif isinstance(s, ast.Try):
                for n in bound_names(s):
                    m.tried.setdefault(n, s)
                self._scan(m, s.body)
                for h in s.handlers:
                    self._scan(m, h.body)
                self._scan(m, s.orelse)
                self._scan(m, s.finalbody)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                # names bound step by step
                before = set(m.globals)
                self._scan(m, s.body)
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in before:
                        m.globals[x.id] = ("assign", None)
                self._scan(m, getattr(s, "orelse", []))
            elif isinstance(s, ast.If):
                # a name bound on several branches has no single value
                before = set(m.globals)
                self._scan(m, s.body)
                new = set(m.globals) - before
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Name) and t.id in new:
                                m.globals[t.id] = ("assign", None)
                self._scan(m, s.orelse)

    def static_resolve(self, module, expr):
        """('class', C) | ('func', F) | ('mod', dotted) | ('ext', dotted) | None"""
        if isinstance(expr, ast.Name):
            return self.resolve_global(module, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.static_resolve(module, expr.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.resolve_dotted(b[1] + "." + expr.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + expr.attr)
            if b[0] == "class":
                f = b[1].find(expr.attr)
                return ("func", f) if f else None
        return None

    def optional(self, module=None):
        """names imported where it may fail"""
        out = set()
        for m in self.modules.values():
            if module is not None and m.name != module:
                continue
            for t in {id(t): t for t in m.tried.values()}.values():
                if not any(catches_import_error(h) for h in t.handlers):
                    continue
                for x in (x for s in t.body for x in ast.walk(s)):
                    if isinstance(x, ast.Import):
                        out |= {a.name for a in x.names}
                    elif isinstance(x, ast.ImportFrom):
                        b = m.rel(x.level, x.module)
                        out |= {b + "." + a.name if b else a.name for a in x.names}
        return {n for n in out if n.split(".")[0] != "dsari"}

    def gone(self, dotted):
        """can the module not be imported, without the absent libraries?"""
        return self.why_gone(dotted) is not None

    def why_gone(self, dotted, seen=()):
        """(name of the absent library, the import statement) or None"""
        for a in self.absent:
            if dotted == a or dotted.startswith(a + "."):
                return a, None
        parts = dotted.split(".")
        for n in range(1, len(parts) + 1):
            m = self.modules.get(".".join(parts[:n]))
            if m is None or m.name in seen:
                continue
            for s, name in needed(m):
                w = self.why_gone(name, seen + (m.name,))
                if w is not None:
                    return w[0], w[1] or (m, s)
        return None

    def resolve_global(self, module, name):
        if self.absent and name in module.tried:
            return ("tried", module, name)
        g = module.globals.get(name)
        if g is None:
            return None
        if g[0] in ("func", "class"):
            return g
        if g[0] == "import":
            return self.resolve_dotted(g[1])
        if g[0] == "from":
            return self.resolve_dotted((g[1] + "." + g[2]) if g[1] else g[2])
        if g[0] == "assign":
            return ("global", module, name, g[1])
        return None

    def resolve_dotted(self, dotted):
        if dotted in self.modules:
            return ("mod", dotted)
        if "." in dotted:
            head, last = dotted.rsplit(".", 1)
            if head in self.modules:
                r = self.resolve_global(self.modules[head], last)
                if r is not None:
                    return r
                return ("ext", dotted)
        return ("ext", dotted)

    def is_repo_module(self, dotted):
        return dotted in self.modules

    # -- effect summaries ------------------------------------------------

    def _summaries(self):
        self.methods_by_name = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)
        self.direct = {}
        for q, f in self.funcs.items():
            self.direct[q] = self.body_summary(f.node, f.module, f.cls, f)
        # closure
        self.attr_names = {
            n.attr for m in self.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)
        } | {
            n.value for m in self.modules.values() for n in ast.walk(m.tree)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier()
        }
        self.trans = {q: {k: set(v) for k, v in d.items()} for q, d in self.direct.items()}
        changed = True
        while changed:
            changed = False
            for q, d in self.trans.items():
                for callee in list(d["calls"]):
                    if callee in self.trans:
                        for k, v in self.trans[callee].items():
                            if not v <= d[k]:
                                d[k] |= v
                                changed = True

    def callees(self, module, cls, call):
        """Repository functions a call expression may reach, and the library
        name otherwise."""
        fn = call.func if isinstance(call, ast.Call) else call
        if isinstance(fn, ast.Name):
            r = self.resolve_global(module, fn.id)
            if r is None:
                return [], fn.id
            if r[0] == "func":
                return [r[1]], None
            if r[0] == "class":
                i = r[1].find("__init__")
                return ([i] if i else []), r[1].qual
            if r[0] == "ext":
                return [], r[1]
            return [], fn.id
        if isinstance(fn, ast.Attribute):
            r = self.static_resolve(module, fn)
            if r is not None:
                if r[0] == "func":
                    return [r[1]], None
                if r[0] == "class":
                    i = r[1].find("__init__")
                    return ([i] if i else []), r[1].qual
                if r[0] in ("ext", "mod"):
                    return [], r[1]
            if (
                isinstance(fn.value, ast.Name)
                and fn.value.id in ("self", "cls")
                and cls is not None
            ):
                m = cls.find(fn.attr)
                if m:
                    # dynamic dispatch to subclasses
                    out = [m]
                    for c in self.classes.values():
                        if c is not cls and cls in c.mro() and fn.attr in c.methods:
                            out.append(c.methods[fn.attr])
                    return out, None
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                return [], "super." + fn.attr
            if fn.attr not in BUILTIN_METHODS and fn.attr in self.methods_by_name:
                return list(self.methods_by_name[fn.attr]), None
            return [], "." + fn.attr
        return [], None

    def body_summary(self, node, module, cls, owner=None):
        out = {"assigned": set(), "mutated": set(), "calls": set(), "lib": set()}
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute):
                if isinstance(x.ctx, (ast.Store, ast.Del)):
                    out["assigned"].add(x.attr)
                elif x.attr in self.methods_by_name:
                    # bound method references and properties
                    if isinstance(x.value, ast.Name) and x.value.id == "self" and cls:
                        m = cls.find(x.attr)
                        if m:
                            out["calls"].add(m.qual)
                    for m in self.methods_by_name[x.attr]:
                        if m.prop:
                            out["calls"].add(m.qual)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                b = x.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    out["mutated"].add(b.attr)
            elif isinstance(x, ast.Call):
                fs, lib = self.callees(module, cls, x)
                for f in fs:
                    out["calls"].add(f.qual)
                if lib:
                    out["lib"].add(lib)
                if lib == "setattr":
                    out["assigned"].add("*setattr*")
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    b = x.func.value
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute):
                        out["mutated"].add(b.attr)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r = self.resolve_global(module, x.id)
                if r is not None and r[0] == "func":
                    out["calls"].add(r[1].qual)
        return out

    def block_summary(self, nodes, module, cls):
        out = {"assigned": set(), "mutated": set(), "calls": set(), "lib": set()}
        for n in nodes:
            d = self.body_summary(n, module, cls)
            for k in out:
                out[k] |= d[k]
        for q in list(out["calls"]):
            if q in self.trans:
                for k in out:
                    out[k] |= self.trans[q][k]
        return out

    def reaches(self, qual, libs=(), attrs=(), funcs=()):
        t = self.trans.get(qual)
        if t is None:
            return False
        return bool(
            (t["lib"] & set(libs))
            or ((t["assigned"] | t["mutated"]) & set(attrs))
            or (t["calls"] & set(funcs))
            or qual in funcs
        )
