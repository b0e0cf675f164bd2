"""A few files with known content, for scenarios about file handling."""
from .core import *  # noqa: F401,F403
from .values import make_str
from .interp import PyExc


def text(v):
    """strings and str() of something, alike"""
    while True:
        if v[0] == "str" and len(v[1]) == 1:
            v = v[1][0]
        elif v[0] == "app" and v[1] == "str" and len(v) == 3:
            v = v[2]
        else:
            break
    if v[0] == "str":
        out = []
        for p in v[1]:
            p = text(p)
            out.extend(p[1] if p[0] == "str" else [p])
        v = make_str(out)
    if is_const(v):
        return C(str(v[2]))
    return v


def path(st, *parts):
    return st.ip.models["os.path.join"](st.ip, list(parts), {})


class Files:
    """content: {path: data}"""

    def __init__(self, st, content, mtime=None):
        self.st, self.ip = st, st.ip
        self.files = {text(k): v for k, v in content.items()}
        self.handles = {}
        self.last = None
        self.queries = []
        ip = st.ip
        for n in ("exists", "isfile", "lexists"):
            ip.ext_overrides["os.path." + n] = self.exists
        ip.ext_overrides["os.access"] = self.access
        self.unreadable = set()
        ip.ext_overrides["os.path.isdir"] = lambda ip, a, k: FALSE
        for n in ("os.path.getmtime", "os.path.getctime"):
            ip.ext_overrides[n] = self.getmtime(n)
        for n in ("json.load", "json.loads", "yaml.safe_load", "yaml.load"):
            ip.ext_overrides[n] = self.load(n)
        for n in ("os.remove", "os.unlink"):
            ip.ext_overrides[n] = self.remove(n)
        for n in ("os.rename", "os.replace"):
            ip.ext_overrides[n] = self.rename(n)
        ip.kinds[S("mtime")] = "float"
        ip.facts[("types", S("mtime"))] = frozenset({"float"})
        self.prev = st.hook
        st.hook = self.hook

    def exists(self, ip, a, k):
        self.queries.append(text(a[0]))
        return C(text(a[0]) in self.files)

    def access(self, ip, a, k):
        p = text(a[0])
        mode = a[1] if len(a) > 1 else k.get("mode", NONE)
        if p in self.unreadable and "F_OK" not in show(mode):
            return FALSE
        return self.exists(ip, a, k)

    def getmtime(self, n):
        def f(ip, a, k):
            ip.maybe_raise(n)
            if text(a[0]) not in self.files:
                ip.throw("FileNotFoundError", n)
            return S("mtime")
        return f

    def hook(self, e):
        if e.name in ("open", "io.open") and e.args:
            p = text(e.args[0])
            m = e.args[1] if len(e.args) > 1 else e.kw.get("mode", C("r"))
            if is_const(m) and "r" in m[2]:
                if p not in self.files:
                    self.ip.throw("FileNotFoundError", "open")
                if p in self.unreadable:
                    self.ip.throw("PermissionError", "open")
                h = self.ip.fresh("file")
                self.handles[h] = (p, self.files[p])
                self.last = h
                return h
        return self.prev(e) if self.prev else None

    def load(self, n):
        def f(ip, a, k):
            h = a[0] if a and a[0] in self.handles else self.last
            if h is None:
                return NotImplemented
            ip.emit("load!", [C(n)] + list(a), data=self.handles[h][0])
            ip.maybe_raise(n)
            v = self.handles[h][1]
            return v() if callable(v) else v
        return f

    def remove(self, n):
        def f(ip, a, k):
            ip.maybe_raise(n)
            p = text(a[0])
            ip.emit("os.remove", a)
            if p not in self.files:
                ip.throw("FileNotFoundError", n)
            del self.files[p]
            return NONE
        return f

    def rename(self, n):
        def f(ip, a, k):
            ip.maybe_raise(n)
            p = text(a[0])
            ip.emit("os.rename", a)
            if p in self.files:
                self.files[text(a[1])] = self.files.pop(p)
            return NONE
        return f
