"""Rules over dsari-render: which pages it writes, and what is on them."""
import ast
import fnmatch
import os
import re
from html.parser import HTMLParser

from . import jinja
from .core import *  # noqa: F401,F403
from .fsmodel import text, path
from .interp import PyExc, Stop
from .dbmodel import Store
from .r_db import json_loads
from .r_info import mode_of, uncompressed, distorted, read_part, database, finished, flatten, program, rows_of, shows
from .r_sched import next_time, no_files, reload_with
from .values import lin_add, make_str, mentions

NUMERIC = {"int", "float", "bool", "datetime", "timedelta", "date", "NoneType"}


# -- pages -------------------------------------------------------------------------

class Cell:
    def __init__(self, tag):
        self.tag, self.text, self.links = tag, "", []


class Row:
    def __init__(self, attrs):
        self.attrs, self.cells = attrs, []


class Table:
    def __init__(self, title):
        self.title, self.rows = title, []


class Dom(HTMLParser):
    VOID = {"meta", "link", "br", "hr", "img", "input", "!doctype"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.tables, self.links, self.texts = [], [], [], []
        self.head, self.cell, self.row, self.link = "", None, None, None
        self.inputs = []
        self.pre = []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag in ("h1", "h2", "h3", "h4", "caption"):
            self.head = ""
        if tag == "table":
            self.tables.append(Table(self.head))
        if tag == "tr" and self.tables:
            self.row = Row(d)
            self.tables[-1].rows.append(self.row)
        if tag in ("td", "th") and self.row is not None:
            self.cell = Cell(tag)
            self.row.cells.append(self.cell)
        if tag == "pre":
            self.pre.append("")
        if tag == "a" and "href" in d:
            self.link = [d["href"], ""]
            self.links.append(self.link)
            if self.cell is not None:
                self.cell.links.append(self.link)
        if tag == "link" and "href" in d:
            self.links.append([d["href"], ""])
        for a in ("src", "action"):
            if a in d:
                self.links.append([d[a], ""])
        if tag not in self.VOID:
            self.stack.append(tag)

    def handle_endtag(self, tag):
        while self.stack:
            t = self.stack.pop()
            if t == tag:
                break
        if tag in ("td", "th"):
            self.cell = None
        if tag in ("tr", "table"):
            self.row = self.cell = None
        if tag == "a":
            self.link = None

    def handle_data(self, data):
        self.texts.append(data)
        if self.link is not None:
            self.link[1] += data
        if self.cell is not None:
            self.cell.text += data
        if self.stack and self.stack[-1] in ("h1", "h2", "h3", "h4", "caption"):
            self.head += data
        if "pre" in self.stack and self.pre:
            self.pre[-1] += data


class Page:
    """a page whose unknown values are characters of the private use area"""

    def __init__(self, v):
        self.vals = {}
        s = ""
        for t in flatten(v, []):
            if isinstance(t, str):
                s += t
            else:
                c = chr(0xE000 + len(self.vals))
                self.vals[c] = t
                s += c
        self.src = s
        self.dom = Dom()
        self.dom.feed(s)
        self.dom.close()
        self.tables = self.dom.tables

    def value(self, c):
        """(value, escaped)"""
        v = self.vals[c]
        if v[0] == "app" and v[1] == "html.escape":
            return v[2], True
        return v, quoted(v)

    def toks(self, s):
        """texts and values of a part of the page"""
        out = []
        for c in s.strip():
            if c in self.vals:
                out.append(self.value(c)[0])
            elif out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        return out

    def places(self):
        """(value, escaped, where) of every unknown value"""
        s, i, n = self.src, 0, len(self.src)
        out = []
        where, quote, tag = "text", None, ""
        while i < n:
            c = s[i]
            if c in self.vals:
                v, e = self.value(c)
                w = where
                if where == "text" and tag in ("script", "style"):
                    w = tag
                if where == "value":
                    m = re.search(r"([\w-]+)\s*=\s*[\"'][^\"'=]*$", s[:i])
                    a = m.group(1).lower() if m else ""
                    first = m is not None and m.group(0).rstrip()[-1:] in "\"'"
                    if a.startswith("on") or a == "style":
                        w = "code"
                    elif a in ("href", "src", "action"):
                        w = "url start" if first else "value"
                out.append((v, e, w))
            elif where == "text":
                if s.startswith("<!--", i):
                    where = "comment"
                    i += 3
                elif c == "<":
                    m = re.match(r"</?([A-Za-z!]\w*)", s[i:])
                    if m:
                        if tag in ("script", "style") and not s[i:].lower().startswith("</" + tag):
                            pass
                        else:
                            tag = "" if s[i + 1] == "/" else m.group(1).lower()
                            where = "tag"
                            i += m.end() - 1
                    else:
                        where = "tag"
            elif where == "comment":
                if s.startswith("-->", i):
                    where = "text"
                    i += 2
            elif where == "tag":
                if c in "\"'":
                    where, quote = "value", c
                elif c == ">":
                    where = "text"
            elif where == "value":
                if c == quote:
                    where = "tag"
            i += 1
        return out


def quoted(v):
    """percent-encoded: without characters special in markup"""
    return v[0] == "app" and v[1] == "urllib.parse.quote"


def address(href):
    """the value which may make a link that is meant to be relative one with a scheme, as it may contain a colon"""
    for t in href:
        if isinstance(t, str):
            if any(c in t for c in "/?#"):
                return None
        elif not quoted(t):
            return t
    return None


def resolve(base, href):
    """the page a relative link leads to, as a list of texts and values; base:
    the directories of the page it is on"""
    cur = list(base)
    parts = [[]]
    for t in href:
        if not isinstance(t, str) and quoted(t):
            t = t[2]
        if isinstance(t, str):
            ps = t.split("/")
            for i, p in enumerate(ps):
                if i:
                    parts.append([])
                if p:
                    parts[-1].append(p)
        else:
            parts[-1].append(t)
    for i, p in enumerate(parts):
        if p == ["."] or not p:
            continue
        if p == [".."]:
            if not cur:
                return None
            cur.pop()
        elif len(p) == 1:
            cur.append(p[0])
        else:
            return None
    return cur + (["index.html"] if not parts[-1] or parts[-1] == [".."] else [])


# -- files below data_dir ------------------------------------------------------------

class Tree:
    """files and directories; what may or may not be there is chosen per path"""

    def __init__(self, st, there=(), maybe=(), outputs=()):
        self.st, self.ip = st, st.ip
        ip = st.ip
        self.there = {text(p): ("old", None) for p in there}
        self.maybe = [text(p) for p in maybe]
        for p in self.maybe:
            if ip.choose(2) == 0:
                self.there[p] = ("old", None)
        self.before = set(self.there)
        self.outputs = {text(k): v for k, v in dict(outputs).items()}
        self.dirs, self.empty = {}, None
        self.handles, self.written, self.removed, self.made = {}, [], [], []
        self.modes = {}
        self.opened = []
        for n in ("exists", "isfile", "lexists", "isdir"):
            ip.ext_overrides["os.path." + n] = (lambda n: lambda ip, a, k: self.exists(n, a))(n)
        ip.ext_overrides["os.access"] = lambda ip, a, k: self.exists("exists", a)
        for n in ("os.makedirs", "os.mkdir"):
            ip.ext_overrides[n] = self.mkdir(n)
        for n in ("os.replace", "os.rename"):
            ip.ext_overrides[n] = self.rename
        for n in ("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "os.removedirs"):
            ip.ext_overrides[n] = self.remove(n)
        ip.ext_overrides["os.path.dirname"] = lambda ip, a, k: self.parent(text(a[0])) or NotImplemented if mentions(a[0], S("data_dir")) else NotImplemented
        for n in ("tempfile.mkstemp", "tempfile.NamedTemporaryFile"):
            ip.ext_overrides[n] = self.temp(n)
        ip.ext_overrides["os.fdopen"] = lambda ip, a, k: a[0] if a[0] in self.handles else NotImplemented
        ip.ext_overrides["gzip.compress"] = lambda ip, a, k: app("gzipped", a[0])
        ip.ext_overrides["lzma.compress"] = lambda ip, a, k: app("lzmaed", a[0])
        self.prev = st.hook
        st.hook = self.hook

    def temp(self, n):
        def f(ip, a, k):
            names = ("suffix", "prefix", "dir") if n == "tempfile.mkstemp" else ("mode", "buffering", "encoding", "newline", "suffix", "prefix", "dir", "delete")
            k = dict(zip(names, a), **k)
            d = k.get("dir", NONE)
            p = make_str([C("/tmp") if d == NONE else d, C("/"), k.get("prefix", C("tmp")), ip.fresh("temp name"), k.get("suffix", C(""))])
            e = ip.emit("open", [p, C("wb" if n == "tempfile.mkstemp" else "w+b")])
            if n == "tempfile.mkstemp":
                return ("tuple", (e.res, p))
            if k.get("delete", TRUE) != FALSE:
                raise Stop("temporary file")
            ip.data.setdefault("attrs", {})[(e.res, "name")] = p
            return e.res
        return f

    def parent(self, p):
        """p without its last component"""
        if p[0] == "str":
            q = list(p[1])
            while q:
                if is_const(q[-1]) and isinstance(q[-1][2], str) and "/" in q[-1][2]:
                    q[-1] = C(q[-1][2].rpartition("/")[0])
                    return text(make_str(q))
                q.pop()
        if p[0] == "app" and p[1] == "os.path.join":
            return text(app("os.path.join", *p[2:-1])) if len(p) > 4 else text(p[2])
        return None

    def isdir(self, p):
        if p in self.dirs:
            return self.dirs[p]
        # a directory in which or below which there is a file
        for f in list(self.there) + list(self.outputs):
            q = f
            for _ in range(6):
                q = self.parent(q)
                if q is None:
                    break
                if q == p:
                    self.dirs[p] = True
                    return True
        if self.empty is None:
            # directories without files in them: all are there, or none
            self.empty = bool(self.ip.choose(2))
        b = self.dirs[p] = self.empty
        q = p
        if b:
            for _ in range(6):
                q = self.parent(q)
                if q is None:
                    break
                self.dirs[q] = True
        return b

    def exists(self, n, a):
        p = text(a[0])
        if p in self.there or p in self.outputs:
            return C(n != "isdir")
        if not mentions(p, S("data_dir")):
            return C(n != "isfile")
        if n == "isfile":
            return FALSE
        if self.is_file_name(p):
            return FALSE
        return C(self.isdir(p))

    def is_file_name(self, p):
        last = p[1][-1] if p[0] == "str" else p
        return is_const(last) and isinstance(last[2], str) and "." in last[2].rpartition("/")[2]

    def mkdir(self, n):
        def f(ip, a, k):
            p = text(a[0])
            self.made.append(p)
            ip.emit(n, a, k)
            ok = k.get("exist_ok", a[2] if len(a) > 2 and n == "os.makedirs" else FALSE)
            if self.dirs.get(p) and not (is_const(ok) and ok[2]):
                ip.throw("FileExistsError", n)
            q = p
            while q is not None:
                self.dirs[q] = True
                q = self.parent(q)
            return NONE
        return f

    def rename(self, ip, a, k):
        s, d = text(a[0]), text(a[1])
        ip.emit("os.replace", a, k)
        if s not in self.there:
            ip.throw("FileNotFoundError", "os.replace")
        for h, (p, data, o, z) in self.handles.items():
            if p == s and o:
                self.there[s] = ("partial", self.there[s][1])
        self.there[d] = self.there.pop(s)
        self.written.append((d, "replace"))
        return NONE

    def remove(self, n):
        def f(ip, a, k):
            self.removed.append(text(a[0]))
            ip.emit(n, a, k)
            self.there.pop(text(a[0]), None)
            return NONE
        return f

    def hook(self, e):
        ip = self.ip
        r = self.prev(e) if self.prev else None
        if r is not None:
            return r
        if e.name in ("open", "io.open", "gzip.open", "gzip.GzipFile", "lzma.open", "codecs.open") and e.args:
            p = text(e.args[0])
            default = {"gzip.open": "rb", "gzip.GzipFile": "rb"}.get(e.name, "r")
            m = e.args[1] if len(e.args) > 1 else e.kw.get("mode", C(default))
            if not is_const(m):
                raise Stop("mode of open")
            h = ip.fresh("file")
            ip.kinds[h] = "object"
            if any(c in m[2] for c in "wxa+"):
                if "x" in m[2] and p in self.there:
                    ip.throw("FileExistsError", "open")
                q = self.parent(p)
                if q is not None and not self.isdir(q):
                    ip.throw("FileNotFoundError", "open")
                z = "gzip" if e.name.startswith("gzip") else ""
                self.there[p] = ("new", [])
                self.handles[h] = [p, self.there[p][1], True, z]
                self.opened.append((p, e.loc))
                self.written.append((p, "open"))
                return h
            if p not in self.there and p not in self.outputs:
                ip.throw("FileNotFoundError", "open")
            self.modes[h] = mode_of(e)
            self.handles[h] = [p, None, True, e.name[:4] if e.name.startswith(("gzip", "lzma")) else ""]
            return h
        if e.name == ".write" and e.recv in self.handles:
            h = self.handles[e.recv]
            v = e.args[0]
            h[1].append((h[3], v))
            return app("len", v)
        if e.name == ".read" and e.recv in self.handles:
            p = self.handles[e.recv][0]
            return read_part(e, app("read", self.outputs.get(p, S("file content")), C(self.handles[e.recv][3])), self.modes.get(e.recv), False)
        if e.args and (e.name == ".decompress" or e.name.endswith(".decompress")):
            return uncompressed(self.st, e)
        if e.name in (".close", "exit", "exit!"):
            h = e.recv if e.name == ".close" else e.args[0] if e.args else None
            if h in self.handles:
                self.handles[h][2] = False
        return None

    def content(self, p):
        """(value written, compressed) of file p; None if it is not a new one"""
        kind, data = self.there[p]
        if kind != "new":
            return None
        z, parts = "", []
        for a, v in data:
            z = z or a
            if v[0] == "app" and v[1] == "gzipped":
                z, v = z + "gzip", v[2]
            if v[0] == "app" and str(v[1]).lstrip(".") == "encode":
                v = v[2]
            parts.append(v)
        return make_str(parts), z


# -- scenes ------------------------------------------------------------------------

DONE = [("x0", "job j", 1000, 0), ("x1", "job k", 2000, 1), ("x2", "job j", 3000, 143), ("x3", "job gone", 4000, 0), ("x4", "job h", 5000, 0), ("x5", "job j", 2500, 0)]
RUNNING = [("y0", "job j", None, None), ("y1", "job k", None, None)]


EARLY = {"x2": 100, "x5": 50, "x004": 5, "x025": 7}  # runs which took long


def page(st, *parts, gz=False):
    return text(path(st, S("data_dir"), C("html"), *(list(parts) + [C("index.html.gz" if gz else "index.html")])))


def scene(st, typ="sqlite3", done=DONE, running=RUNNING, jobs="kjhl", gz=False, regenerate=False, there=(), maybe=(), outputs=None, conf=None, css="?", rev="?", trigger=None):
    ip = st.ip
    no_files(st)
    next_time(st)
    json_loads(st)
    jinja.install(st)
    st.jobs = {n: st.job(n, render_reports=C(n != "h")) for n in jobs}
    ip.data.setdefault("distinct", set()).update((S("job nowhere"), S("job gone"), S("job h")))
    ip.data["ranks"] = {S("job " + n): i for i, n in enumerate(sorted(jobs))}
    st.gz, st.regenerate = gz, regenerate
    st.recs = {}
    rs = rows_of(st, typ, done)
    for (n, j, s, c), r in zip(done, rs):
        st.recs[n] = r
        if n in EARLY:
            old, v = r["start_time"], st.param(n + " early start_time", EARLY[n], EARLY[n] + 1)
            ip.kinds[v] = ip.kinds[old]
            ip.facts[("types", v)] = ip.facts[("types", old)]
            r["start_time"] = v
        ip.facts[("eq", C("schedule"), r["trigger_type"])] = False
        ip.set_range(app("len", r["trigger_type"]), 1, None)
    ys = rows_of(st, typ, running)
    for (n, j, s, c), r in zip(running, ys):
        st.recs[n] = r
    if trigger:
        trigger(st)
    st.spec = {n: (j[4:], s, c) for n, j, s, c in done}
    st.store = Store(st, typ, {"runs": rs, "runs_running": ys})
    st.store.rev = rev
    attrs = dict(conf or {})
    attrs.setdefault("report_html_gz", C(gz))
    attrs.setdefault("report_run_output_start", C(0))
    attrs.setdefault("report_run_output_end", C(0))
    attrs.setdefault("template_dir", NONE)
    reload_with(st, list(st.jobs.values()), database=database(st, typ), **attrs)

    def names(what):
        for p in what:
            if p in st.recs:
                yield page(st, st.recs[p]["job_name"], st.recs[p]["run_id"], gz=gz)
            elif p == "index":
                yield page(st, gz=gz)
            elif p == "css":
                yield text(path(st, S("data_dir"), C("html"), C("darkly.min.css")))
            else:
                yield page(st, S("job " + p), gz=gz)
    outs = {}
    for n, r in st.recs.items():
        form = (outputs or {}).get(n, "")
        if form is not None:
            outs[output(st, n, form)] = S("output of " + n)
    st.tree = Tree(st, list(names(there)) + (list(names(["css"])) if css is True else []), list(names(maybe)) + (list(names(["css"])) if css == "?" else []), outs)


def output(st, n, form=""):
    r = st.recs[n]
    return make_str([path(st, S("data_dir"), C("runs"), r["job_name"], r["run_id"], C("output.txt")), C(form)])


def render(st):
    st.renderer, r = program(st, "dsari.render.Renderer", {"regenerate": st.regenerate, "debug": False}, "render")
    return r


def wanted(st):
    """ended runs which are rendered, in the order they ended"""
    ns = [n for n, (j, s, c) in st.spec.items() if j in st.jobs and j != "h"]
    return sorted(ns, key=lambda n: st.spec[n][1])


def is_val(t, v, others):
    """is the shown text t the value v, however formatted"""
    if isinstance(t, str):
        return is_const(v) and t.strip() == str(v[2])
    if v[0] == "lin":
        return shows(t, v)
    return shows(t, v) and not any(o != v and mentions(t, o) for o in others)


def cell_is(pg, cell, v, others=()):
    """True, False, or None where the analysis lost the value"""
    ts = [t for t in pg.toks(cell.text) if t != ""]
    if len(ts) == 1 and is_val(ts[0], v, others):
        return True
    if any(not isinstance(t, str) and t[0] == "top" for t in ts):
        return None
    return False


def has_val(pg, s, v, others=()):
    return any(is_val(t, v, others) for t in pg.toks(s))


def times(r):
    return [r["schedule_time"], r["start_time"], r["stop_time"]]


def duration(r):
    return lin_add(r["stop_time"], r["start_time"], -1)


COLUMN = (("sched", "schedule"), ("duration", "duration"), ("successful", "good"), ("success", "good"), ("fail", "bad"), ("stop", "stop"), ("end", "stop"), ("start", "start"), ("exit", "code"),
          ("trigger", "trigger"), ("description", "description"), ("job", "job"), ("run id", "id"), ("last run", "last"), ("run", "id"))


def column(title):
    t = title.strip().lower()
    for k, c in COLUMN:
        if k in t:
            return c
    return None


def judge_row(q, pg, titles, row, r, code, what, loc):
    """the row of one run"""
    vals = {"stop": r["stop_time"], "start": r["start_time"], "schedule": r["schedule_time"], "duration": duration(r), "code": C(code), "job": r["job_name"], "id": r["run_id"]}
    cells = [c for c in row.cells]
    for t, c in zip(titles, cells):
        k = column(t)
        if k in vals:
            q.require(cell_is(pg, c, vals[k], times(r)), loc, "{} shows the run's own {}".format(what, t.strip().lower()))
    allt = "".join(c.text for c in cells)
    for k in ("stop", "duration", "code"):
        q.require(has_val(pg, allt, vals[k], times(r)), loc, "{} shows {} of the run".format(what, {"stop": "the end", "code": "the exit code"}.get(k, "the " + k)))


def run_rows(q, pg, base, table, runs, what, loc):
    """the rows of a table of runs: one of each of runs, in this order"""
    st = q.st
    rows = [r for r in table.rows if any(c.tag == "td" for c in r.cells)]
    heads = [r for r in table.rows if r.cells and all(c.tag == "th" for c in r.cells)]
    titles = [c.text for c in heads[0].cells] if heads else []
    seen = []
    for row in rows:
        links = [l for c in row.cells for l in c.links]
        dest = [resolve(base, pg.toks(l[0])) for l in links]
        if not links and len(row.cells) == 1:
            continue  # a remark
        hit = [n for n, r in st.recs.items() if [S_name(st, n), r["run_id"], "index.html"] in dest]
        seen.append(hit[0] if hit else None)
        if hit:
            n = hit[0]
            judge_row(q, pg, titles, row, st.recs[n], st.spec[n][2] if n in st.spec else None, what, loc)
    q.require(seen == list(runs), loc, "{}: runs {} are listed (expected {})".format(what, ", ".join(str(s) for s in seen), ", ".join(runs)))
    marks = {}
    for n, row in zip(seen, rows):
        if n in st.spec:
            marks.setdefault(st.spec[n][2] == 0, set()).add(tuple(sorted((a, b or "") for a, b in row.attrs.items())))
    if len(marks) == 2:
        q.require(not (marks[True] & marks[False]), loc, "{}: failed runs are marked".format(what))


def S_name(st, n):
    return st.recs[n]["job_name"]


def pages_of(q):
    """{path: Page} of the pages written; judges how they were written"""
    st, tree = q.st, q.st.tree
    if hasattr(st, "pages"):
        return st.pages
    st.pages = {}
    for p, (kind, data) in tree.there.items():
        if kind != "old" and data is not None:
            c = tree.content(p)
            if c is None:
                continue
            st.pages[p] = (Page(c[0]), c[1])
    return st.pages


def where(st, q):
    return next((l for p, l in st.tree.opened), q.last_loc())


def judge_pages(q):
    st, tree = q.st, q.st.tree
    pages = pages_of(q)
    html = text(path(st, S("data_dir"), C("html")))
    runs = wanted(st)
    gz = st.gz
    fresh = []
    pg_of = {n: page(st, S_name(st, n), st.recs[n]["run_id"], gz=gz) for n in runs}
    loc = where(st, q)
    for n in runs:
        p = pg_of[n]
        need = st.regenerate or p not in tree.before
        if need:
            fresh.append(n)
        q.require((p in pages) == need, loc, "run {}: its page is written if it is missing or --regenerate is given, and only then".format(n))
    jobs = [j for j in sorted(st.jobs) if j != "h"]
    touched = {st.spec[n][0] for n in fresh}
    for j in jobs:
        p = page(st, S("job " + j), gz=gz)
        need = st.regenerate or j in touched
        if need:
            q.require(p in pages, loc, "job {}: its page is written as it has new run pages or --regenerate is given".format(j))
        else:
            q.require(p in tree.there, loc, "job {}: there is a page the index can link to".format(j))
    idx = page(st, gz=gz)
    newjob = [j for j in jobs if page(st, S("job " + j), gz=gz) not in tree.before]
    need = bool(st.regenerate or touched or newjob)
    q.require(idx in pages or not need, loc, "the index is written as there are new pages or --regenerate is given")
    css = text(path(st, S("data_dir"), C("html"), C("darkly.min.css")))
    q.require(css in tree.there, loc, "the style sheet of the pages is there")
    ok = set(pg_of.values()) | {page(st, S("job " + j), gz=gz) for j in jobs} | {idx, css}
    extra = [p for p in pages if p not in ok]
    q.require(not extra, loc, "no other page is written: {}".format(", ".join(show(p) for p in extra)))
    gone = [p for p in tree.before if p not in tree.there] + tree.removed
    q.require(not gone, loc, "nothing is removed: {}".format(", ".join(show(p) for p in gone)))
    for p, l in tree.opened:
        q.require(show(p).startswith(show(html)), l, "nothing is written outside of html: {}".format(show(p)))
    for p in tree.made:
        q.require(show(p).startswith(show(html)), loc, "no directory is made outside of html: {}".format(show(p)))
    for p, (pg, z) in pages.items():
        q.require(z == ("gzip" if show(p).endswith(".gz") else ""), loc, "{}: compressed as its name says".format(show(p)))
    # links lead somewhere; names of jobs may contain colons
    colons = {S("job " + j) for j in jobs}
    for base, p in [([], idx)] + [([S("job " + j)], page(st, S("job " + j), gz=gz)) for j in jobs] + [([S_name(st, n), st.recs[n]["run_id"]], pg_of[n]) for n in runs]:
        if p not in pages:
            continue
        pg = pages[p][0]
        for href, _ in pg.dom.links:
            t = pg.toks(href)
            if t and isinstance(t[0], str) and re.match(r"(https?:|//|#|mailto:)", t[0]):
                continue
            d = resolve(base, t)
            there = False
            if d is not None:
                last = d[-1] if d and isinstance(d[-1], str) else ""
                f = [C(x) if isinstance(x, str) else x for x in d]
                cands = [text(path(st, S("data_dir"), C("html"), *f))]
                if last == "index.html" and gz:
                    cands.append(text(path(st, S("data_dir"), C("html"), *(f[:-1] + [C("index.html.gz")]))))
                there = any(x in tree.there for x in cands)
            text_ = " ".join(x if isinstance(x, str) else show(x) for x in t)
            q.require(there, loc, "a link of the page {} leads to a file which is there: {}".format(show(p), text_))
            v = address(t)
            q.require(v is None or v not in colons, loc, "a link of the page {} leads to a file which is there also if a name contains a colon, and could be a scheme: {}".format(show(p), text_))
    return pages, fresh, idx, pg_of, loc


def latest(st, j, good=False):
    ns = [n for n in wanted(st) if st.spec[n][0] == j and (not good or st.spec[n][2] == 0)]
    return ns[-1] if ns else None


def judge_lists(q):
    st = q.st
    pages, loc = pages_of(q), where(q.st, q)
    runs = wanted(st)
    idx = page(st, gz=st.gz)
    for j in sorted(st.jobs):
        p = page(st, S("job " + j), gz=st.gz)
        if p not in pages:
            continue
        pg = pages[p][0]
        q.require(has_val(pg, "".join(pg.dom.texts), S("job " + j)), loc, "the page of job {} shows its name".format(j))
        want = [n for n in reversed(runs) if st.spec[n][0] == j]
        ts = [t for t in pg.tables]
        q.require(len(ts) == 1, loc, "the page of job {} has a list of runs".format(j))
        if len(ts) == 1:
            run_rows(q, pg, [S("job " + j)], ts[0], want, "page of job {}".format(j), loc)
    if idx in pages:
        pg = pages[idx][0]
        kinds = {}
        for t in pg.tables:
            h = t.title.lower()
            kinds.setdefault("failed" if "fail" in h else "jobs" if "job" in h else "latest", t)
        q.require(set(kinds) == {"failed", "latest", "jobs"}, loc, "the index has lists of the failed runs, the latest runs and the jobs")
        if "latest" in kinds:
            run_rows(q, pg, [], kinds["latest"], list(reversed(runs))[:25], "latest runs", loc)
        if "failed" in kinds:
            run_rows(q, pg, [], kinds["failed"], [n for n in reversed(runs) if st.spec[n][2] != 0][:10], "failed runs", loc)
        if "jobs" in kinds:
            t = kinds["jobs"]
            rows = [r for r in t.rows if any(c.tag == "td" for c in r.cells)]
            heads = [r for r in t.rows if r.cells and all(c.tag == "th" for c in r.cells)]
            titles = [c.text for c in heads[0].cells] if heads else []
            names = []
            for row in rows:
                hit = [j for j in st.jobs if any(resolve([], pg.toks(l[0])) == [S("job " + j), "index.html"] for c in row.cells for l in c.links)]
                names.append(hit[0] if hit else None)
                if not hit:
                    continue
                j = hit[0]
                last, good = latest(st, j), latest(st, j, True)
                alltimes = [x for r in st.recs.values() if "stop_time" in r for x in times(r)]
                for title, c in zip(titles, row.cells):
                    k = column(title)
                    toks = [t for t in pg.toks(c.text) if t != "" and not (isinstance(t, str) and not t.strip())]
                    msg = "index: {} of job {}".format(title.strip().lower(), j)
                    n = good if k == "good" else last
                    if k == "job":
                        q.require(cell_is(pg, c, S("job " + j)), loc, msg)
                    elif k in ("good", "last", "duration", "stop", "start"):
                        if n is None:
                            # nothing, or something which is no time
                            q.require(not any(not isinstance(t, str) for t in toks), loc, msg + " is empty as there is none")
                            continue
                        r = st.recs[n]
                        ok = False
                        for v in ((duration(r),) if k == "duration" else (r["start_time"], r["stop_time"])):
                            ok = ok or cell_is(pg, c, v, alltimes)
                        q.require(ok, loc, "{} is that of run {}".format(msg, n))
            q.require(names == [j for j in sorted(st.jobs) if j != "h"], loc, "index: every job with reports is listed once, in order ({})".format(", ".join(map(str, names))))
            # a job whose last run failed is marked
            marks = {}
            for j, row in zip(names, rows):
                if j is not None and latest(st, j) is not None:
                    ok = st.spec[latest(st, j)][2] == 0
                    marks.setdefault(ok, set()).add(tuple(sorted((a, b or "") for a, b in row.attrs.items())))
            if len(marks) == 2:
                q.require(not (marks[True] & marks[False]), loc, "index: jobs whose last run failed are marked")


def R01(rule):
    """Which pages are written, and what they list."""
    for typ in ("sqlite3", "mongodb"):
        for gz in (False, True):
            for regen in (False, True):
                if typ == "mongodb" and gz:
                    continue

                def build(st, typ=typ, gz=gz, regen=regen):
                    scene(st, typ, gz=gz, regenerate=regen, css=True, rev=None if not regen else "?", maybe=("x0", "x1", "x2", "x5") if not regen else ("x0", "index"), there=("l", "j", "k") if not regen else ())
                    return render(st)

                def check(q):
                    if not finished(q, "rendering"):
                        return
                    judge_pages(q)
                    judge_lists(q)
                rule.scenario("reports, {}{}{}".format(typ, ", compressed" if gz else "", ", regenerate" if regen else ""), build, check, MAX_STEPS=200000, WHILE_CAP=8)

    # whatever is there of pages of jobs and of directories
    def build(st):
        scene(st, done=[d for d in DONE if d[0] in ("x1", "x2", "x0")], maybe=("x1", "l", "j", "k", "index"), there=("x0", "x2"))
        return render(st)

    def check(q):
        if finished(q, "rendering"):
            judge_pages(q)
            judge_lists(q)
    rule.scenario("reports, some are there", build, check, MAX_STEPS=200000, WHILE_CAP=8)

    def build(st):
        scene(st, done=[], running=RUNNING, maybe=("l", "j"), css="?")
        return render(st)
    rule.scenario("reports, no runs", build, check)

    def build(st):
        scene(st, jobs="h", css="?")
        return render(st)
    rule.scenario("reports, no jobs with reports", build, check)

    # the limits of the index; more runs than any number the code could limit them to
    n = max([28] + [c + 3 for c in limits(rule.w.repo) if c <= 250])
    for what, fails in (("many", lambda i: i % 2 == 0), ("few failed", lambda i: i in (0, n // 2))):
        many = [("x{:03d}".format(i), "job j" if i % 3 else "job k", 1000 * (i + 1), 1 + i if fails(i) else 0) for i in range(n)]

        def build(st, many=many):
            scene(st, done=many, running=[], jobs="kj", regenerate=True, css=True, rev=None, outputs={n: None for n, j, s, c in many}, there=[m[0] for m in many])
            return render(st)
        rule.scenario("reports, {} runs".format(what), build, check, MAX_STEPS=900000 * n // 28, WHILE_CAP=n + 12)


def limits(repo):
    """the numbers which may limit how many runs are listed"""
    out = set()
    for name, m in repo.modules.items():
        if name.endswith((".daemon", ".info", ".prometheus_exporter")):
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Constant) and isinstance(node.value, int):
                out.add(abs(node.value))
            elif isinstance(node, ast.Constant) and isinstance(node.value, str):
                out.update(int(x) for x in re.findall(r"(?i)limit\s+(\d+)", node.value))
    return out


# -- R02: what a page of a run shows ---------------------------------------------------

def R02(rule):
    """Everything shown is escaped."""
    def check(q):
        if not finished(q, "rendering"):
            return
        loc = where(q.st, q)
        for p, (pg, z) in pages_of(q).items():
            for v, escaped, w in pg.places():
                types = q.ip.types_of(v)
                harmless = (types is not None and types <= NUMERIC) or (v[0] == "app" and v[1] == "user's template")
                if v[0] == "lin" or harmless:
                    continue
                if v[0] == "top":
                    q.require(None, loc, "the page {} shows something the analysis does not follow".format(show(p)))
                    continue
                inner = v
                q.require(escaped or trusted(q, inner), loc, "{} is escaped on the page {}".format(show(v)[:80], show(p)))
                q.require(w in ("text", "value") or (w == "url start" and name_of(q.st, v)) or (w == "comment" and trusted(q, v)), loc, "{} stands where escaping protects it ({}, page {})".format(show(v)[:80], w, show(p)))

    def trusted(q, v):
        """a number or time, or a part of one"""
        return all(t == NOW or (q.ip.types_of(t) or {"?"}) <= NUMERIC for t in jinja_subterms(v) if t[0] in ("sym", "res", "top"))

    def name_of(st, v):
        return v in [S("job " + j) for j in st.jobs] or any(v in (r["run_id"], r["job_name"]) for r in st.recs.values())

    for typ in ("sqlite3", "mongodb"):
        for tdata in ((), ("type",), ("description",), ("type", "description")):
            for trig in ("schedule", "file", "other"):
                def build(st, typ=typ, tdata=tdata, trig=trig):
                    trigger_scene(st, typ, trig, tdata, ("none",))
                    return render(st)
                rule.scenario("escapes, {}, {}, {}".format(typ, trig, " and ".join(tdata) or "no data"), build, check)
                for lib in sorted(rule.w.repo.optional("dsari.render")) if typ == "sqlite3" else ():
                    rule.scenario("escapes, {}, {}, without {}".format(trig, " and ".join(tdata) or "no data", lib), build, check, absent=[lib])

    def build(st):
        scene(st, regenerate=True, css=True, rev=None)
        return render(st)
    rule.scenario("escapes, lists", build, check, MAX_STEPS=200000, WHILE_CAP=8)
    for lib in sorted(rule.w.repo.optional("dsari.render")):
        rule.scenario("escapes, lists, without {}".format(lib), build, check, MAX_STEPS=200000, WHILE_CAP=8, absent=[lib])

    # and templates of the user's
    root = rule.w.repo.root
    tdir = os.path.join(root, "dsari", "templates")
    n = 0
    for f in sorted(os.listdir(tdir)) if os.path.isdir(tdir) else ():
        if f.endswith((".html", ".htm", ".xml")):
            n += 1
    rule.count("templates", n)


def jinja_subterms(v):
    from .values import subterms
    return list(subterms(v))


def trigger_scene(st, typ, trig, keys, limits, form=""):
    ip = st.ip

    def trigger(st):
        r = st.recs["x0"]
        ip.facts.pop(("eq", C("schedule"), r["trigger_type"]), None)
        if trig == "other":
            st.trig = r["trigger_type"]
        else:
            st.trig = r["trigger_type"] = C(trig)
        st.tdata = {}
        for k in keys:
            v = S("trigger " + k)
            ip.kinds[v] = "str"
            ip.facts[("types", v)] = frozenset({"str"})
            ip.facts[("truthy", v)] = True
            st.tdata[k] = v
        if trig == "other":
            ip.facts[("eq", C("schedule"), r["trigger_type"])] = False
            ip.facts[("eq", C("file"), r["trigger_type"])] = False
        d = ip.new_dict([(C(k), v) for k, v in st.tdata.items()])
        r["trigger_data"] = d if typ == "mongodb" else app("json.dumps", d)
        ip.facts[("types", r["trigger_data"])] = frozenset({"dict"} if typ == "mongodb" else {"str"})
    conf = {}
    if limits[0] != "none":
        conf = {"report_run_output_start": C(limits[0]), "report_run_output_end": C(limits[1])}
    scene(st, typ, done=[("x0", "job j", 1000, 7)], running=[], jobs="j", css=True, outputs={"x0": form}, trigger=trigger, conf=conf)


def R03(rule):
    """The page of a run."""
    for typ in ("sqlite3", "mongodb"):
        for keys in ((), ("type",), ("description",), ("type", "description")):
            for trig in ("schedule", "file", "other"):
                for form in ("", ".gz", ".xz", None):
                    if form and (keys or trig != "file"):
                        continue

                    def build(st, typ=typ, keys=keys, trig=trig, form=form):
                        trigger_scene(st, typ, trig, keys, ("none",), form)
                        return render(st)

                    def check(q, trig=trig, keys=keys, form=form):
                        if finished(q, "rendering"):
                            judge_run(q, trig, keys, form)
                    rule.scenario("run page, {}, {}, {}, output{}".format(typ, trig, " and ".join(keys) or "no data", form if form is not None else " missing"), build, check)

    for limits in ((0, 0), (100, 0), (0, 50), (100, 50)):
        def build(st, limits=limits):
            trigger_scene(st, "sqlite3", "schedule", (), limits)
            return render(st)

        def check(q, limits=limits):
            if finished(q, "rendering"):
                judge_limits(q, limits)
        rule.scenario("run page, output limits {} and {}".format(*limits), build, check)

    # templates of the user's override those of the package
    def build(st):
        st.ip.facts[("truthy", S("template_dir"))] = True
        scene(st, done=[("x0", "job j", 1000, 7)], running=[], jobs="j", css="?", conf={"template_dir": S("template_dir")})
        return render(st)

    def check(q):
        if not finished(q, "rendering"):
            return
        st, loc = q.st, where(q.st, q)
        for p, (pg, z) in pages_of(q).items():
            own = [v for v in pg.vals.values() if v[0] == "app" and v[1] == "user's template"]
            name = "darkly.min.css" if "darkly" in show(p) else "run.html" if mentions(p, st.recs["x0"]["run_id"]) else "job.html" if mentions(p, S("job j")) else "index.html"
            key = ("user's template", name)
            if key not in q.ip.data:
                q.require(False, loc, "template_dir is searched for {}".format(name))
                continue
            if q.ip.data[key]:
                q.require([v[2] for v in own] == [C(name)], loc, "the user's template {} is used".format(name))
            else:
                q.require(not own and len(pg.src) > 20, loc, "the package's template {} is used if the user has none".format(name))
    rule.scenario("template_dir", build, check, min_paths=2)


def only_shown(q, pg):
    return [t for s in pg.dom.texts for t in pg.toks(s) if not isinstance(t, str)]


def judge_run(q, trig, keys, form):
    st, loc = q.st, where(q.st, q)
    r = st.recs["x0"]
    pages = pages_of(q)
    p = page(st, r["job_name"], r["run_id"])
    q.require(p in pages, loc, "the page of a run is written")
    if p not in pages:
        return
    pg = pages[p][0]
    vals = {"id": r["run_id"], "start": r["start_time"], "stop": r["stop_time"], "duration": duration(r), "code": C(7)}
    rows = [x for t in pg.tables for x in t.rows if len(x.cells) == 2]
    texts = "\n".join(pg.dom.texts)
    for k, v in vals.items():
        for x in rows:
            if column(x.cells[0].text) == k:
                q.require(cell_is(pg, x.cells[1], v, times(r)), loc, "the page of a run shows the run's own {}".format(x.cells[0].text.strip().lower()))
        q.require(any(cell_is(pg, x.cells[1], v, times(r)) for x in rows), loc, "the page of a run shows its {}".format({"stop": "end", "code": "exit code"}.get(k, k)))
    q.require(has_val(pg, texts, r["job_name"]), loc, "the page of a run shows the name of its job")
    cells = [x.cells[1] for x in rows if column(x.cells[0].text) == "trigger"]
    q.require(len(cells) == 1, loc, "the page of a run shows how it was triggered")
    for c in cells[:1]:
        q.require(has_val(pg, c.text, r["schedule_time"], times(r)), loc, "the page of a run shows its scheduled time")
        if trig == "file" and "type" in keys:
            q.require(has_val(pg, c.text, st.tdata["type"]), loc, "a run which was triggered by a file shows the type given in it")
        elif trig == "other":
            q.require(has_val(pg, c.text, st.trig), loc, "the page of a run shows its trigger")
        else:
            q.require(trig in c.text.lower(), loc, "the page of a run shows its trigger ({})".format(trig))
    shown = has_val(pg, texts, S("trigger description"))
    q.require(shown == ("description" in keys), loc, "the page of a run shows the description given by its trigger")
    # the output, all of it and nothing else
    pre = [s for s in pg.dom.pre]
    q.require(len(pre) == 1, loc, "the page of a run has its output")
    if len(pre) == 1:
        ts = pg.toks(pre[0])
        if form is None:
            q.require(not [t for t in ts if not isinstance(t, str)] and not "".join(t for t in ts if isinstance(t, str)).strip(), loc, "the page of a run whose output is missing shows none (not {})".format(" ".join(map(str, ts))))
        elif not ts and blank(q):
            pass
        else:
            ok = len(ts) == 1 and not isinstance(ts[0], str) and mentions(ts[0], S("output of x0")) and not any(t[0] == "app" and t[1] == "slice" for t in jinja_subterms(ts[0]))
            q.require(ok, loc, "the page of a run shows its output")
            if ok:
                q.require(not any(distorted(t) for t in jinja_subterms(ts[0])), loc, "the page of a run shows all of its output, whatever its bytes are")
                z = [t[3] for t in jinja_subterms(ts[0]) if t[0] == "app" and t[1] == "read"]
                kind = "gzip" if C("gzip") in z else "lzma" if "lzma" in repr(ts[0]).lower() else ""
                q.require(kind == {"": "", ".gz": "gzip", ".xz": "lzma"}[form], loc, "the page of a run shows its output, uncompressed")


def blank(q):
    """the output of x0 is empty on this path"""
    return any(k[0] == "truthy" and v is False and mentions(k[1], S("output of x0")) for k, v in q.ip.facts.items() if isinstance(k, tuple) and len(k) == 2)


def from_end(v, ln):
    """a position; negative if it is counted from the end"""
    if is_const(v):
        return v[2]
    d = lin_add(v, ln, -1)
    return cval(d) or None if is_num(d) else v


def judge_limits(q, limits):
    """which part of the output is shown"""
    st, loc = q.st, where(q.st, q)
    r = st.recs["x0"]
    p = page(st, r["job_name"], r["run_id"])
    pg = pages_of(q).get(p)
    q.require(pg is not None, loc, "the page of a run is written")
    if pg is None:
        return
    pg = pg[0]
    ts = pg.toks(pg.dom.pre[0]) if pg.dom.pre else []
    vs = [t for t in ts if not isinstance(t, str)]
    cuts = [(t[3], t[4]) for v in vs for t in jinja_subterms(v) if t[0] == "app" and t[1] == "slice"]
    full = [v for v in vs if not any(t[0] == "app" and t[1] == "slice" for t in jinja_subterms(v))]
    if not vs and blank(q):
        return
    q.require(all(mentions(v, S("output of x0")) for v in vs) and bool(vs), loc, "the page of a run shows its own output")
    a, b = limits
    base = next((t[2] for v in vs for t in jinja_subterms(v) if t[0] == "app" and t[1] == "slice"), full[0] if full else None)
    if base is None:
        return
    ln = app("len", base)
    cut = bool(cuts)
    if (a, b) == (0, 0):
        q.require(not cut and len(full) == 1, loc, "without limits the whole output is shown")
        return
    if not cut:
        q.require(len(full) == 1, loc, "the output is shown once")
        q.require(q.ip.cmp_known("<=", ln, C(a + b)) is True, loc, "an output longer than the limits is cut")
    else:
        want = []
        if a:
            want.append((None, a))
        if b:
            want.append((-b, None))
        got = []
        for x, y in cuts:
            if x == ln:
                continue  # nothing
            x, y = (None if v == NONE else from_end(v, ln) for v in (x, y))
            if y != 0:
                got.append((None if x == 0 else x, y))
        q.require(got == want and not full, loc, "of a long output the first {} and the last {} characters are shown".format(a, b))
        q.require(any(isinstance(t, str) and t.strip() for t in ts), loc, "what was left out is marked")
        q.require(q.ip.cmp_known(">", ln, C(a + b)) is True, loc, "an output within the limits is shown as it is")


# -- R04: no partial pages -----------------------------------------------------------

def R04(rule):
    """A page which is there is complete."""
    for gz in (False, True):
        def build(st, gz=gz):
            scene(st, gz=gz, maybe=("x0",), there=("x5",), css="?", rev=None)
            return render(st)

        def check(q):
            if not finished(q, "rendering"):
                return
            st, tree = q.st, q.st.tree
            final = {p for p in tree.there}
            for p, l in tree.opened:
                q.require(p not in final, l, "{} is complete before it gets its name".format(show(p)))
                q.require(not any(x == p for x in tree.before), l, "no page is overwritten in place")
            for p, (kind, d) in tree.there.items():
                q.require(kind != "partial", where(st, q), "{} is closed before it gets its name".format(show(p)))
                if kind == "new":
                    q.require(len(d) > 0, where(st, q), "{} has content".format(show(p)))
            # a temporary name is not one another program writes to
            for p, l in tree.opened:
                q.require(any(t[0] in ("res", "app", "sym") and ("pid" in show(t) or "temp" in show(t) or "uuid" in show(t) or "time" in show(t)) for t in jinja_subterms(p)), l, "the temporary name is the program's own")
        rule.scenario("pages appear complete{}".format(", compressed" if gz else ""), build, check, MAX_STEPS=200000, WHILE_CAP=8)


# -- R05: what is installed ----------------------------------------------------------

def R05(rule):
    """The templates the program loads are installed with it."""
    root = rule.w.repo.root
    try:
        with open(os.path.join(root, "setup.py"), encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError) as e:
        rule.require(None, "setup.py", "setup.py not understood: {}".format(e))
        return
    data = scripts = None
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg in ("package_data", "entry_points"):
            try:
                v = ast.literal_eval(n.value)
            except ValueError:
                rule.require(None, "setup.py:{}".format(n.value.lineno), n.arg + " not understood")
                return
            if n.arg == "package_data":
                data = (v, n.value.lineno)
            else:
                scripts = (v, n.value.lineno)
    names = set()

    def build(st):
        scene(st, regenerate=True, done=DONE[:1], css=False, rev=None)
        r = render(st)
        return r

    def check(q):
        if not finished(q, "rendering"):
            return
        for n, ctx, v in q.st.rendered:
            names.add(n)
    rule.scenario("templates used", build, check)
    for n in sorted(names):
        globs = data[0].get("dsari", []) + data[0].get("", []) if data else []
        ok = any(fnmatch.fnmatch("templates/" + n, g) for g in globs)
        rule.require(ok, "setup.py:{}".format(data[1] if data else "?"), "the template {} is installed with the package".format(n), key="package_data lacks templates/" + n)
        rule.require(os.path.isfile(os.path.join(root, "dsari", "templates", n)), "dsari/templates", "the template {} is there".format(n))
    for s in (scripts[0].get("console_scripts", []) if scripts else []):
        n, _, t = s.partition("=")
        r = rule.w.repo.resolve_dotted(t.strip().replace(":", "."))
        rule.require(bool(r), "setup.py:{}".format(scripts[1]), "the program {} starts something which exists".format(n.strip()))


RULES = {"R01": R01, "R02": R02, "R03": R03, "R04": R04, "R05": R05}
