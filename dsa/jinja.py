"""Templates (Jinja2): parsed from the source and evaluated on abstract values.

What a template prints is a string value; a value it prints appears in it as
html.escape(v) where it is escaped and as v where it is not."""
import os
import re

from .interp import OInst, ODict, PyExc, Stop
from .values import *  # noqa: F401,F403
from .values import C, S, app, NONE, TRUE, FALSE


class Undefined:
    def __bool__(self):
        return False

    def __str__(self):
        return ""

    def __eq__(self, o):
        return isinstance(o, Undefined)

    def __ne__(self, o):
        return not isinstance(o, Undefined)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "undefined"

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())


UNDEF = ("const", "Undefined", Undefined())


class Node:
    def __init__(self, kind, lineno, **kw):
        self.kind, self.lineno = kind, lineno
        self.__dict__.update(kw)


class TemplateError(Exception):
    pass


# -- parsing ---------------------------------------------------------------------

TAG = re.compile(r"\{\{|\{%|\{#")
TOKEN = re.compile(
    r"\s*(?:(?P<num>\d+(?:\.\d+)?)|(?P<name>[A-Za-z_]\w*)|(?P<str>'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\")|"
    r"(?P<op>==|!=|<=|>=|//|\*\*|[-+*/%~|.,:()\[\]{}<>=]))"
)


def chunks(src):
    """('text'|'expr'|'stmt', content, line)"""
    out, i, line, trim = [], 0, 1, False
    raw = None
    while True:
        m = TAG.search(src, i)
        text = src[i:m.start() if m else len(src)]
        start = line
        line += text.count("\n")
        t = text
        if trim:
            t = t.lstrip()
        if m is None:
            if t.endswith("\n"):
                t = t[:-1]
            if t:
                out.append(("text", t, start))
            return out
        end = {"{{": "}}", "{%": "%}", "{#": "#}"}[m.group()]
        j = m.end()
        if end == "#}":
            k = src.find(end, j)
        else:
            k = j
            while True:
                k = re.compile(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|" + re.escape(end)).search(src, k)
                if k is None:
                    k = -1
                    break
                if k.group() == end:
                    k = k.start()
                    break
                k = k.end()
        if k < 0:
            raise TemplateError("line {}: no {}".format(line, end))
        body = src[j:k]
        if body[:1] in "-+" and body:
            if body[0] == "-":
                t = t.rstrip()
            body = body[1:]
        trim = False
        if body[-1:] == "-":
            trim = True
            body = body[:-1]
        elif body[-1:] == "+":
            body = body[:-1]
        if t:
            out.append(("text", t, start))
        at = line
        line += src[m.start():k + 2].count("\n")
        i = k + 2
        if end == "%}" and body.strip() == "raw":
            r = re.compile(r"\{%[-+]?\s*endraw\s*[-+]?%\}").search(src, i)
            if r is None:
                raise TemplateError("no endraw")
            out.append(("text", src[i:r.start()], line))
            line += src[i:r.end()].count("\n")
            i = r.end()
            continue
        if end == "}}":
            out.append(("expr", body, at))
        elif end == "%}":
            out.append(("stmt", body.strip(), at))
    return out


def tokens(s, line):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise TemplateError("line {}: {}".format(line, s[i:]))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Expr:
    """expressions, as tuples"""

    def __init__(self, s, line):
        self.t, self.i, self.line = tokens(s, line), 0, line

    def peek(self, *vals):
        if self.i < len(self.t) and self.t[self.i][0] != "str" and self.t[self.i][1] in vals:
            return self.t[self.i][1]
        return None

    def take(self, *vals):
        v = self.peek(*vals)
        if v is not None:
            self.i += 1
        return v

    def need(self, v):
        if self.take(v) is None:
            raise TemplateError("line {}: {} expected".format(self.line, v))

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] == "name":
            self.i += 1
            return self.t[self.i - 1][1]
        raise TemplateError("line {}: name expected".format(self.line))

    def done(self):
        return self.i >= len(self.t)

    def tuple_(self, cond=True):
        f = self.expr if cond else self.or_
        e = f()
        if self.peek(","):
            items = [e]
            while self.take(","):
                if self.done() or self.peek(")", "="):
                    break
                items.append(f())
            return ("tuple", items)
        return e

    def expr(self):
        e = self.or_()
        while self.take("if"):
            c = self.or_()
            e2 = self.expr() if self.take("else") else ("undef",)
            e = ("cond", c, e, e2)
        return e

    def or_(self):
        e = self.and_()
        while self.take("or"):
            e = ("or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.take("and"):
            e = ("and", e, self.not_())
        return e

    def not_(self):
        if self.take("not"):
            return ("not", self.not_())
        return self.compare()

    def compare(self):
        e = self.math1()
        ops = []
        while True:
            o = self.take("==", "!=", "<", ">", "<=", ">=", "in")
            if o is None and self.peek("not") and self.i + 1 < len(self.t) and self.t[self.i + 1][1] == "in":
                self.i += 2
                o = "not in"
            if o is None:
                break
            ops.append((o, self.math1()))
        return ("cmp", e, ops) if ops else e

    def math1(self):
        e = self.concat()
        while True:
            o = self.take("+", "-")
            if o is None:
                return e
            e = ("bin", o, e, self.concat())

    def concat(self):
        e = self.math2()
        if not self.peek("~"):
            return e
        items = [e]
        while self.take("~"):
            items.append(self.math2())
        return ("concat", items)

    def math2(self):
        e = self.unary()
        while True:
            o = self.take("*", "/", "//", "%")
            if o is None:
                return e
            e = ("bin", o, e, self.unary())

    def unary(self):
        if self.take("-"):
            return ("neg", self.unary())
        if self.take("+"):
            return self.unary()
        return self.filters(self.postfix(self.primary()))

    def primary(self):
        if self.done():
            raise TemplateError("line {}: expression expected".format(self.line))
        k, v = self.t[self.i]
        self.i += 1
        if k == "num":
            return ("const", C(float(v) if "." in v else int(v)))
        if k == "str":
            s = eval(v)  # a literal  # noqa: S307
            while self.i < len(self.t) and self.t[self.i][0] == "str":
                s += eval(self.t[self.i][1])  # noqa: S307
                self.i += 1
            return ("const", C(s))
        if k == "name":
            if v in ("true", "True", "false", "False", "none", "None"):
                return ("const", C({"true": True, "false": False, "none": None}[v.lower()]))
            return ("name", v)
        if v == "(":
            if self.take(")"):
                return ("tuple", [])
            e = self.tuple_()
            self.need(")")
            return e
        if v == "[":
            items = []
            while not self.take("]"):
                items.append(self.expr())
                if not self.peek("]"):
                    self.need(",")
            return ("list", items)
        if v == "{":
            items = []
            while not self.take("}"):
                a = self.expr()
                self.need(":")
                items.append((a, self.expr()))
                if not self.peek("}"):
                    self.need(",")
            return ("dict", items)
        raise TemplateError("line {}: {}".format(self.line, v))

    def args(self):
        a, kw = [], {}
        while not self.take(")"):
            if self.i + 1 < len(self.t) and self.t[self.i][0] == "name" and self.t[self.i + 1] == ("op", "="):
                n = self.name()
                self.need("=")
                kw[n] = self.expr()
            else:
                a.append(self.expr())
            if not self.peek(")"):
                self.need(",")
        return a, kw

    def postfix(self, e):
        while True:
            if self.take("."):
                k, v = self.t[self.i]
                self.i += 1
                e = ("attr", e, v) if k == "name" else ("item", e, ("const", C(int(v))))
            elif self.take("["):
                parts, cur = [], None
                if self.peek(":"):
                    cur = None
                else:
                    cur = self.expr()
                if self.take("]"):
                    e = ("item", e, cur)
                else:
                    parts = [cur]
                    while self.take(":"):
                        parts.append(None if self.peek(":", "]") else self.expr())
                    self.need("]")
                    e = ("slice", e, parts)
            elif self.take("("):
                a, kw = self.args()
                e = ("call", e, a, kw)
            else:
                return e

    def filters(self, e):
        while True:
            if self.take("|"):
                n = self.name()
                while self.take("."):
                    n += "." + self.name()
                a, kw = self.args() if self.take("(") else ([], {})
                e = ("filter", e, n, a, kw)
            elif self.take("is"):
                neg = self.take("not") is not None
                n = self.name()
                a = []
                if self.take("("):
                    a, _ = self.args()
                elif not self.done() and (self.t[self.i][0] in ("num", "str") or (self.t[self.i][0] == "name" and self.t[self.i][1] not in ("and", "or", "if", "else", "is", "not", "in"))):
                    a = [self.postfix(self.primary())]
                e = ("test", e, n, a)
                if neg:
                    e = ("not", e)
            else:
                return e


class Parser:
    def __init__(self, src):
        self.c, self.i = chunks(src), 0
        self.blocks = {}
        self.extends = None

    def body(self, *ends):
        out = []
        while self.i < len(self.c):
            k, s, line = self.c[self.i]
            self.i += 1
            if k == "text":
                out.append(Node("text", line, s=s))
            elif k == "expr":
                out.append(Node("out", line, e=self.one(s, line)))
            else:
                m = re.match(r"[A-Za-z_]\w*", s)
                w = m.group() if m else ""
                if w in ends:
                    return out, w, s[len(w):], line
                out.append(self.stmt(w, s[len(w):], line))
        if ends:
            raise TemplateError("{} expected".format(" or ".join(ends)))
        return out, None, None, None

    def one(self, s, line):
        x = Expr(s, line)
        e = x.tuple_()
        if not x.done():
            raise TemplateError("line {}: {}".format(line, s))
        return e

    def stmt(self, w, rest, line):
        if w == "for":
            x = Expr(rest, line)
            target = self.target(x)
            x.need("in")
            it = x.tuple_(cond=False)
            cond = x.or_() if x.take("if") else None
            if not x.done():
                raise TemplateError("line {}: for{}".format(line, rest))
            body, end, _, _ = self.body("else", "endfor")
            other = []
            if end == "else":
                other, _, _, _ = self.body("endfor")
            return Node("for", line, target=target, it=it, cond=cond, body=body, other=other)
        if w == "if":
            arms = []
            test = self.one(rest, line)
            while True:
                body, end, r, l = self.body("elif", "else", "endif")
                arms.append((test, body, line))
                if end == "elif":
                    test, line = self.one(r, l), l
                    continue
                other = []
                if end == "else":
                    other, _, _, _ = self.body("endif")
                return Node("if", line, arms=arms, other=other)
        if w == "set":
            x = Expr(rest, line)
            target = self.target(x)
            if x.done():
                body, _, _, _ = self.body("endset")
                return Node("setblock", line, target=target, body=body)
            x.need("=")
            e = x.tuple_()
            return Node("set", line, target=target, e=e)
        if w == "with":
            x = Expr(rest, line)
            pairs = []
            while not x.done():
                t = self.target(x)
                x.need("=")
                pairs.append((t, x.expr()))
                x.take(",")
            body, _, _, _ = self.body("endwith")
            return Node("with", line, pairs=pairs, body=body)
        if w == "autoescape":
            e = self.one(rest, line)
            body, _, _, _ = self.body("endautoescape")
            return Node("autoescape", line, e=e, body=body)
        if w == "filter":
            x = Expr("x |" + rest, line)
            e = x.expr()
            body, _, _, _ = self.body("endfilter")
            return Node("filter", line, e=e, body=body)
        if w == "block":
            n = rest.split()[0]
            body, _, _, _ = self.body("endblock")
            self.blocks[n] = body
            return Node("block", line, name=n, body=body)
        if w == "extends":
            self.extends = self.one(rest, line)
            return Node("extends", line)
        if w == "include":
            r = re.match(r"(.*?)(\s+ignore missing)?(\s+with(out)? context)?\s*$", rest)
            return Node("include", line, e=self.one(r.group(1), line), missing=bool(r.group(2)))
        if w == "macro":
            x = Expr(rest, line)
            n = x.name()
            x.need("(")
            ps = []
            while not x.take(")"):
                p = x.name()
                ps.append((p, x.expr() if x.take("=") else None))
                if not x.peek(")"):
                    x.need(",")
            body, _, _, _ = self.body("endmacro")
            return Node("macro", line, name=n, params=ps, body=body)
        if w == "import":
            m = re.match(r"(.*)\s+as\s+(\w+)(\s+with(out)? context)?\s*$", rest)
            return Node("import", line, e=self.one(m.group(1), line), name=m.group(2))
        if w == "from":
            m = re.match(r"(.*)\s+import\s+(.*?)(\s+with(out)? context)?\s*$", rest)
            names = []
            for p in m.group(2).split(","):
                q = p.split()
                names.append((q[0], q[-1]))
            return Node("from", line, e=self.one(m.group(1), line), names=names)
        raise TemplateError("line {}: {} {}".format(line, w, rest))

    def target(self, x):
        names = [x.name()]
        while x.take("."):
            names[-1] += "." + x.name()
        many = False
        while x.take(","):
            many = True
            names.append(x.name())
        return names if many else names[0]


class Template:
    def __init__(self, path, src):
        self.path = path
        p = Parser(src) if ("{{" in src or "{%" in src or "{#" in src) else None
        if p is None:
            self.nodes, self.blocks, self.extends = [Node("text", 1, s=src)], {}, None
        else:
            self.nodes = p.body()[0]
            self.blocks, self.extends = p.blocks, p.extends


# -- evaluation --------------------------------------------------------------------

def esc(s):
    return s.replace("&", "&amp;").replace(">", "&gt;").replace("<", "&lt;").replace("'", "&#39;").replace('"', "&#34;")


def escape(v):
    """the value of str(v), escaped"""
    if is_const(v):
        return C(esc(str(v[2])))
    if v[0] == "app" and v[1] == "Markup":
        return v[2]
    if v[0] == "str":
        return make_str([escape(p) for p in v[1]])
    return ("str", (app("html.escape", v),))


def plain(v):
    if is_const(v):
        return C(str(v[2]))
    if v[0] == "app" and v[1] == "Markup":
        return v[2]
    if v[0] == "str":
        return make_str([plain(p) for p in v[1]])
    return ("str", (v,))


class Mod:
    def __init__(self, path):
        self.path, self.name = path, path


class Fr:
    func = None

    def __init__(self, path):
        self.module = Mod(path)


class Scope:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def get(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        return None


class Env:
    """A jinja2.Environment."""

    def __init__(self, ip, args, kw):
        self.ip, self.kw = ip, kw
        self.autoescape = kw.get("autoescape", FALSE)
        self.loader = kw.get("loader", NONE)
        self.globals = ip.new_dict()
        self.filters = ip.new_dict()
        self.tests = ip.new_dict()
        self.strict = "StrictUndefined" in show(kw.get("undefined", NONE))

    def escapes(self, name):
        a, ip = self.autoescape, self.ip
        if is_const(a):
            return bool(a[2])
        if a[0] == "app" and a[1] == "select_autoescape":
            on, default = a[2], a[4]
            n = name.lower()
            if any(n.endswith("." + x.lstrip(".").lower()) for x in on[2]):
                return True
            if any(n.endswith("." + x.lstrip(".").lower()) for x in a[3][2]):
                return False
            return bool(default[2])
        return ip.truth(ip.call(a, [C(name)], {}))


def select_autoescape(ip, a, k):
    names = ("enabled_extensions", "disabled_extensions", "default_for_string", "default")
    d = dict(zip(names, a))
    d.update(k)

    def seq(n, default):
        if n not in d:
            return C(default)
        return C(tuple(cval(x) for x in ip.each(d[n])))
    return app("select_autoescape", seq("enabled_extensions", ("html", "htm", "xml")), seq("disabled_extensions", ()), d.get("default", FALSE))


class Renderer:
    """Evaluates one template."""

    def __init__(self, env, load, name, context):
        self.env, self.ip, self.load = env, env.ip, load
        self.name = name
        self.root = Scope()
        self.root.vars.update(context)

    def run(self):
        out = []
        self.template(self.name, self.root, out)
        return make_str(out)

    def template(self, name, scope, out, blocks=None):
        t = self.load(name)
        if t[0] == "value":
            out.append(t[1])
            return
        t = t[1]
        self.auto = self.env.escapes(name)
        self.fr = Fr(t.path)
        if t.extends is not None:
            # what stands outside of blocks is not printed
            self.body([n for n in t.nodes if n.kind in ("set", "setblock", "macro", "import", "from")], scope, [])
            b = dict(t.blocks)
            b.update(blocks or {})
            base = self.ev(t.extends, scope)
            if not is_const(base):
                raise Stop("the name of a template is not constant")
            old = self.fr, self.auto
            self.template(base[2], scope, out, {k: (v if isinstance(v, tuple) else (self.fr, self.auto, v)) for k, v in b.items()})
            self.fr, self.auto = old
            return
        old, self.blocks = getattr(self, "blocks", {}), blocks or {}
        self.body(t.nodes, scope, out)
        self.blocks = old

    def body(self, nodes, scope, out):
        for n in nodes:
            self.ip.stack.append((self.fr, n))
            try:
                self.node(n, scope, out)
            finally:
                self.ip.stack.pop()

    def put(self, v, out):
        ip = self.ip
        v = ip.force(v)
        if v[0] == "top":
            out.append(v)
            return
        o = ip.deref(v)
        if o is not None:
            v = app("str", v)
        out.append(escape(v) if self.auto else plain(v))

    def node(self, n, scope, out):
        ip = self.ip
        k = n.kind
        if k == "text":
            out.append(C(n.s))
        elif k == "out":
            self.put(self.ev(n.e, scope), out)
        elif k == "if":
            for test, body, line in n.arms:
                if self.truth(self.ev(test, scope)):
                    self.body(body, scope, out)
                    return
            self.body(n.other, scope, out)
        elif k == "for":
            self.for_(n, scope, out)
        elif k == "set":
            self.bind(n.target, self.ev(n.e, scope), scope)
        elif k == "setblock":
            o = []
            self.body(n.body, Scope(scope), o)
            v = make_str(o)
            self.bind(n.target, app("Markup", v) if self.auto else v, scope)
        elif k == "with":
            s = Scope(scope)
            for t, e in n.pairs:
                self.bind(t, self.ev(e, scope), s)
            self.body(n.body, s, out)
        elif k == "autoescape":
            old, self.auto = self.auto, self.truth(self.ev(n.e, scope))
            self.body(n.body, Scope(scope), out)
            self.auto = old
        elif k == "filter":
            o = []
            self.body(n.body, Scope(scope), o)
            v = make_str(o)
            s = Scope(scope)
            s.vars["x"] = app("Markup", v) if self.auto else v
            self.put(self.ev(n.e, s), out)
        elif k == "block":
            b = self.blocks.get(n.name)
            if b is None:
                self.body(n.body, Scope(scope), out)
            else:
                old = self.fr, self.auto
                self.fr, self.auto, body = b
                self.body(body, Scope(scope), out)
                self.fr, self.auto = old
        elif k == "include":
            v = self.ev(n.e, scope)
            if not is_const(v):
                raise Stop("the name of a template is not constant")
            old = self.fr, self.auto
            try:
                self.template(v[2], Scope(scope), out)
            except PyExc as e:
                if not (n.missing and "TemplateNotFound" in str(ip.deref(e.val).cls)):
                    raise
            self.fr, self.auto = old
        elif k == "macro":
            scope.vars[n.name] = self.macro(n, scope)
        elif k in ("import", "from"):
            v = self.ev(n.e, scope)
            if not is_const(v):
                raise Stop("the name of a template is not constant")
            old = self.fr, self.auto
            s = Scope(scope)
            self.template(v[2], s, [])
            self.fr, self.auto = old
            if k == "import":
                scope.vars[n.name] = ip.alloc(OInst(("ext", "jinja2.Module"), dict(s.vars)))
            else:
                for a, b in n.names:
                    scope.vars[b] = s.vars.get(a, UNDEF)

    def macro(self, n, scope):
        fr, auto = self.fr, self.auto
        name = "jinja macro {} {}".format(n.name, id(n))

        def call(ip, a, kw):
            s = Scope(scope)
            for i, (p, d) in enumerate(n.params):
                if i < len(a):
                    s.vars[p] = a[i]
                elif p in kw:
                    s.vars[p] = kw[p]
                else:
                    s.vars[p] = self.ev(d, scope) if d is not None else UNDEF
            old = self.fr, self.auto
            self.fr, self.auto = fr, auto
            o = []
            self.body(n.body, s, o)
            self.fr, self.auto = old
            v = make_str(o)
            return app("Markup", v) if auto else v
        self.ip.ext_overrides[name] = call
        return ("ext", name)

    def bind(self, target, v, scope):
        if isinstance(target, list):
            items = self.ip.each(v)
            if len(items) != len(target):
                self.ip.throw("ValueError", "values to unpack")
            for t, x in zip(target, items):
                scope.vars[t] = x
        elif "." in target:
            ns, a = target.split(".", 1)
            o = self.ip.deref(scope.get(ns) or NONE)
            if o is None or o.kind != "inst":
                raise Stop("template: " + target)
            o.attrs[a] = v
        else:
            scope.vars[target] = v

    def for_(self, n, scope, out):
        ip = self.ip
        v = ip.force(self.ev(n.it, scope))
        if v == UNDEF:
            items = []
        else:
            items = list(ip.each(v))
        if n.cond is not None:
            kept = []
            for x in items:
                s = Scope(scope)
                self.bind(n.target, x, s)
                if self.truth(self.ev(n.cond, s)):
                    kept.append(x)
            items = kept
        for i, x in enumerate(items):
            s = Scope(scope)
            self.bind(n.target, x, s)
            s.vars["loop"] = ip.alloc(OInst(("ext", "jinja2.Loop"), {
                "index": C(i + 1), "index0": C(i), "revindex": C(len(items) - i), "first": C(i == 0), "last": C(i == len(items) - 1), "length": C(len(items)),
            }))
            self.body(n.body, s, out)
        if not items:
            self.body(n.other, scope, out)

    # expressions

    def truth(self, v):
        if v[0] == "app" and v[1] == "Markup":
            v = v[2]
        return self.ip.truth(v)

    def undefined(self, what):
        self.ip.throw("jinja2.exceptions.UndefinedError", what)

    def attr(self, b, name, item=False):
        ip = self.ip
        b = ip.force(b)
        if b == UNDEF:
            self.undefined("undefined has no attribute " + name)
        if b[0] == "app" and b[1] == "Markup":
            return ("meth", b, name)
        o = ip.deref(b)
        if o is not None and o.kind == "dict":
            if not item and hasattr(dict, name):
                return ("meth", b, name)
            return self.item(b, C(name))
        if o is not None and o.kind == "inst":
            try:
                return ip.force(ip.getattr_(b, name))
            except PyExc as e:
                if not ip.exc_matches(e.val, ("bi", "AttributeError")):
                    raise
                return UNDEF
        if is_const(b):
            return ("meth", b, name) if hasattr(b[2], name) else UNDEF
        if o is not None:
            return ("meth", b, name) if hasattr(list, name) else UNDEF
        t = ip.types_of(b)
        if t:
            import datetime
            cls = {"str": str, "int": int, "float": float, "datetime": datetime.datetime, "timedelta": datetime.timedelta, "NoneType": type(None), "dict": dict, "list": list, "bool": bool}
            if all(x in cls and not hasattr(cls[x], name) for x in t) and "dict" not in t:
                return UNDEF
        return ip.getattr_(b, name)

    def item(self, b, k):
        ip = self.ip
        b = ip.force(b)
        if b == UNDEF:
            self.undefined("undefined has no item")
        try:
            return ip.getitem(b, k)
        except PyExc as e:
            if any(ip.exc_matches(e.val, ("bi", x)) for x in ("KeyError", "IndexError", "TypeError", "AttributeError", "LookupError")):
                if is_const(k) and isinstance(k[2], str):
                    o = ip.deref(b)
                    if o is not None and o.kind == "inst":
                        return self.attr(b, k[2])
                return UNDEF
            raise

    def ev(self, e, scope):
        ip = self.ip
        k = e[0]
        if k == "const":
            return e[1]
        if k == "undef":
            return UNDEF
        if k == "name":
            v = scope.get(e[1])
            if v is not None:
                return v
            g = ip.deref(self.env.globals)
            i = ip.dict_find(g, C(e[1]))
            if i is not None:
                return i
            if e[1] == "range":
                return ("bi", "range")
            if e[1] == "dict":
                return ("bi", "dict")
            if e[1] == "namespace":
                name = "jinja namespace"
                ip.ext_overrides[name] = lambda ip, a, kw: ip.alloc(OInst(("ext", "jinja2.Namespace"), dict(kw)))
                return ("ext", name)
            if self.env.strict:
                return UNDEF
            return UNDEF
        if k == "tuple":
            return ("tuple", tuple(self.ev(x, scope) for x in e[1]))
        if k == "list":
            return ip.new_list([self.ev(x, scope) for x in e[1]])
        if k == "dict":
            return ip.new_dict([(self.ev(a, scope), self.ev(b, scope)) for a, b in e[1]])
        if k == "attr":
            return self.attr(self.ev(e[1], scope), e[2])
        if k == "item":
            return self.item(self.ev(e[1], scope), self.ev(e[2], scope))
        if k == "slice":
            ps = [None if p is None else self.ev(p, scope) for p in e[2]]
            ps += [None] * (3 - len(ps))
            b = ip.force(self.ev(e[1], scope))
            return ip.getslice(b, app("slice", *[NONE if p is None else p for p in ps]))
        if k == "call":
            f = self.ev(e[1], scope)
            if f == UNDEF:
                self.undefined("is undefined")
            a = [self.ev(x, scope) for x in e[2]]
            kw = {n: self.ev(x, scope) for n, x in e[3].items()}
            return ip.call(f, a, kw)
        if k == "cond":
            return self.ev(e[2], scope) if self.truth(self.ev(e[1], scope)) else self.ev(e[3], scope)
        if k == "or":
            a = self.ev(e[1], scope)
            return a if self.truth(a) else self.ev(e[2], scope)
        if k == "and":
            a = self.ev(e[1], scope)
            return self.ev(e[2], scope) if self.truth(a) else a
        if k == "not":
            return FALSE if self.truth(self.ev(e[1], scope)) else TRUE
        if k == "cmp":
            a = ip.force(self.ev(e[1], scope))
            for op, x in e[2]:
                b = ip.force(self.ev(x, scope))
                if UNDEF in (a, b) and op in ("==", "!="):
                    r = (a == b) == (op == "==")
                else:
                    r = ip.compare_vals(op, a, b)
                if not r:
                    return FALSE
                a = b
            return TRUE
        if k == "bin":
            a, b = ip.force(self.ev(e[2], scope)), ip.force(self.ev(e[3], scope))
            if UNDEF in (a, b):
                self.undefined("is undefined")
            return ip.binop(e[1], a, b)
        if k == "neg":
            return lin_scale(self.ev(e[1], scope), -1)
        if k == "concat":
            vs = [self.ev(x, scope) for x in e[1]]
            if self.auto:
                return app("Markup", make_str([escape(v) for v in vs]))
            return make_str([plain(v) for v in vs])
        if k == "test":
            return C(self.test(self.ev(e[1], scope), e[2], [self.ev(x, scope) for x in e[3]]))
        if k == "filter":
            return self.filter(self.ev(e[1], scope), e[2], [self.ev(x, scope) for x in e[3]], {n: self.ev(x, scope) for n, x in e[4].items()})
        raise Stop("template expression " + k)

    def test(self, v, n, a):
        ip = self.ip
        v = ip.force(v)
        if n == "defined":
            return v != UNDEF
        if n == "undefined":
            return v == UNDEF
        if n == "none":
            return False if v == UNDEF else ip.truth(C(v[2] is None) if is_const(v) else C(bool(ip.eq(v, NONE))))
        if n in ("eq", "equalto", "sameas", "ne", "lt", "gt", "le", "ge", "lessthan", "greaterthan", "in"):
            if n == "in":
                return ip.contains(a[0], v)
            op = {"eq": "==", "equalto": "==", "sameas": "==", "ne": "!=", "lt": "<", "lessthan": "<", "gt": ">", "greaterthan": ">", "le": "<=", "ge": ">="}[n]
            if UNDEF in (v, a[0]) and op in ("==", "!="):
                return (v == a[0]) == (op == "==")
            return ip.compare_vals(op, v, a[0])
        ts = {"string": {"str"}, "mapping": {"dict"}, "number": {"int", "float", "bool"}, "boolean": {"bool"}, "integer": {"int"}, "float": {"float"}}
        if n in ts:
            o = ip.deref(v)
            if o is not None:
                return {"dict": "dict", "list": "list"}.get(o.kind, "object") in ts[n]
            if is_const(v):
                return v[1] in ts[n]
            if v[0] == "str":
                return "str" in ts[n]
            return ip.type_test(v, ts[n])
        if n in ("true", "false"):
            return v == C(n == "true")
        t = ip.deref(self.env.tests)
        i = ip.dict_find(t, C(n))
        if i is not None:
            return ip.truth(ip.call(i, [v] + a, {}))
        raise Stop("template test " + n)

    def filter(self, v, n, a, kw):
        ip = self.ip
        v = ip.force(v)
        f = ip.deref(self.env.filters)
        i = ip.dict_find(f, C(n))
        if i is not None:
            return ip.call(i, [v] + a, kw)
        mk = v[0] == "app" and v[1] == "Markup"
        if n in ("e", "escape", "forceescape"):
            if mk and n == "forceescape":
                v = v[2]
            return app("Markup", escape(v))
        if n == "safe":
            return v if mk else app("Markup", plain(v))
        if n in ("default", "d"):
            d = a[0] if a else kw.get("default_value", C(""))
            b = a[1] if len(a) > 1 else kw.get("boolean", FALSE)
            if v == UNDEF or (self.truth(b) and not self.truth(v)):
                return d
            return v
        if n == "string":
            return v if mk else plain(v)
        if n in ("length", "count"):
            return C(0) if v == UNDEF else ip.length(v)
        if n == "urlencode" and not a:
            v = v[2] if mk else v
            return C("") if v == UNDEF else ip.call(("ext", "urllib.parse.quote"), [plain(v)], {})
        if n == "list":
            return ip.new_list(list(ip.each(v)))
        if n in ("reverse", "sort", "join", "map", "select", "reject", "selectattr", "rejectattr", "batch", "slice", "groupby", "unique"):
            raise Stop("template filter " + n)
        if n in ("first", "last"):
            xs = list(ip.each(v))
            return (xs[0] if n == "first" else xs[-1]) if xs else UNDEF
        if n in ("int", "float", "round", "abs"):
            return ip.call(("bi", n), [v], {})
        raise Stop("template filter " + n)


class Loader:
    """Which template a name stands for."""

    def __init__(self, ip, root, user):
        self.ip, self.root, self.user = ip, root, user
        self.cache = {}

    def find(self, loader, name):
        """("template", t) or ("value", v) or None"""
        ip = self.ip
        if loader[0] == "app" and loader[1] == "jinja2.ChoiceLoader":
            for l in ip.each(loader[2]):
                r = self.find(l, name)
                if r is not None:
                    return r
            return None
        if loader[0] == "app" and loader[1] in ("jinja2.PackageLoader", "jinja2.FileSystemLoader"):
            a = loader[2:]
            if loader[1] == "jinja2.PackageLoader":
                if not is_const(a[0]):
                    raise Stop("the package of the templates is not constant")
                sub = a[1] if len(a) > 1 else C("templates")
                p = os.path.join(self.root, a[0][2].replace(".", "/"), sub[2], name)
                return self.package(p)
            d = a[0]
            o = ip.deref(d)
            dirs = list(ip.each(d)) if o is not None or d[0] == "tuple" else [d]
            for d in dirs:
                if d == self.user or (d[0] == "str" and len(d[1]) == 1 and d[1][0] == self.user):
                    r = self.users(name)
                else:
                    p = package_path(d)
                    r = self.package(os.path.join(self.root, p, name)) if p is not None else None
                    if p is None:
                        raise Stop("template directory not known: " + show(d))
                if r is not None:
                    return r
            return None
        raise Stop("template loader not known: " + show(loader))

    def users(self, name):
        key = ("user's template", name)
        if key not in self.ip.data:
            self.ip.data[key] = self.ip.decide(("the user has a template", C(name)))
        return ("value", app("user's template", C(name))) if self.ip.data[key] else None

    def package(self, p):
        if p not in self.cache:
            try:
                with open(p, encoding="utf-8") as f:
                    src = f.read()
            except OSError:
                self.cache[p] = None
            else:
                self.cache[p] = Template(p, src)
        t = self.cache[p]
        return ("template", t) if t is not None else None


def package_path(v):
    """a directory beside the package's modules, in the source"""
    s = show(v)
    m = re.search(r"__file__.*?\W(\w+)\W*$", s)
    return os.path.join("dsari", m.group(1)) if m else None


def install(st, user=None):
    """jinja2, for the programs of st; what is rendered is kept in st.rendered"""
    ip = st.ip
    root = st.w.repo.root
    st.envs, st.rendered = [], []
    loader = Loader(ip, root, user if user is not None else S("template_dir"))
    loader.cache = st.w.__dict__.setdefault("templates", {})
    for n in ("PackageLoader", "FileSystemLoader", "ChoiceLoader"):
        ip.ext_overrides["jinja2." + n] = ip.ext_overrides["jinja2.loaders." + n] = (lambda n: lambda ip, a, k: app("jinja2." + n, *(list(a) + [k[x] for x in ("package_name", "package_path", "searchpath", "loaders") if x in k])))(n)
    for n in ("jinja2.select_autoescape", "jinja2.utils.select_autoescape"):
        ip.ext_overrides[n] = select_autoescape
    for n in ("markupsafe.Markup", "jinja2.Markup", "jinja2.utils.Markup"):
        ip.ext_overrides[n] = lambda ip, a, k: app("Markup", plain(a[0]) if a else C(""))
        ip.ext_overrides[n + ".escape"] = lambda ip, a, k: app("Markup", escape(a[0]))
    for n in ("markupsafe.escape", "jinja2.escape", "jinja2.utils.escape"):
        ip.ext_overrides[n] = lambda ip, a, k: app("Markup", escape(a[0]))

    def environment(ip, a, kw):
        env = Env(ip, a, kw)
        i = len(st.envs)
        st.envs.append(env)

        def get(ip, a, k):
            n = a[0] if a else k.get("name", NONE)
            if not (is_const(n) and isinstance(n[2], str)):
                raise Stop("the name of a template is not constant")
            o = ip.deref(obj)
            env.autoescape, env.loader = o.attrs["autoescape"], o.attrs["loader"]
            if loader.find(env.loader, n[2]) is None:
                ip.throw("jinja2.exceptions.TemplateNotFound", n[2])
            name = "jinja template {} {}".format(i, n[2])

            def render(ip, a, k):
                ctx = {}
                for d in a:
                    o = ip.deref(d)
                    if o is None or o.kind != "dict":
                        raise Stop("context not known")
                    if o.rest is not None:
                        raise Stop("context not known")
                    for e in o.entries:
                        ctx[e[0][2]] = e[1]
                ctx.update(k)

                def load(nm):
                    r = loader.find(env.loader, nm)
                    if r is None:
                        ip.throw("jinja2.exceptions.TemplateNotFound", nm)
                    return r
                v = Renderer(env, load, n[2], ctx).run()
                st.rendered.append((n[2], ctx, v))
                return v
            ip.ext_overrides[name + ".render"] = render
            return ip.alloc(OInst(("ext", "jinja2.Template"), {"render": ("ext", name + ".render"), "name": n}))
        g = "jinja environment {}.get_template".format(i)
        ip.ext_overrides[g] = get
        obj = ip.alloc(OInst(("ext", "jinja2.Environment"), {
            "get_template": ("ext", g), "globals": env.globals, "filters": env.filters, "tests": env.tests, "autoescape": env.autoescape, "loader": env.loader,
        }))
        return obj
    ip.ext_overrides["jinja2.Environment"] = ip.ext_overrides["jinja2.environment.Environment"] = environment
