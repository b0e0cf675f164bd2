"""Command lines: the parser a program builds with argparse is built again,
from the constants it gives, and applied to command lines of our choice."""
import argparse

from .interp import OInst, Stop
from .values import *  # noqa: F401,F403
from .values import C, S, NONE, FALSE

PYTYPES = {"str": str, "int": int, "float": float, "bool": bool}


class Held:
    """a value which is not a constant"""

    def __init__(self, v):
        self.v = v


class Usage(Exception):
    def __init__(self, status):
        self.status = status


class Real(argparse.ArgumentParser):
    def error(self, message):
        raise Usage(2)

    def exit(self, status=0, message=None):
        raise Usage(status)

    def _print_message(self, message, file=None):
        pass


class Args:
    """argv: texts, or values for which a text stands in"""

    def __init__(self, st, prog, *argv):
        self.st, self.ip = st, st.ip
        self.subst = {}
        self.argv = []
        for a in argv:
            parts = a if isinstance(a, list) else [a]
            self.argv.append("".join(p if isinstance(p, str) else self.stand_in(p) for p in parts))
        self.real = {}  # object -> parser, subparsers or group
        ip = self.ip
        ip.ext_overrides["argparse.ArgumentParser"] = self.parser
        ip.ext_overrides["sys.argv"] = lambda ip, a, k: NONE
        self.prev = st.hook
        st.hook = self.hook

    def stand_in(self, v):
        s = "\ue000{}\ue001".format(len(self.subst))
        self.subst[s] = v
        return s

    def new(self, real, name):
        v = self.ip.fresh(name)
        self.ip.kinds[v] = "object"
        self.real[v] = real
        return v

    def parser(self, ip, a, k):
        kw = {n: self.py(k[n]) for n in ("allow_abbrev", "argument_default", "add_help", "prefix_chars", "prog") if n in k}
        if "parents" in k:
            kw["parents"] = [self.real[s[1]] for s in ip.segs(k["parents"])]
        for n in ("exit_on_error", "conflict_handler", "fromfile_prefix_chars"):
            if n in k:
                raise Stop("option {} of a parser".format(n))
        return self.new(Real(**kw), "argparse.ArgumentParser")

    def py(self, v):
        """a constant, or held"""
        if is_const(v) or v == NONE:
            return v[2] if is_const(v) else None
        if v[0] == "bi" and v[1] in PYTYPES:
            return PYTYPES[v[1]]
        if v[0] == "ext" and v[1].startswith("argparse."):
            return getattr(argparse, v[1][9:])
        if v[0] == "tuple":
            return [self.py(x) for x in v[1]]
        o = self.ip.deref(v)
        if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
            return [self.py(s[1]) for s in o.segs]
        return Held(v)

    def convert(self, f):
        def g(s):
            return Held(self.ip.call(f, [self.back(s)], {}))
        return g

    def options(self, k):
        kw = {}
        for n, v in k.items():
            if n in ("help", "description", "title", "version", "epilog", "formatter_class", "usage"):
                continue
            x = self.py(v)
            if isinstance(x, Held) and n == "type":
                x = self.convert(v)
            elif isinstance(x, Held) and n not in ("default", "const"):
                raise Stop("{} of an option not understood".format(n))
            kw[n] = x
        return kw

    def back(self, x):
        """the value of a parsed one"""
        ip = self.ip
        if isinstance(x, Held):
            return x.v
        if isinstance(x, list):
            return ip.new_list([self.back(y) for y in x])
        if isinstance(x, str) and "\ue000" in x:
            parts, rest = [], x
            while "\ue000" in rest:
                a, rest = rest.split("\ue000", 1)
                n, rest = rest.split("\ue001", 1)
                parts += [C(a), self.subst["\ue000" + n + "\ue001"]]
            parts.append(C(rest))
            parts = [p for p in parts if p != C("")]
            return parts[0] if len(parts) == 1 else make_str(parts)
        if x is None:
            return NONE
        return C(x)

    def argv_of(self, v):
        if v is None or v == NONE:
            return self.argv
        o = self.ip.deref(v)
        if o is not None and o.kind == "list" and all(s[0] == "one" for s in o.segs):
            return [self.py(s[1]) for s in o.segs]
        if v[0] == "tuple":
            return [self.py(x) for x in v[1]]
        t = show(v)
        if "sys.argv" in t and v[0] != "ext" and C(1) in subterms(v):
            return self.argv
        raise Stop("arguments not understood: {}".format(t))

    def hook(self, e):
        r = self.prev(e) if self.prev is not None else None
        if r is not None:
            return r
        if e.recv not in self.real:
            return None
        ip, real = self.ip, self.real[e.recv]
        try:
            if e.name == ".add_argument":
                names = [self.py(a) for a in e.args]
                if any(not isinstance(n, str) for n in names):
                    raise Stop("name of an option not understood")
                kw = self.options(e.kw)
                if kw.get("action") == "version":
                    kw["version"] = "0"
                real.add_argument(*names, **kw)
                return NONE
            if e.name == ".add_subparsers":
                kw = self.options(e.kw)
                kw.pop("parser_class", None)
                return self.new(real.add_subparsers(**kw), "argparse.SubParsers")
            if e.name == ".add_parser":
                return self.new(real.add_parser(self.py(e.args[0]), **self.options(e.kw)), "argparse.ArgumentParser")
            if e.name in (".add_argument_group", ".add_mutually_exclusive_group"):
                kw = self.options(e.kw)
                return self.new(getattr(real, e.name[1:])(**kw), "argparse.Group")
            if e.name == ".set_defaults":
                real.set_defaults(**{n: self.py(v) for n, v in e.kw.items()})
                return NONE
            if e.name in (".parse_args", ".parse_known_args"):
                for (v, n), y in ip.data.get("attrs", {}).items():
                    if v in self.real:
                        setattr(self.real[v], n, self.py(y))
                argv = self.argv_of(e.args[0] if e.args else e.kw.get("args"))
                ns, extra = real.parse_known_args(argv)
                if extra and e.name == ".parse_args":
                    raise Usage(2)
                v = ip.alloc(OInst(("ext", "argparse.Namespace"), {n: self.back(x) for n, x in vars(ns).items()}))
                return v if e.name == ".parse_args" else ("tuple", (v, ip.new_list([self.back(x) for x in extra])))
            if e.name in (".error",):
                raise Usage(2)
            if e.name == ".exit":
                raise Usage(0 if not e.args else self.py(e.args[0]))
            if e.name in (".print_help", ".print_usage"):
                return NONE
        except Usage as u:
            st = self.st
            st.usage = u.status
            ip.throw("SystemExit", C(u.status))
        except (ValueError, TypeError, argparse.ArgumentError) as x:
            ip.throw(type(x).__name__, str(x))
        raise Stop("parser method {}".format(e.name))
