"""Functions of the standard library, written in Python for the interpreter"""

import ast

from .front import FuncInfo, Module
from .models import MODELS

SOURCE = '''
def functools_reduce(function, iterable, *initial):
    first = True
    acc = None
    if initial:
        acc = initial[0]
        first = False
    for x in iterable:
        if first:
            acc = x
            first = False
        else:
            acc = function(acc, x)
    if first:
        raise TypeError("reduce() of empty iterable with no initial value")
    return acc


def itertools_starmap(function, iterable):
    return [function(*args) for args in iterable]


def itertools_filterfalse(function, iterable):
    return [x for x in iterable if not (x if function is None else function(x))]


def itertools_takewhile(function, iterable):
    out = []
    for x in iterable:
        if not function(x):
            break
        out.append(x)
    return out


def itertools_compress(data, selectors):
    return [x for x, s in zip(data, selectors) if s]


def collections_ChainMap(*maps):
    out = {}
    for m in reversed(maps):
        out.update(m)
    return out


def operator_contains(a, b):
    return b in a


def operator_getitem(a, b):
    return a[b]


def operator_setitem(a, b, c):
    a[b] = c


def operator_not_(a):
    return not a


def operator_truth(a):
    return bool(a)


def operator_is_(a, b):
    return a is b


def operator_is_not(a, b):
    return a is not b


def operator_eq(a, b):
    return a == b


def operator_ne(a, b):
    return a != b


def operator_lt(a, b):
    return a < b


def operator_le(a, b):
    return a <= b


def operator_gt(a, b):
    return a > b


def operator_ge(a, b):
    return a >= b


def operator_add(a, b):
    return a + b


def operator_sub(a, b):
    return a - b


def operator_or_(a, b):
    return a | b


def operator_and_(a, b):
    return a & b
'''

MODULE = Module("(library)", "(library)", SOURCE)


def add(node):
    f = FuncInfo(node.name, node, MODULE)
    a, b = node.name.split("_", 1)

    def model(ip, args, kw):
        return ip.call_func(f, args, kw)

    MODELS.setdefault(a + "." + b, model)


for _s in MODULE.tree.body:
    add(_s)
