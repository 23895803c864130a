"""Calls of the array functions of O02..O05."""
from lib import *
import sys
if "worker" in sys.argv[0]:      # the parent process only generates scenarios
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend

MODULE = "ArrayFns_Trace"
SEARCH = ["linear", "binary", "jump"]
KINDS = ["oda", "doda", "oda_cpp", "doda_cpp"]


# items of other types in the same order: type, from a number, back to one
CODECS = {
    "": (int, lambda x: x, lambda y: y),
    "big": (int, lambda x: x * 10 ** 25, lambda y: y // 10 ** 25),
    "half": (float, lambda x: x / 2, lambda y: int(y * 2)),
    "str": (str, lambda x: "k%06d" % (x + 500000), lambda y: int(y[1:]) - 500000),
    "tup": (tuple, lambda x: (x // 3, x % 3), lambda y: y[0] * 3 + y[1]),
}


def dec(kind, y):
    t, enc, back = CODECS[kind.partition(".")[2]]
    if y is None:
        return NONE
    if not isinstance(y, t):
        return BADV
    x = I(back(y))
    return x if enc(x) == y else BADV


def build(kind, cells):
    kind, _, co = kind.partition(".")
    typ, enc, _ = CODECS[co]
    cells = [c if c == NONE else enc(c) for c in cells]
    kw = {"backend": Backend.CPP} if kind.endswith("cpp") else {}
    if kind.startswith("oda"):
        a = p.OneDimensionalArray(typ, len(cells), **kw)
        for i, c in enumerate(cells):
            if c != NONE:
                a[i] = c
        return a
    a = p.DynamicOneDimensionalArray(typ, list(cells), **kw) if cells else p.DynamicOneDimensionalArray(typ, 0, **kw)
    return a


def cells_of(a, kind):
    return [dec(kind, a[i]) for i in range(a.size if kind.startswith("doda") else len(a))]


COMP = {   # operation -> order -> admissible comparators
    "binary": {"asc": [None, lambda u, v: u <= v, lambda u, v: u < v], "desc": [lambda u, v: u >= v, lambda u, v: u > v]},
    "jump": {"asc": [None, lambda u, v: u < v], "desc": [lambda u, v: u > v]},
    "is_ordered": {"asc": [None, lambda u, v: u <= v, lambda u, v: u < v], "desc": [lambda u, v: u >= v, lambda u, v: u > v]},
    "lower": {"asc": [None, lambda u, v: u < v], "desc": [lambda u, v: u > v]},
    "upper": {"asc": [None, lambda u, v: u < v], "desc": [lambda u, v: u > v]},
    "next": {"asc": [None, lambda u, v: u < v], "desc": [lambda u, v: u > v]},
    "prev": {"asc": [None, lambda u, v: u < v], "desc": [lambda u, v: u > v]},
    "linear": {"asc": [None], "desc": [None]},
}


def run(s, events):
    op, kind, backend, order, k, cells, lo, hi, v = s["job"]
    a = build(kind, cells)
    val = CODECS[kind.partition(".")[2]][1]
    kw = {}
    cs = COMP.get(op, {}).get(order, [None])
    c = cs[k % len(cs)]
    if c:
        kw["comp"] = c
    if backend == "cpp":
        kw["backend"] = Backend.CPP
    excl = op in ("lower", "upper")
    if (lo, hi) != (0, len(cells) - (0 if excl else 1)):
        kw.update(start=lo, end=hi)
    elif k % 2 and hi >= 0:
        kw.update(end=hi)
    out = []
    x, r = "", NONE
    if op in SEARCH:
        x, r = call(lambda: getattr(p, op + "_search")(a, val(v), **kw))
        r = I(r)
    elif op == "is_ordered":
        x, r = call(lambda: p.is_ordered(a, **kw))
        r = B(r)
    elif excl:
        x, r = call(lambda: (p.lower_bound if op == "lower" else p.upper_bound)(a, val(v), **kw))
        r = I(r)
    elif op in ("next", "prev"):
        x, res = call(lambda: (p.next_permutation if op == "next" else p.prev_permutation)(a, **kw))
        if not x:
            r, out = B(res[0]), [dec(kind, res[1][i]) for i in range(len(res[1]))]
    elif op == "lis":
        x, res = call(lambda: p.longest_increasing_subsequence(a))
        out = [] if x else [dec(kind, res[i]) for i in range(len(res))]
    elif op == "lcs":
        b = a if lo == cells else build(kind, lo)
        x, res = call(lambda: p.longest_common_subsequence(a, b))
        out = [] if x else [dec(kind, res[i]) for i in range(len(res))]
    events.append(ev(op, [kind, order, cells, lo, hi, v], x, NONE if x else r, {"cells": cells_of(a, kind), "out": out}))


def job(op, kind, backend, order, k, cells, lo, hi, v=0):
    n = (sum(c for c in cells if c != NONE) * 7 + len(cells) * 3 + k + v) % 8
    kind += ["", "", "", "", ".half", ".str", ".tup", ".big"][n]
    return {"v": "%s/%s%s" % (op, kind, "/" + backend if backend else ""), "job": [op, kind, backend, order, k, list(cells), lo, hi, v]}
