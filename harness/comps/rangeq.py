"""D03, D04: range queries."""
from lib import *

MODULE = "RangeQuery_Trace"


def pick(one):
    def f(x_y):
        if len(x_y) == 1:
            return x_y[0]
        x, y = x_y
        if x is None or y is None:
            return x if y is None else y
        return one(x, y)
    return f


def affine(x, y):
    """composition of x -> a x + b modulo 7, as 7 a + b"""
    return x // 7 * (y // 7) % 7 * 7 + (x // 7 * (y % 7) + x % 7) % 7


class Drv:
    """v = static|dynamic / data structure / kind of array; values are halved when asked for"""
    def __init__(self, s):
        import pydatastructs as p
        from pydatastructs.utils import misc_util as m
        mode, ds, kind = s["v"].split("/")
        c = s["cfg"]
        self.c = Codec(kind if kind in Codec.KINDS else "num")
        self.enc = self.c.enc
        vals = [self.enc(v) for v in c["cells"]]
        f = {"min": p.minimum if hasattr(p, "minimum") else m.minimum, "max": pick(max), "sum": m.summation,
             "gcd": m.greatest_common_divisor, "affine": pick(affine), "first": pick(lambda x, y: x), "last": pick(lambda x, y: y)}[c["fn"]]
        self.arr = (p.OneDimensionalArray(self.c.type, vals) if kind in ("one", "str") else
                    tuple(vals) if kind in ("tuple", "tup") else list(vals))
        if mode == "direct":
            self.rq = p.ArraySegmentTree(self.arr, f)
            return
        make = p.RangeQueryStatic if mode == "static" else p.RangeQueryDynamic
        self.rq = make(self.arr, f, data_structure=ds)
        self.op_empty = lambda: make(() if kind == "tuple" else [], f, data_structure=ds) and None

    def op_query(self, lo, hi):
        return self.c.dec(self.rq.query(lo, hi))

    def op_build(self):
        return self.rq.build()

    def op_update(self, i, v):
        return self.rq.update(i, self.enc(v))

    def obs(self):
        return [self.c.dec(self.arr[i]) for i in range(len(self.arr))]


def run(s, events):
    replay(Drv(s), s, events)


def static_job(fn, cells, ds, kind, ops):
    return {"v": "static/%s/%s" % (ds, fit(fn, kind)), "cfg": {"fn": fn, "cells": list(cells)}, "ops": ops}


def fit(fn, kind):
    """items of other types, where the function takes them"""
    if fn in ("min", "max", "first", "last"):
        return {"half": "str", "tuple": "tup"}.get(kind, kind) if fn in ("max", "last") else kind
    return "list" if kind == "half" and fn != "sum" or kind == "big" and fn == "affine" else kind


def all_queries(n):
    return [["query", l, r] for l in range(n) for r in range(l, n)]


KINDS = ["list", "one", "half", "tuple", "big"]
