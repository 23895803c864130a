"""A01: OneDimensionalArray, Python and C++."""
from lib import *

MODULE = "Array_Trace"
VARIANTS = ["py", "cpp"]


class Drv:
    def __init__(self, s):
        from pydatastructs import OneDimensionalArray
        from pydatastructs.utils.misc_util import Backend
        v, cfg = s["v"], s["cfg"]
        self.c = Codec(s, Codec.CELLS)
        self.cls = OneDimensionalArray
        self.kw = {"backend": Backend.CPP} if v == "cpp" else {}
        self.a = self.cls(self.c.type, cfg["shape"][0], **self.kw)

    def op_new(self, form, n, elems):
        given = [self.c.enc(e) for e in elems]
        if form.endswith("_f"):         # items of another type are converted (Python only)
            form = form[:-2]
            if self.c.name == "num":
                given = [e + 0.5 for e in elems]
        data = tuple(given) if "tuple" in form else list(given)
        a = {"size": [n], "size_init": [n], "list": [data], "tuple": [data], "size_list": [n, data],
             "list_size": [data, n], "size_tuple": [n, data], "tuple_size": [data, n]}[form]
        kw = dict(self.kw)
        if form == "size_init":
            kw["init"] = given[0]
        self.a = self.cls(self.c.type, *a, **kw)
        assert list(data) == given      # the caller's list is not touched
        if isinstance(data, list):      # nor is it kept
            data[:] = data[1:]

    def op_get(self, ix):
        return self.c.dec(self.a[ix[0]])

    def op_set(self, ix, v):
        self.a[ix[0]] = self.c.enc(v)

    def op_fill(self, v):
        self.a.fill(self.c.enc(v))

    def obs(self):
        n = len(self.a)
        return {"shape": [n], "cells": [[[i], self.c.dec(self.a[i])] for i in range(n)]}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    d = 3 if tier == "quick" else 4
    return [("Array_MC", mc(d, properties="Frame ReadYourWrites", Vals="{1, 2}", Shapes="<- S1"))]


def from_model(m):
    for v in VARIANTS:
        yield {"v": v, "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for v in VARIANTS:      # long ones
        for form in ("list", "size_tuple", "list_size", "size"):
            m = rng.randrange(260, 400)
            ops = [["new", form, m, list(range(m)) if form != "size" else []], ["set", [m - 1], 5], ["get", [m - 2]], ["set", [m], 5], ["fill", 6]]
            if "_" in form:
                ops.insert(1, ["new", form, m + 1, list(range(m))])
            yield {"v": v, "cfg": {"shape": [1]}, "ops": ops}
    for n in range(120 if tier == "quick" else 1500):
        v = VARIANTS[n % 2]
        size = rng.choice([0, 1, 2, 5, 17])
        ops = []
        for k in range(rng.choice([10, 40])):
            x = rng.random()
            # reads also below zero; writes at or beyond the length
            if x < 0.3:
                ops.append(["get", [rng.randrange(-size - 1, size + 3)]])
            elif x < 0.8:
                ops.append(["set", [rng.randrange(0, size + 2)], rng.randrange(-100, 250)])
            elif x < 0.9:
                ops.append(["fill", rng.randrange(-100, 250)])
            else:
                form = rng.choice(["size", "size_init", "list", "tuple", "size_list", "list_size", "size_tuple", "tuple_size"])
                if v == "py" and form not in ("size", "size_init") and rng.random() < 0.3:
                    form += "_f"
                el = [rng.randrange(0 if form.endswith("_f") else -100, 25000) for _ in range(rng.choice([0, 1, 2, 5]) if form != "size_init" else 1)]
                m = len(el) if form in ("list", "tuple", "list_f", "tuple_f") or rng.random() < 0.7 else rng.randrange(0, 7)
                ops.append(["new", form, m, el])
                if form in ("size", "size_init") or m == len(el):
                    size = m
        yield {"v": v, "cfg": {"shape": [rng.choice([0, 1, 4]) if n % 4 else size]}, "ops": ops}
