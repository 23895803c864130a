"""A03: MultiDimensionalArray."""
import itertools
from lib import *

MODULE = "Array_Trace"


class Drv:
    def __init__(self, s):
        from pydatastructs import MultiDimensionalArray
        v, cfg = s["v"], s["cfg"]
        self.c = Codec(s, Codec.CELLS)
        self.a = MultiDimensionalArray(self.c.type, *cfg["shape"])
        self.shape = cfg["shape"]
        self.scalar = v == "scalar"      # index a one-dimensional one by a plain integer

    def ix(self, ix):
        return ix[0] if self.scalar and len(ix) == 1 else tuple(ix)

    def op_get(self, ix):
        return self.c.dec(self.a[self.ix(ix)])

    def op_set(self, ix, v):
        self.a[self.ix(ix)] = self.c.enc(v)

    def op_fill(self, v):
        self.a.fill(self.c.enc(v))

    def obs(self):
        return {"shape": S(self.a.shape),
                "cells": [[list(ix), self.c.dec(self.a[self.ix(ix)])] for ix in itertools.product(*map(range, self.shape))]}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    out = [("Array_MC", mc(2, properties="Frame ReadYourWrites", Vals="{1, 2}", Shapes="<- ManyShapes"))]
    if tier != "quick":
        out.append(("Array_MC", mc(3, properties="Frame ReadYourWrites", Vals="{1, 2}", Shapes="<- SmallShapes")))
    return out


def from_model(m):
    for v in ["tuple", "scalar"] if len(m["cfg"]["shape"]) == 1 else ["tuple"]:
        yield {"v": v, "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for n in range(80 if tier == "quick" else 1000):
        dims = rng.choice([1, 2, 2, 3, 3, 4])
        shape = [rng.randrange(1, 5 if dims < 4 else 4) for _ in range(dims)]
        ops = []
        # write a different value through every tuple, then mix
        ixs = list(itertools.product(*map(range, shape)))
        if len(ixs) <= 40 and rng.random() < 0.5:
            rng.shuffle(ixs)
            ops = [["set", list(ix), k + 1] for k, ix in enumerate(ixs)]
        for k in range(15):
            ix = list(rng.choice(ixs))
            x = rng.random()
            if x < 0.15:
                d = rng.randrange(dims)
                ix[d] = shape[d] + rng.randrange(3)
            elif x < 0.25:
                ix = ix[:-1] if dims > 1 and rng.random() < 0.5 else ix + [0]
            y = rng.random()
            ops.append(["get", ix] if y < 0.3 else ["set", ix, rng.randrange(1000)] if y < 0.9 else ["fill", rng.randrange(1000)])
        yield {"v": "tuple", "cfg": {"shape": shape}, "ops": ops}
