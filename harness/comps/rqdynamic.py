"""D04: range queries with point updates."""
from comps.rangeq import *

N = 0


def models(tier):
    if tier == "quick":
        return [("RangeQuery_MC", mc(2, "Refines", Vals="{0, 2, 15}", MinLen=1, MaxLen=3, Fns='{"min", "gcd", "sum", "affine"}', Ops='{"update"}'), (), 1),
                ("RangeQuery_MC", mc(3, "Refines", Vals="{0, 2}", MinLen=1, MaxLen=3, Fns='{"max", "last", "first"}', Ops='{"update"}'), (), 0.5)]
    return [("RangeQuery_MC", mc(2, "Refines", Vals="{0, 2, 15}", MinLen=1, MaxLen=4, Fns='{"min", "gcd", "sum", "affine"}', Ops='{"update"}'), (), 0.5),
            ("RangeQuery_MC", mc(3, "Refines", Vals="{0, 2}", MinLen=1, MaxLen=4, Fns='{"max", "last", "first"}', Ops='{"update"}'), (), 0.5)]


def job(fn, cells, ds, kind, ops):
    kind = fit(fn, kind)
    if kind in ("tuple", "tup"):
        kind = "list"
    return {"v": "dynamic/%s/%s" % (ds, kind), "cfg": {"fn": fn, "cells": list(cells)}, "ops": ops}


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    q = all_queries(len(c["cells"]))
    ops = []
    for j, o in enumerate(m["ops"]):
        ops.append(o)
        ops += q if j % 2 or j == len(m["ops"]) - 1 else q[::2]
    yield job(c["fn"], c["cells"], ["segment_tree", "array"][N % 4 == 0], KINDS[N // 4 % len(KINDS)], ops)


def seeded(tier, rng):
    for size in (63, 64, 65, 100, 129, 257):      # large ones
        fn = rng.choice(["min", "max", "sum", "last"])
        cells = [rng.randrange(-1000, 1000) for _ in range(size)]
        ops = []
        for k in range(8):
            ops += [["update", rng.choice([0, size - 1, size // 2, rng.randrange(size)]), rng.randrange(-2000, 2000)], ["query"] + sorted(rng.randrange(size) for _ in range(2))]
        ops.append(["query", 0, size - 1])
        for ds in ("segment_tree", "array"):
            yield job(fn, cells, ds, KINDS[size % len(KINDS)], ops)
    for n in range(300 if tier == "quick" else 4000):
        size = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 25])
        fn = rng.choice(["min", "max", "sum", "gcd", "affine", "first", "last"])
        lim = rng.choice([3, 50, 10000])
        val = lambda: rng.randrange(49) if fn == "affine" else rng.randrange(0 if fn == "gcd" else -lim, lim)
        cells = [val() for _ in range(size)]
        ops = []
        for _ in range(30):
            if rng.random() < 0.45:
                ops.append(["update", rng.randrange(size), val()])
            else:
                ops.append(["query"] + sorted(rng.randrange(size) for _ in range(2)))
        ops += [["query", 0, size], ["query", -1, 0], ["query", 1, 0], ["empty"], ["query", 0, size - 1]]
        if n % 4 == 0:
            # the tree by itself, built somewhere along the way, perhaps again later
            d = [o for o in ops if o[0] == "update" or o[0] == "query" and 0 <= o[1] <= o[2] < size]
            for _ in range(rng.randrange(1, 3)):
                d.insert(rng.choice([0, 1, 3, rng.randrange(len(d) + 1)]), ["build"])
            j = job(fn, cells, "tree", KINDS[n // 4 % len(KINDS)], d)
            yield {"v": "direct" + j["v"][7:], "cfg": dict(j["cfg"], lazy=1), "ops": d}
        for ds in ("segment_tree", "array"):
            yield job(fn, cells, ds, KINDS[n // 4 % len(KINDS)], ops)
