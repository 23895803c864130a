"""D03: range queries without updates."""
from comps.rangeq import *

N = 0


def models(tier):
    n = 5 if tier == "quick" else 6
    # the model's own checks over longer arrays; scenarios from the inputs themselves
    return [("RangeQuery_MC", mc(0, "Refines", Vals="{0, 1, 3}", MinLen=1, MaxLen=n, Fns='{"min", "sum", "last"}', Ops='{}'), (), 1),
            ("RangeQuery_MC", mc(0, "Refines", Vals="{0, 20, 6}", MinLen=1, MaxLen=n - 1, Fns='{"gcd", "max", "first", "affine"}', Ops='{}'), (), 1),
            ("RangeQuery_MC", mc(1, "Refines", Vals="{1, 2}", MinLen=1, MaxLen=3, Fns='{"min", "max"}', Ops='{"query"}'), (), 1)]


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    ops = m["ops"] or all_queries(len(c["cells"]))
    yield static_job(c["fn"], c["cells"], ["sparse_table", "array"][N % 4 == 0], KINDS[N // 4 % 5], ops)


def seeded(tier, rng):
    for size in (127, 128, 129, 255, 256, 257, 300):      # large ones
        fn = rng.choice(["min", "sum", "first", "last"])
        cells = [rng.randrange(-1000, 1000) for _ in range(size)]
        ops = [["query"] + sorted(rng.randrange(size) for _ in range(2)) for _ in range(8)] + [["query", 0, size - 1], ["query", 0, size - 2], ["query", 1, size - 1]]
        for ds in ("sparse_table", "array"):
            yield static_job(fn, cells, ds, KINDS[size % 5], ops)
    for n in range(300 if tier == "quick" else 4000):
        size = rng.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65])
        fn = rng.choice(["min", "max", "sum", "gcd", "affine", "first", "last"])
        lim = rng.choice([3, 50, 10000])
        cells = [rng.randrange(49) if fn == "affine" else rng.randrange(0 if fn == "gcd" else -lim, lim) for _ in range(size)]
        if size <= 9:
            ops = all_queries(size)
        else:
            ops = [["query"] + sorted(rng.randrange(size) for _ in range(2)) for _ in range(30)] + [["query", 0, size - 1]]
        ops += [["query", 0, size], ["query", -1, 0], ["query", 1, 0], ["empty"], ["query", size - 1, size - 1]]
        for ds in ("sparse_table", "array"):
            yield static_job(fn, cells, ds, KINDS[n % 5], ops)
