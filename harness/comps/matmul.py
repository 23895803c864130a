"""O06: parallel matrix multiplication."""
from lib import *

MODULE = "MatMul_Trace"
N = 0


def run(s, events):
    from pydatastructs import matrix_multiply_parallel
    l, r, n = s["l"], s["r"], s["n"]
    if l == r:
        r = l       # a square: the same object twice
    with unruly((l, r, n), 2):
        x, res = call(lambda: matrix_multiply_parallel(l, r, n))
    events.append(ev("mul", [s["l0"], s["r0"], n], x, NONE if x else [[I(v) for v in row] for row in res], {"l": l, "r": r}))


def scen(l, r, n):
    c = lambda m: [list(row) for row in m]
    return {"v": "", "l": c(l), "r": c(r), "l0": c(l), "r0": c(r), "n": n}


def models(tier):
    res = [("MatMul_MC", mc(1, "ProductOK", Dims="{1, 2}", Vals="<- VA"), (), 1)]
    return res if tier == "quick" else res + [("MatMul_MC", mc(1, "ProductOK", Dims="{1, 2, 3}", Vals="{1}"), (), 1),
                                              ("MatMul_MC", mc(1, "ProductOK", Dims="{1, 2}", Vals="<- VB"), (), 1)]


def from_model(m):
    global N
    N += 1
    yield scen(m["cfg"]["l"], m["ops"][0][1], 1 + N % 4)


def seeded(tier, rng):
    for r, k, c in ((1, 70, 1), (17, 3, 18), (9, 33, 10), (1, 1, 40), (40, 1, 1)):      # large ones
        yield scen(*([[rng.randrange(-9, 10) for _ in range(b)] for _ in range(a)] for a, b in ((r, k), (k, c))), rng.choice([1, 2, 3, 8]))
    for n in range(400 if tier == "quick" else 5000):
        r, k, c = (rng.randrange(1, 8) for _ in range(3))
        k2 = k if rng.random() < 0.9 else rng.randrange(1, 8)
        lim = rng.choice([1, 9, 1000])
        mk = lambda a, b: [[rng.randrange(-lim, lim + 1) for _ in range(b)] for _ in range(a)]
        l = mk(r, k)
        yield scen(l, l if n % 8 == 0 else mk(k2, c), rng.choice([1, 2, 3, 8]))
