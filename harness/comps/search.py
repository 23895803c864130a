"""O02: linear, binary and jump search, both backends."""
from comps.arrayfns import *


def models(tier):
    n = 4 if tier == "quick" else 5
    return [("ArrayFns_MC", mc(1, "BoundsOK", Vals="<- V123", MaxLen=n, Ords='{"asc", "desc"}', Kind='"search"'), (), 0.35 if tier == "quick" else 1)]


def seeds(cells, order, lo, hi, v, n):
    sl = cells[lo:hi + 1]
    ok = sl == sorted(sl, reverse=order == "desc")
    for op in SEARCH:
        if op == "linear" or ok:
            for b in ("", "cpp"):
                n += 1
                yield job(op, KINDS[(n * 7 + n // 3) % 4], b, order, n, cells, lo, hi, v)


N = 0


def from_model(m):
    global N
    N += 5
    _, order, lo, hi, v = m["ops"][0]
    if lo > hi and m["cfg"]["cells"]:
        return
    yield from seeds(m["cfg"]["cells"], order, lo, hi, v, N)


def seeded(tier, rng):
    for n, m in enumerate((64, 65, 100, 129, 300)):      # long ones
        cells = sorted(rng.randrange(-2 * m, 2 * m) for _ in range(m))
        for v in (cells[0], cells[-1], cells[m // 2], 2 * m, -2 * m - 1, rng.choice(cells)):
            yield from seeds(cells, "asc", 0, m - 1, v, n)
    for n in range(900 if tier == "quick" else 20000):
        m = rng.choice([0, 1, 5, 9, 16, 17, 24, 40])
        lim = rng.choice([3, 12, 60])
        order = rng.choice(["asc", "desc"])
        cells = [rng.randrange(-lim, lim) for _ in range(m)]
        lo, hi = (0, m - 1) if m == 0 or rng.random() < 0.4 else sorted(rng.randrange(m) for _ in range(2))
        if rng.random() < 0.9:
            cells[lo:hi + 1] = sorted(cells[lo:hi + 1], reverse=order == "desc")
        v = rng.choice(cells) if m and rng.random() < 0.6 else rng.randrange(-lim - 1, lim + 1)
        yield from seeds(cells, order, lo, hi, v, n)
