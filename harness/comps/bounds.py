"""O03: order check (both backends), lower and upper bound."""
from comps.arrayfns import *


def models(tier):
    n = 4 if tier == "quick" else 5
    return [("ArrayFns_MC", mc(1, "BoundsOK", Vals="<- V123", MaxLen=n, Ords='{"asc", "desc"}', Kind='"search"'), (), 0.5 if tier == "quick" else 1)]


N = 0


def seeds(cells, order, lo, hi, v):
    """hi inclusive"""
    global N
    sl = cells[lo:hi + 1]
    N += 1
    if lo <= hi or not cells:
        for b in ("", "cpp"):
            yield job("is_ordered", KINDS[(N // 2) % 4], b, order, N, cells, lo, hi)
    if sl == sorted(sl, reverse=order == "desc"):
        for op in ("lower", "upper"):
            yield job(op, KINDS[N % 4], "", order, N // 4, cells, lo, hi + 1, v)


def from_model(m):
    yield from seeds(m["cfg"]["cells"], *m["ops"][0][1:])


def seeded(tier, rng):
    for n, m in enumerate((64, 65, 100, 129, 300)):      # long ones
        cells = sorted(rng.randrange(-2 * m, 2 * m) for _ in range(m))
        for v in (cells[0], cells[-1], cells[m // 2], 2 * m, -2 * m - 1, rng.choice(cells)):
            yield from seeds(cells, "asc", 0, m - 1, v)
    for n in range(900 if tier == "quick" else 20000):
        m = rng.choice([0, 1, 5, 9, 16, 17, 24, 40])
        lim = rng.choice([3, 12, 60])
        order = rng.choice(["asc", "desc"])
        cells = [rng.randrange(-lim, lim) for _ in range(m)]
        lo, hi = (0, m - 1) if m == 0 or rng.random() < 0.4 else sorted(rng.randrange(m) for _ in range(2))
        if rng.random() < 0.9:
            cells[lo:hi + 1] = sorted(cells[lo:hi + 1], reverse=order == "desc")
        v = rng.choice(cells) if m and rng.random() < 0.6 else rng.randrange(-lim - 1, lim + 1)
        yield from seeds(cells, order, lo, hi, v)
        if hi > lo + 1:
            j = rng.randrange(lo, hi)
            cells[j], cells[j + 1] = cells[j + 1], cells[j]
            yield from seeds(cells, order, lo, hi, v)
            # trailing empty cells, as left by a sort
            yield job("is_ordered", "oda", rng.choice(["", "cpp"]), order, n, cells[:hi + 1] + [NONE] * 2, lo, hi + 2)
