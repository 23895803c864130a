"""O04: next and previous permutation."""
from comps.arrayfns import *


def models(tier):
    n = 4 if tier == "quick" else 5
    return [("ArrayFns_MC", mc(1, "PermOK", Vals="<- V123", MaxLen=n, Ords='{"asc", "desc"}', Kind='"perm"'))]


N = 0


def seeds(cells, order, lo, hi):
    global N
    for op in ("next", "prev"):
        N += 1
        yield job(op, KINDS[(N // 2) % 4], "", order, N // 8, cells, lo, hi)


def from_model(m):
    _, order, lo, hi, _ = m["ops"][0]
    cells = m["cfg"]["cells"]
    if lo <= hi or not cells:
        yield from seeds(cells, order, lo, hi)


def seeded(tier, rng):
    for m in (20, 40, 70):      # long ones
        cells = [rng.randrange(-9, 10) for _ in range(m)]
        for rev in (True, False):
            k = rng.randrange(m)
            yield from seeds(cells[:k] + sorted(cells[k:], reverse=rev), "asc", 0, m - 1)
    for n in range(1500 if tier == "quick" else 20000):
        m = rng.randrange(1, 13)
        lim = rng.choice([2, 4, 30])
        cells = [rng.randrange(-lim, lim) for _ in range(m)]
        lo, hi = (0, m - 1) if rng.random() < 0.6 else sorted(rng.randrange(m) for _ in range(2))
        if rng.random() < 0.5:      # a long monotone tail: the interesting case
            k = rng.randrange(lo, hi + 1)
            cells[k:hi + 1] = sorted(cells[k:hi + 1], reverse=rng.random() < 0.5)
        yield from seeds(cells, rng.choice(["asc", "desc"]), lo, hi)
