"""O05: longest common and longest increasing subsequences."""
from comps.arrayfns import *


def models(tier):
    return [("ArrayFns_MC", mc(1, "LisOK", Vals="<- V0123", MaxLen=5 if tier == "quick" else 6, Ords='{"asc"}', Kind='"lis"'))]


N = 0
PREV = []


def from_model(m):
    global N, PREV
    cells = m["cfg"]["cells"]
    N += 1
    yield job("lis", KINDS[N % 4], "", "asc", 0, cells, 0, 0)
    yield job("lcs", "oda", "", "asc", 0, cells, PREV, 0)
    if N % 7 == 0 or not PREV:
        PREV = cells[:5]


def seeded(tier, rng):
    for m in (40, 70):      # long ones
        a, b = ([rng.randrange(-20, 20) for _ in range(m)] for _ in range(2))
        yield job("lis", rng.choice(KINDS), "", "asc", 0, a, 0, 0)
        yield job("lis", rng.choice(KINDS), "", "asc", 0, sorted(set(a)) + b[:9], 0, 0)
        yield job("lcs", "oda", "", "asc", 0, a, b, 0)
        yield job("lcs", "oda", "", "asc", 0, a, sorted(a), 0)
    for n in range(500 if tier == "quick" else 10000):
        lim = rng.choice([2, 4, 30])
        a, b = ([rng.randrange(-lim, lim) for _ in range(rng.randrange(0, 16))] for _ in range(2))
        yield job("lis", rng.choice(KINDS), "", "asc", 0, a + b, 0, 0)
        yield job("lcs", "oda", "", "asc", 0, a, b, 0)
        if n % 10 == 0:
            yield job("lcs", "oda", "", "asc", 0, a, a, 0)       # the same array twice
