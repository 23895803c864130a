"""G05: shortest paths between all pairs."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"
VS = ["list", "matrix"]


def models(tier):
    q = tier == "quick"
    return [("GraphRuns", runs("floyd", 3, "WNeg")), ("GraphAlg_MC", alg("apsp", 3, "WNeg"), (), 0.25 if q else 1)]


def todo(v):
    return [["apsp", "floyd_warshall"]] + ([["apsp", "johnson"]] if v == "list" else [])


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    rng = random.Random(N)
    v = VS[N % 4 == 0]
    yield case(v, c["n"], c["e"], todo(v), 0, rng, names=SCHEMES[N % 3], half=(0, 1, 4)[N // 3 % 3])


def seeded(tier, rng):
    for j in range(5 if tier == "quick" else 60):      # many vertices
        k, es = big(rng, j, j % 2, list(range(100)))
        yield case("list", k, es, todo("list"), 0, rng)
    for n in range(500 if tier == "quick" else 8000):
        v = VS[n % 4 == 0]
        k = rng.randrange(1, 8) if n % 20 else 0
        wts = rng.choice([[1], [0, 1, 2], list(range(30)), [-1, 0, 1, 2, 3], list(range(-3, 12)), list(range(-1, 20))])
        if rng.random() < 0.25:
            es = gen(rng, k, False, "steps", rng.choice([0.6, 0.9, 1]))
        else:
            es = gen(rng, k, rng.random() < 0.2 and min(wts) >= 0, wts, rng.choice([0.15, 0.3, 0.6, 1]), loops=rng.random() < 0.2, dag=rng.random() < 0.3)
        neg = negcycle(k, es)       # Floyd-Warshall's answers mean nothing then
        if neg and v != "list":
            continue
        yield case(v, k, es, [["apsp", "johnson"]] if neg else todo(v), 0, rng, names=rng.choice(SCHEMES), half=rng.choice([0, 1, 4]))
