"""G03: minimum spanning trees."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"
VS = ["list", "matrix", "list-cpp"]


def models(tier):
    q = tier == "quick"
    return [("GraphRuns", runs("kruskal", 4, "W12", "TRUE")), ("GraphRuns", runs("prim", 4, "W12", "TRUE")),
            ("GraphAlg_MC", alg("mst", 4, "W12" if q else "W123", "TRUE"), (), 0.7 if q else 1)]


def todo(v, rng):
    t = lambda: rng.choice([1, 2, 3, 5])
    if v == "list":
        return [["mst", "kruskal", 0], ["mst", "prim", 0], ["mst", "kruskal", t()], ["mst", "prim", t()]]
    return [["mst", "kruskal", 0], ["mst", "kruskal", t()]] if v == "matrix" else [["mst", "prim", 0]]


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    rng = random.Random(N)
    v = VS[N % 3]
    yield case(v, c["n"], c["e"], todo(v, rng), 1, rng, names=SCHEMES[N % 3], half=(0, 1, 4)[N // 3 % 3])


def seeded(tier, rng):
    for j in range(10 if tier == "quick" else 60):      # many vertices
        v = VS[j % 3]
        k, es = big(rng, j, True, rng.choice([[1, 2], list(range(100))]), connected=True)
        yield case(v, k, es, todo(v, rng), 1, rng)
    for n in range(300 if tier == "quick" else 5000):
        v = VS[n % 3]
        k = rng.randrange(n % 4 // 3, 9)
        wts = rng.choice([[1], [1, 2], list(range(-5, 6)), list(range(1000)), [0, -1, 7]])
        es = gen(rng, k, True, wts, rng.choice([0.0, 0.2, 0.5, 1]), loops=rng.random() < 0.2, connected=n % 4 != 3)
        yield case(v, k, es, todo(v, rng), 1, rng, names=rng.choice(SCHEMES), half=rng.choice([0, 1, 4]))
