"""G07: strongly connected components."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"


def models(tier):
    q = tier == "quick"
    return [("GraphAlg_MC", alg("scc", 3, "WOne", Loops="TRUE"), (), 1), ("GraphAlg_MC", alg("scc", 4, "WOne"), (), 0.25 if q else 1)]


TODO = [["scc", "kosaraju"], ["scc", "tarjan"]]
N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    yield case(["list", "matrix"][N % 2], c["n"], c["e"], TODO, 0, random.Random(N), names=SCHEMES[N % 3], plain=N % 2)


def seeded(tier, rng):
    for j in range(10 if tier == "quick" else 60):      # many vertices
        k, es = big(rng, j, j % 4 == 3, [1])
        yield case(["list", "matrix"][j % 2], k, es, TODO, 0, rng)
    for n in range(500 if tier == "quick" else 8000):
        k = rng.randrange(1, 13) if n % 20 else 0
        es = gen(rng, k, False, [1], rng.choice([0.05, 0.1, 0.2, 0.35]), loops=rng.random() < 0.2, dag=rng.random() < 0.1)
        yield case(["list", "matrix"][n % 2], k, es, TODO, 0, rng, names=rng.choice(SCHEMES), plain=rng.randrange(2))
