"""G06: topological sorting."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"


def models(tier):
    q = tier == "quick"
    return [("GraphRuns", runs("kahn", 3, "WOne")), ("GraphAlg_MC", alg("topo", 3, "WOne", Loops="TRUE"), (), 0.6 if q else 1)] + (
        [] if q else [("GraphAlg_MC", alg("topo", 4, "WOne"), (), 1)])


def todo(rng):
    return [["topo", "kahn", 0], ["topo", "kahn", rng.choice([1, 2, 4])], ["topo", "kahn", 3]]


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    rng = random.Random(N)
    yield case("list", c["n"], c["e"], todo(rng), 0, rng, names=SCHEMES[N % 3], plain=N % 2)


def seeded(tier, rng):
    for j in range(10 if tier == "quick" else 60):      # many vertices
        k, es = big(rng, j, False, [1], dag=True)
        yield case("list", k, es, todo(rng), 0, rng)
    for n in range(30 if tier == "quick" else 300):     # many sources before the same vertices, for the workers to meet in
        k = rng.randrange(5, 10)
        a = rng.randrange(2, k - 1)
        es = [[u, w, 1] for u in range(1, a + 1) for w in range(a + 1, k + 1) if rng.random() < .8]
        yield case("list", k, es, [["topo", "kahn", t] for t in (2, 3, 8)], 0, rng, names=rng.choice(SCHEMES), plain=1)
    for n in range(350 if tier == "quick" else 5000):
        k = rng.randrange(1, 11) if n % 20 else 0
        es = gen(rng, k, False, [1, 0, 4], rng.choice([0.1, 0.25, 0.5, 1]), loops=rng.random() < 0.1, dag=rng.random() < 0.8)
        yield case("list", k, es, todo(rng), 0, rng, names=rng.choice(SCHEMES), plain=rng.randrange(2))
