"""G04: single-source shortest paths."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"
VS = ["list", "matrix", "list-cpp"]


def models(tier):
    q = tier == "quick"
    ms = [("GraphRuns", runs("dijkstra", 3, "W12" if q else "W02")),
          ("GraphAlg_MC", alg("sp", 3, "W12"), (), 0.6 if q else 1),
          ("GraphAlg_MC", alg("sp", 3, "WNeg"), (), 0.12 if q else 1)]
    return ms


def todo(v, n, es, rng, srcs):
    neg = any(e[2] < 0 for e in es)
    out = []
    for s in srcs:
        t = rng.choice([0, 0, rng.randrange(1, n + 1)])
        if v != "list-cpp":
            out.append(["sp", "bellman_ford", s, t])
        if not neg:
            out.append(["sp", "dijkstra", s, t])
    return out


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    rng = random.Random(N)
    v = VS[N % (2 if any(e[2] < 0 for e in c["e"]) else 3)]
    yield case(v, c["n"], c["e"], todo(v, c["n"], c["e"], rng, range(1, c["n"] + 1)), 0, rng, names=SCHEMES[N % 3], half=(0, 1, 4)[N // 3 % 3])


def seeded(tier, rng):
    for j in range(10 if tier == "quick" else 60):      # many vertices
        v = VS[j % 3]
        k, es = big(rng, j, j % 2, list(range(j % 4, 100)))
        yield case(v, k, es, todo(v, k, es, rng, [1, rng.randrange(1, k + 1)]), 0, rng)
    for n in range(500 if tier == "quick" else 8000):
        v = VS[n % 3]
        k = rng.randrange(1, 9)
        wts = rng.choice([[1], [0, 1, 2], list(range(30)), list(range(1, 1000))] + ([[-1, 0, 1, 2, 3], list(range(-3, 12)), list(range(-1, 20))] if v != "list-cpp" else []))
        if rng.random() < 0.25:
            es = gen(rng, k, False, "steps", rng.choice([0.6, 0.9, 1]))
        else:
            es = gen(rng, k, rng.random() < 0.2 and min(wts) >= 0, wts, rng.choice([0.15, 0.3, 0.6, 1]), loops=rng.random() < 0.2, dag=rng.random() < 0.2)
        yield case(v, k, es, todo(v, k, es, rng, rng.sample(range(1, k + 1), min(k, 3))), 0, rng, names=rng.choice(SCHEMES), half=rng.choice([0, 1, 4]))
