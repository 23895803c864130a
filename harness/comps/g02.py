"""G02: traversals."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"
ALGS = {"list": ["bfs", "pbfs", "dfs"], "matrix": ["bfs", "pbfs", "dfs"], "list-cpp": ["bfs"], "matrix-cpp": ["bfs"]}
VS = ["list", "matrix", "list-cpp", "matrix-cpp"]


def models(tier):
    q = tier == "quick"
    ms = [("GraphRuns", runs("walk", 3 if q else 4, "WOne")),
          ("GraphAlg_MC", alg("walk", 3, "WOne", Loops="TRUE"), (), 0.5 if q else 1)]
    return ms if q else ms + [("GraphAlg_MC", alg("walk", 4, "WOne"), (), 1)]


def todo(v, n, rng, srcs):
    for s in srcs:
        for a in ALGS[v]:
            yield ["walk", a, s, rng.choice([0, 0, 1, 2, 3, 5, rng.randrange(1, 2 * n + 1)]), rng.choice([1, 2, 3, 8])]


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    v = VS[N % 4]
    rng = random.Random(N)
    yield case(v, c["n"], c["e"], list(todo(v, c["n"], rng, range(1, c["n"] + 1))), 0, rng, names=SCHEMES[N % 3], plain=1)


def seeded(tier, rng):
    for j in range(10 if tier == "quick" else 60):      # many vertices
        v = VS[j % 4]
        k, es = big(rng, j, j % 3 == 0, [1], loops=True)
        yield case(v, k, es, [["walk", a, rng.choice([1, rng.randrange(1, k + 1)]), rng.choice([0, 0, k // 2, k + 1]), rng.choice([1, 3, 8])] for a in ALGS[v]], 0, rng)
    for n in range(30 if tier == "quick" else 300):     # layers whose vertices share their successors, for the workers to meet in
        k = rng.randrange(5, 9)
        a = rng.randrange(2, k - 2)
        es = [[1, w, 1] for w in range(2, a + 2)] + [[u, w, 1] for u in range(2, a + 2) for w in range(a + 2, k + 1) if rng.random() < .8]
        yield case(VS[n % 2], k, es, [["walk", "pbfs", 1, rng.choice([0, 0, 0, k]), t] for t in (2, 3, 8)], 0, rng, names=rng.choice(SCHEMES), plain=1)
    for n in range(40 if tier == "quick" else 600):     # trees, stopped after each visit in turn: inner vertices and dead ends
        k = rng.randrange(2, 9)
        es = [[rng.randrange(max(1, w - 3), w), w, 1] for w in range(2, k + 1)]
        es += [e for e in [[rng.randrange(1, k + 1), rng.randrange(1, k + 1), 1]] if e[:2] not in [x[:2] for x in es]]
        for v in VS:
            yield case(v, k, es, [["walk", a, 1, st, 2] for a in ALGS[v] for st in range(1, 2 * k, 2 if v[4:] == "-cpp" else 1)
                                  if n % 4 == st % 4 or a != "pbfs"], 0, rng, names=rng.choice(SCHEMES), plain=1)
    for n in range(260 if tier == "quick" else 4000):
        v = VS[n % 4]
        k = rng.randrange(1, 9)
        es = gen(rng, k, rng.random() < 0.4, [1], rng.choice([0.1, 0.2, 0.35, 0.7]), loops=rng.random() < 0.4, dag=rng.random() < 0.2)
        yield case(v, k, es, list(todo(v, k, rng, rng.sample(range(1, k + 1), min(k, 2)))), 0, rng, names=rng.choice(SCHEMES), plain=rng.randrange(2))
