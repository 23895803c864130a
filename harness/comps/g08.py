"""G08: maximum flow."""
from comps.graphq import *

MODULE = "GraphAlg_Trace"


def models(tier):
    q = tier == "quick"
    return [("GraphRuns", runs("flow", 3, "W12")), ("GraphAlg_MC", alg("flow", 3, "W02"), (), 0.2 if q else 1)] + (
        [] if q else [("GraphRuns", runs("flow", 4, "WOne"))])


def todo(n, rng, k):
    out = []
    for _ in range(k):
        s, t = rng.sample(range(1, n + 1), 2)
        out += [["flow", "edmonds_karp", s, t], ["flow", "dinic", s, t]]
    return out


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    rng = random.Random(N)
    yield case(["list", "matrix"][N % 2], c["n"], c["e"], todo(c["n"], rng, 2), 0, rng, names=SCHEMES[N % 3], half=(0, 1, 4)[N // 3 % 3])


def retreat(rng):
    """two early paths share an edge a-b; what comes later enters at b, takes flow back and leaves by a"""
    es = {}
    s, t, a, b = 1, 2, 3, 4
    last = [4]

    def path(u, w, k, c):
        for _ in range(k):
            last[0] += 1
            es[(u, last[0])] = c
            u = last[0]
        es[(u, w)] = c
    c = [rng.randrange(1, 4) for _ in range(2)]
    if rng.random() < 0.5:
        for x in c:
            path(s, a, 1, x)
        path(b, t, 0, sum(c))
    else:
        path(s, a, 0, sum(c))
        for x in c:
            path(b, t, 1, x)
    es[(a, b)] = rng.choice([sum(c), 9])
    path(s, b, rng.randrange(1, 3), rng.randrange(1, sum(c) + 1))
    path(a, t, rng.randrange(2, 4), rng.randrange(1, sum(c) + 1))
    n = last[0]
    for _ in range(rng.choice([0, 0, 1, 2])):
        u, w = rng.sample(range(1, n + 1), 2)
        es.setdefault((u, w), rng.randrange(1, 4))
    p = [0] + rng.sample(range(1, n + 1), n)
    return n, [[p[u], p[w], x] for (u, w), x in es.items()], p[s], p[t]


def seeded(tier, rng):
    for j in range(4 if tier == "quick" else 30):      # many vertices
        k = rng.randrange(11, 14)
        es = gen(rng, k, False, list(range(1, 20)), rng.choice([0.15, 0.25, 0.4]))
        yield case(["list", "matrix"][j % 2], k, es, todo(k, rng, 2), 0, rng)
    for n in range(40 if tier == "quick" else 500):
        k, es, s, t = retreat(rng)
        yield case(["list", "matrix"][n % 2], k, es, [["flow", "edmonds_karp", s, t], ["flow", "dinic", s, t]], 0, rng, half=(1, 0, 4)[n % 3])
    for n in range(600 if tier == "quick" else 9000):
        k = rng.randrange(2, 9)
        wts = rng.choice([[1], [1, 2], [0, 1, 2, 3], list(range(1, 20)), [1, 1000]])
        es = gen(rng, k, rng.random() < 0.2, wts, rng.choice([0.2, 0.35, 0.6, 1]), loops=rng.random() < 0.2, dag=rng.random() < 0.3)
        yield case(["list", "matrix"][n % 2], k, es, todo(k, rng, 2), 0, rng, names=rng.choice(SCHEMES), half=rng.choice([0, 1, 4]))
