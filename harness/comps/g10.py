"""G10: queries leave the graph as it was: histories that interleave changes and queries."""
from comps.graph import *
from comps.graphq import QUERIES

MODULE = "Graph_Trace"


def models(tier):
    q = tier == "quick"
    return [("Graph_MC", "VIEW CallView\n" + mc(4, "Refines NoStale", Names="{1, 2, 3}", Start="{1, 2, 3}", Weights="<- W1Set",
             Ops='{"adde", "reme"}', Queries="{0}", Static_="FALSE"), (), 0.15 if q else 1)]


N = 0


def from_model(m):
    """the model's query stands for all of them: each in turn"""
    global N
    c = m["cfg"]
    v = VARIANTS[(0, 1, 0, 1, 0, 2, 0, 3)[N % 8]]
    ops = []
    for o in m["ops"]:
        if o[0] == "query":
            N += 1
            ops.append(["query", N])
        else:
            ops.append(o[:3] + [5] if o[0] == "adde" and N % 4 else o)
    N += 1
    yield scen(v, c["n"], c["n"], ops + [["query", N]], SCHEMES[N % 3])


def seeded(tier, rng):
    for n in range(500 if tier == "quick" else 6000):
        v = VARIANTS[(0, 1, 0, 1, 0, 2, 0, 3)[n % 8]]
        k = rng.choice([2, 3, 4, 5])
        start = rng.sample(range(1, k + 1), k)
        wts = rng.choice([[0, 1, 2], [2, 3, 4], [1, 5, 9], [-1, 2, 3]])
        ops = []
        for o in rand_ops(rng, v, k, rng.choice([5, 10, 16]), start, wts):
            ops.append(o)
            if o[0] == "adde" and rng.random() < 0.5:
                ops.append(["adde", o[2], o[1], o[3]])
            if rng.random() < 0.4:
                ops.append(["query", rng.randrange(len(QUERIES[v]))])
        ops.append(["query", rng.randrange(len(QUERIES[v]))])
        yield scen(v, start, sorted(start), ops, SCHEMES[rng.randrange(3)], rng.randrange(2))


def findings():
    return []
