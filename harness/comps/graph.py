"""G01: graphs as a data type, all representations and backends.  Vertices are numbers on
the specification's side; `names` gives the strings the code sees."""
from lib import *

MODULE = "Graph_Trace"
VARIANTS = ["list", "matrix", "list-cpp", "matrix-cpp"]
SCHEMES = [["a", "b", "c", "d", "e", "f", "g", "h"],
           ["v_1", "v_2", "v_3", "v_4", "v_5", "v_6", "v_7", "v_8"],
           ["10", "2", "0", "-1", "x y", "V", "v", "\u00e9"],
           ["_", "a_", "b", "n0", "n1", "n2", "n10", "n11"]]


class Names(list):
    """names of which no two uses are the same object"""
    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        return Names(r) if isinstance(i, slice) else "".join(list(r))


class G:
    """a real graph together with the translation of names and weights"""

    def __init__(self, v, names, start, half=0, linked=()):
        import pydatastructs.utils.misc_util as mu
        from pydatastructs import Graph, Backend
        self.impl, self.cpp = v.split("-")[0], v.endswith("cpp")
        self.kw = {"backend": Backend.CPP} if self.cpp else {}
        self.node = getattr(mu, "AdjacencyListGraphNode" if self.impl == "list" else "AdjacencyMatrixGraphNode")
        self.names, self.half = Names(names), half
        self.much = 10 ** 11 if self.cpp else 10 ** 25
        self.ids = {n: i + 1 for i, n in enumerate(names)}
        # vertices may be made with their neighbours, which must be there before them
        self.v = {}
        for i in reversed(start):
            self.v[i] = self.mk(i, [self.v[w] for u, w in linked if u == i])
        self.g = Graph(*[self.v[i] for i in start], implementation="adjacency_" + self.impl, **self.kw)

    def mk(self, i, near=()):
        # C++ nodes carry data too; its value plays no part here
        if near:
            return self.node(self.names[i - 1], 0, list(near), **self.kw)
        return self.node(self.names[i - 1], 0, **self.kw) if self.cpp else self.node(self.names[i - 1])

    def w(self, c):
        if c is None or c == NONE:
            return None
        if self.half == 2:              # beyond what a double holds
            return 2 ** 60 + c
        if self.half == 3:
            return "w%d" % c
        if self.half == 4:              # more than any number taken for infinity
            return c * self.much
        return c if not self.half else c // 2 if c % 2 == 0 else c / 2

    def unw(self, x):
        if x is None:
            return NONE
        if self.half == 2:
            return I(x - 2 ** 60) if type(x) is int else BADV
        if self.half == 3:
            return int(x[1:]) if type(x) is str and x[:1] == "w" else BADV
        if self.half == 4 and not isinstance(x, (bool, str)) and abs(x) < float("inf"):
            return I(int(x) // self.much) if x == int(x) and int(x) % self.much == 0 else BADV
        if not self.half or self.half == 4 or isinstance(x, bool):
            return I(x)
        return I(x * 2) if isinstance(x, (int, float)) else BADV

    def id(self, name):
        return self.ids.get(name, BADV) if isinstance(name, str) else BADV

    def add(self, u, w, c):
        n = self.names
        if c is None or c == NONE:
            return self.g.add_edge(n[u - 1], n[w - 1])
        return self.g.add_edge(n[u - 1], n[w - 1], self.w(c))


class Drv:
    def __init__(self, s):
        c = s["cfg"]
        self.p = c["p"]
        self.G = G(s["v"], s["names"], c["n"], s.get("half", 0), c.get("e", ()))
        self.g, self.names = self.G.g, self.G.names

    def op_addv(self, u):
        x = self.G.mk(u)
        self.g.add_vertex(x)
        self.G.v.setdefault(u, x)

    def op_addvl(self, u, *ws):
        x = self.G.mk(u, [self.G.v[w] for w in ws])
        self.g.add_vertex(x)
        self.G.v.setdefault(u, x)

    def op_remv(self, u):
        self.g.remove_vertex(self.names[u - 1])
        self.G.v.pop(u, None)

    def op_adde(self, u, w, c):
        self.G.add(u, w, c)

    def op_badcost(self, u, w):
        self.g.add_edge(self.names[u - 1], self.names[w - 1], [1])

    def op_reme(self, u, w):
        self.g.remove_edge(self.names[u - 1], self.names[w - 1])

    def op_query(self, q):
        from comps.graphq import ask
        return [ask(self.G, q), ask(self.G, q)]

    def ask(self, f):
        try:
            return f()
        except (KeyError, AttributeError, ValueError):
            return -1

    def obs(self):
        g, n, G = self.g, self.names, self.G
        nm = lambda i: n[i - 1]
        pairs = [(u, w) for u in self.p for w in self.p]

        def edge(u, w):
            e = self.ask(lambda: g.get_edge(nm(u), nm(w)))
            if e is None or e == -1:
                return [u, w, NONE if e is None else -1]
            if not G.cpp:
                ends.append([u, w, G.id(e.source.name), G.id(e.target.name)])
            return [u, w, G.unw(e.value)]

        def nbs(u):
            r = self.ask(lambda: g.neighbors(nm(u)))
            return [u, [-1] if r == -1 else [G.id(x.name) for x in r]]
        ends = []
        return {"nv": I(g.num_vertices()), "ne": I(g.num_edges()),
                "vs": [NONE] if G.cpp else [G.id(x) for x in g.vertices],
                "adj": [[u, w, -1 if a == -1 and a is not True else B(a)] for u, w in pairs
                        for a in [self.ask(lambda: g.is_adjacent(nm(u), nm(w)))]],
                "nb": [nbs(u) for u in self.p],
                "ed": [edge(u, w) for u, w in pairs], "ends": ends}


def run(s, events):
    replay(Drv(s), s, events)


def scen(v, start, probe, ops, names, half=0, linked=()):
    m = v.startswith("matrix")
    return {"v": v, "cfg": {"n": start, "p": probe, "m": int(m), "e": [list(p) for p in linked]}, "ops": ops, "names": names, "half": half}


def models(tier):
    q = tier == "quick"
    alls = '{"addv", "remv", "adde", "reme"}'
    view = "VIEW CallView\n"
    base = dict(Queries="{}")
    grow = '{"addv", "addvl", "remv", "adde", "reme"}'
    return [("Graph_MC", view + mc(3 if q else 4, "Refines NoStale", Names="{1, 2, 3}", Start="{1, 2}", Weights="<- W1Set", Ops=grow, Static_="FALSE", **base), (), 1 if q else 0.3),
            ("Graph_MC", view + mc(4 if q else 5, "Refines NoStale", Names="{1, 2, 3}", Start="{1, 2}", Weights="<- W1Set", Ops=alls, Static_="FALSE", **base), (), 0.25 if q else 0.25),
            ("Graph_MC", view + mc(5 if q else 6, "Refines NoStale", Names="{1, 2}", Start="{1, 2}", Weights="<- WSet", Ops=alls, Static_="FALSE", **base), (), 0.5),
            ("Graph_MC", view + mc(4 if q else 5, "Refines NoStale", Names="{1, 2, 3}", Start="{1, 2}", Weights="<- WSet", Ops='{"adde", "reme"}', Static_="TRUE", **base), (), 0.25 if q else 0.2)]


N = 0


def from_model(m):
    global N
    N += 1
    c = m["cfg"]
    probe = sorted(set(c["n"]) | {x for o in m["ops"] for x in o[1:3]} - {NONE}) if 0 else [1, 2, 3]
    static = c["m"] == 1
    vs = ["matrix", "matrix-cpp"] if static else ["list", "list-cpp"]
    yield scen(vs[N % 2], c["n"], probe, m["ops"], SCHEMES[(N // 2) % 4])


def rand_ops(rng, v, n, k, start, wts):
    ops, edges, held = [], [], set(start)
    dyn = v.startswith("list")
    for _ in range(k):
        o = rng.choices(["addv", "remv", "adde", "reme", "badcost"], (1.2 if dyn else 0.02, 0.9 if dyn else 0.02, 6, 3, .3 if v.endswith("cpp") else 0))[0]
        if o in ("addv", "remv"):
            u = rng.randrange(1, n + 1)
            if o == "addv" and dyn and held and rng.random() < .4:
                ws = rng.sample(sorted(held), rng.randrange(1, len(held) + 1))
                edges += [(u, w) for w in ws]
                ops.append(["addvl", u, *ws])
            else:
                ops.append([o, u])
            if dyn:
                (held.add if o == "addv" else held.discard)(u)
        elif o == "reme":
            u, w = edges[rng.randrange(len(edges))] if edges and rng.random() < 0.8 else (rng.randrange(1, n + 1), rng.randrange(1, n + 1))
            ops.append([o, u, w])
        else:
            u, w = edges[rng.randrange(len(edges))] if edges and rng.random() < 0.25 else (rng.randrange(1, n + 1), rng.randrange(1, n + 1))
            ops.append([o, u, w] + ([rng.choice(wts)] if o == "adde" else []))
            edges.append((u, w))
    return ops


def seeded(tier, rng):
    for n in range(700 if tier == "quick" else 10000):
        v = VARIANTS[n % 4]
        m = rng.choice([2, 3, 4, 6])
        start = sorted(rng.sample(range(1, m + 1), m if v.startswith("matrix") and rng.random() < 0.8 else rng.randrange(0 if v != "matrix" else 1, m + 1)))
        rng.shuffle(start)
        wts = rng.choice([[NONE], [NONE, 0, 1, -3], [2, 3, 4], [0], [NONE, 7, -7, 1000000]])
        pairs = [(u, w) for a, u in enumerate(start) for w in start[a + 1:]]
        linked = rng.sample(pairs, rng.randrange(len(pairs) + 1)) if v.startswith("list") and rng.random() < .4 else []
        yield scen(v, start, list(range(1, m + 1)), rand_ops(rng, v, m, rng.choice([6, 15, 35]), start, wts),
                   SCHEMES[rng.randrange(4)], rng.choice([0, 0, 1, 1, 2, 3]), linked)


def findings():
    for v in ("list", "matrix"):
        # the key of an edge is source + "_" + target
        yield dict(scen(v, [1, 2, 3, 4], [1, 2, 3, 4], [["adde", 1, 2, 5], ["adde", 3, 4, 7]], ["a", "b_c", "a_b", "c"]), finding="underscore")
        # vertices are stored as attributes of the graph (and of their neighbours)
        for a in ("vertices", "edge_weights", "neighbors") + (("data", "adjacent", "name") if v == "list" else ("matrix",)):
            yield dict(scen(v, [1, 2], [1, 2], [["adde", 1, 2, 5], ["adde", 2, 1, 7]], ["x", a]), finding="attribute")
