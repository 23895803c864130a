"""G02-G10: the graph algorithms on the real code."""
import json, random, sys, time
from comps.graph import G, SCHEMES
from lib import *

sys.setswitchinterval(1e-5)      # let the worker threads of the parallel algorithms interleave


def build(s, v):
    """the graph of s; with `ghost`, by way of vertices and edges that are removed again"""
    c = s["cfg"]
    n, names = c["n"], s["names"]
    order = s.get("order") or list(range(1, n + 1))
    rng = random.Random(s.get("ghost"))
    ghost = s.get("ghost") and v.startswith("list")
    if ghost:
        names = names[:n] + ["ghost"]
        order = order[:]
        order.insert(rng.randrange(n + 1), n + 1)
    g = G(v, names, order, s.get("half", 0))
    at = rng.randrange(len(c["e"]) + 1)
    have = {(u, w) for u, w, _ in c["e"]}

    def detour():
        tmp = [(rng.randrange(1, n + 1), rng.randrange(1, n + 1)) for _ in range(2)]
        tmp = [p for p in dict.fromkeys(tmp) if p not in have]
        if ghost:
            tmp += [(n + 1, rng.randrange(1, n + 1)), (rng.randrange(1, n + 1), n + 1)]
        for u, w in tmp:
            g.add(u, w, None if s.get("plain") else 1)
        for u, w in tmp:
            if max(u, w) <= n:
                g.g.remove_edge(names[u - 1], names[w - 1])
        if ghost:
            g.g.remove_vertex("ghost")
            g.names = names[:n]
            del g.ids["ghost"]
    for j, (u, w, x) in enumerate(s.get("eorder") or c["e"]):
        if j == at and s.get("ghost"):
            detour()
        g.add(u, w, None if s.get("plain") else x)
    if at == len(c["e"]) and s.get("ghost"):
        detour()
    return g


# ------------------------------------------------------------------ the algorithms
def walk(g, alg, src, stop, threads, note):
    """runs a traversal; note(from, to, answer) is called for every visit"""
    from pydatastructs import breadth_first_search, breadth_first_search_parallel, depth_first_search
    name = (lambda x: x if isinstance(x, str) else x.name) if g.cpp else (lambda x: x)
    left = [stop]
    busy = unruly((alg, src, stop, threads, g.ids), 2 if alg == "pbfs" else 10 ** 10)

    def op(cur, nxt, *a, **k):
        left[0] -= 1
        c, n = name(cur), name(nxt)
        ok = a == ("x", 7) and k == ({} if g.cpp else {"flag": 5})
        r = left[0] != 0
        if busy.on and left[0] % 3:
            time.sleep(2e-4)
        note(g.id(c), 0 if n == "" else g.id(n) if ok else BADV, r)
        return r
    start = g.names[src - 1]
    if g.cpp:
        return breadth_first_search(g.g, start, op, "x", 7, **g.kw)
    if alg == "bfs":
        return breadth_first_search(g.g, start, op, "x", 7, flag=5)
    if alg == "dfs":
        return depth_first_search(g.g, start, op, "x", 7, flag=5)
    with busy:
        return breadth_first_search_parallel(g.g, start, threads, op, "x", 7, flag=5)


def mst(g, alg, threads):
    from pydatastructs import minimum_spanning_tree, minimum_spanning_tree_parallel
    if threads:
        with unruly((threads, g.names), 8):
            return minimum_spanning_tree_parallel(g.g, alg, threads)
    return minimum_spanning_tree(g.g, alg, **g.kw)


def tree_of(g, m, n):
    nm = lambda i: g.names[i - 1]
    ed = []
    for u in range(1, n + 1):
        for w in range(1, n + 1):
            try:
                x = m.get_edge(nm(u), nm(w))
            except (KeyError, AttributeError):
                x = None
            if x is not None:
                ed.append([u, w, g.unw(x.value)])

    def nbs(u):
        try:
            return [g.id(x.name) for x in m.neighbors(nm(u))]
        except (KeyError, AttributeError):
            return [BADV]
    return {"nv": I(m.num_vertices()), "ne": I(m.num_edges()), "nb": [[u, nbs(u)] for u in range(1, n + 1)], "ed": ed}


def row(g, n, d, f, absent):
    return [f(d[g.names[i - 1]]) if g.names[i - 1] in d else absent for i in range(1, n + 1)]


def pre(g):
    return lambda x: 0 if x is None else g.id(x)


def sp(g, n, alg, src, t):
    from pydatastructs import shortest_paths
    nm = lambda i: g.names[i - 1]
    d, p = shortest_paths(g.g, alg, nm(src), nm(t), **g.kw) if t else shortest_paths(g.g, alg, nm(src), **g.kw)
    return [[g.unw(d)] if t else row(g, n, d, g.unw, BADV), row(g, n, p, pre(g), BADV)]


def apsp(g, n, alg):
    from pydatastructs import all_pair_shortest_paths
    d, p = all_pair_shortest_paths(g.g, alg)
    nm = lambda i: g.names[i - 1]
    return [[row(g, n, d[nm(u)], g.unw, LIM) for u in range(1, n + 1)],
            [row(g, n, p[nm(u)], pre(g), 0) for u in range(1, n + 1)]]


def topo(g, threads):
    from pydatastructs import topological_sort, topological_sort_parallel
    if threads:
        with unruly((threads, g.names), 2):
            r = topological_sort_parallel(g.g, "kahn", threads)
    else:
        r = topological_sort(g.g, "kahn")
    return [g.id(x) for x in r]


def scc(g, alg):
    from pydatastructs import strongly_connected_components
    return [sorted(g.id(x) for x in c) for c in strongly_connected_components(g.g, alg)]


def flow(g, alg, src, t):
    from pydatastructs import max_flow
    return g.unw(max_flow(g.g, g.names[src - 1], g.names[t - 1], alg))


def bridges(g):
    from pydatastructs import find_bridges
    return [[g.id(a), g.id(b)] for a, b in find_bridges(g.g)]


# ------------------------------------------------------------------ one query, as a canonical answer (G10)
QUERIES = {"list": ["bfs", "pbfs", "dfs", "kruskal", "prim", "pkruskal", "pprim", "kosaraju", "tarjan", "bellman_ford", "dijkstra",
                    "floyd_warshall", "johnson", "kahn", "pkahn", "edmonds_karp", "dinic", "bridges"],
           "matrix": ["bfs", "pbfs", "dfs", "kruskal", "pkruskal", "kosaraju", "tarjan", "bellman_ford", "dijkstra",
                      "floyd_warshall", "edmonds_karp", "dinic", "bridges"],
           "list-cpp": ["bfs", "prim", "dijkstra"], "matrix-cpp": ["bfs"]}


def ask(g, q):
    """the answer to query number q (modulo those offered), as a string; trees handed out are then spoilt"""
    qs = QUERIES[g.impl + ("-cpp" if g.cpp else "")]
    q = qs[q % len(qs)]
    n = len(g.names)
    here = [i for i in range(1, n + 1) if has(g, i)]
    if not here:
        return "nothing"
    s, t = here[0], here[-1]
    spoil = None
    try:
        if q in ("bfs", "pbfs", "dfs"):
            vis = []
            walk(g, q, s, 0, 2, lambda a, b, r: vis.append([a, b]))
            r = sorted(vis) if q == "pbfs" else vis
        elif q.endswith(("kruskal", "prim")):
            spoil = mst(g, q[1:] if q[0] == "p" and q != "prim" else q, 2 if q[0] == "p" and q != "prim" else 0)
            r = tree_of(g, spoil, n)
        elif q in ("kosaraju", "tarjan"):
            r = sorted(scc(g, q))
        elif q in ("bellman_ford", "dijkstra"):
            r = sp(g, n, q, s, 0)
        elif q in ("floyd_warshall", "johnson"):
            r = apsp(g, n, q)
        elif q in ("kahn", "pkahn"):
            r = topo(g, 3 if q == "pkahn" else 0)
        elif q in ("edmonds_karp", "dinic"):
            r = flow(g, q, s, t) if s != t else 0
        else:
            r = sorted(bridges(g))
    except Exception as e:
        r = type(e).__name__
    if spoil is not None:
        def heavier(u, w):
            spoil.get_edge(u, w).value += 40
        for f in (heavier, lambda u, w: spoil.remove_edge(u, w), lambda u, w: spoil.add_edge(u, w, 77)):
            for u in here:
                for w in here:
                    try:
                        f(g.names[u - 1], g.names[w - 1])
                    except Exception:
                        pass
    return json.dumps(r)


def has(g, i):
    if not g.cpp:
        return g.names[i - 1] in g.g.vertices
    try:
        g.g.neighbors(g.names[i - 1])
        return True
    except KeyError:
        return False


# ------------------------------------------------------------------ scenarios of one algorithm family
def run(s, events):
    """s: v, cfg (n, e, und), names, todo: the runs, each on a fresh graph"""
    n = s["cfg"]["n"]
    for job in s["todo"]:
        kind, alg, *a = job
        if kind == "walk":
            src, stop, threads = a
            events.append(ev("begin", [src, int(alg != "dfs"), int(alg == "pbfs"), alg]))
            g = build(s, s["v"])
            x, _ = call(lambda: walk(g, alg, src, stop, threads, lambda c, w, r: events.append(ev("visit", [c, w, int(r)]))))
            events.append(ev("end", [], x))
            continue
        g = build(s, s["v"])
        if kind == "mst":
            x, r = call(lambda: tree_of(g, mst(g, alg, a[0]), n))
        elif kind == "sp":
            x, r = call(lambda: sp(g, n, alg, *a))
        elif kind == "apsp":
            x, r = call(lambda: apsp(g, n, alg))
        elif kind == "topo":
            x, r = call(lambda: topo(g, a[0]))
        elif kind == "scc":
            x, r = call(lambda: scc(g, alg))
        elif kind == "flow":
            x, r = call(lambda: flow(g, alg, *a))
        else:
            x, r = call(lambda: bridges(g))
        events.append(ev(kind, [alg] + a, x, NONE if x else r))


def case(v, n, edges, todo, und, rng=None, half=0, names=None, plain=0):
    s = {"v": v, "cfg": {"n": n, "e": edges, "und": und}, "todo": todo, "half": half, "plain": plain,
         "names": (names or SCHEMES[0])[:n] if n <= 8 else ["n%d" % i for i in range(n)]}
    if rng:
        s["order"] = rng.sample(range(1, n + 1), n)
        s["eorder"] = rng.sample(edges, len(edges))
        s["ghost"] = 0 if n == 0 else rng.choice([0, 0, rng.randrange(1, 10 ** 6)])
    return s


# weights "steps": the more edges a path takes the cheaper it is, so distances improve again and again
def gen(rng, n, und, wts, p, loops=False, connected=False, dag=False):
    es = {}
    perm = rng.sample(range(1, n + 1), n)
    if connected:
        for j in range(1, n):
            u, w = perm[j], perm[rng.randrange(j)]
            es[(u, w)] = es[(w, u)] = rng.choice(wts)
    for a in range(n):
        for b in range(n):
            u, w = perm[a], perm[b]
            if (u == w and not loops) or (und and b < a) or (dag and b <= a) or rng.random() > p or (u, w) in es:
                continue
            es[(u, w)] = rng.choice(wts) if wts != "steps" else abs(a - b) * (abs(a - b) + 1) + rng.randrange(3) + 3 * (b < a)
            if und:
                es[(w, u)] = es[(u, w)]
    return [[u, w, x] for (u, w), x in es.items()]


def big(rng, j, und, wts, **kw):
    """many vertices: a chain, a star, a ring with chords, a ladder, or no shape at all"""
    n = rng.choice([17, 20, 24, 33])
    ps = [[(a, a + 1) for a in range(1, n)], [(1, a) for a in range(2, n + 1)], [(a, a % n + 1) for a in range(1, n + 1)] + [(1, n // 2), (5, n - 3)],
          [(a, a + d) for d in (1, 2) for a in range(1, n - d + 1) if d == 2 or a % 2]]
    if j % 5 == 4:
        return n, gen(rng, n, und, wts, rng.choice([0.06, 0.1, 0.2]), **kw)
    perm = [0] + (list(range(n + 1))[1:] if rng.random() < .4 else rng.sample(range(1, n + 1), n))
    es = {}
    for a, b in ps[j % 5]:
        x = rng.choice(wts)
        es[perm[a], perm[b]] = x
        if und:
            es[perm[b], perm[a]] = x
    return n, [[u, w, x] for (u, w), x in es.items()]


def negcycle(n, es):
    d = [0] * (n + 1)
    for _ in range(n + 1):
        if not any([d[u] + x < d[w] and not d.__setitem__(w, d[u] + x) for u, w, x in es]):
            return False
    return True


# ------------------------------------------------------------------ models
def alg(kind, n, wts, Und="FALSE", Loops="FALSE"):
    return mc(1, "Lemma", Kind='"%s"' % kind, N=n, Weights="<- " + wts, Und=Und, Loops=Loops)


def runs(name, n, wts, Und="FALSE", live=True):
    return """SPECIFICATION Spec
CONSTANTS Alg = "%s"  N = %d  Weights <- %s  Und = %s
INVARIANTS EndsRight Safe
%s""" % (name, n, wts, Und, "PROPERTIES Halts\n" if live else "")
