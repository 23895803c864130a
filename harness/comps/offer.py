"""X02: what can be asked for by name, on every part of the library."""
import random
from lib import *

MODULE = "Offer_Trace"
NAMES = ["a", "b", "c", "d"]
EDGES = [(0, 1, 3), (0, 2, 1), (2, 1, 1), (1, 3, 2)]


EXPECT = [[[next((c for u, w, c in EDGES if (NAMES[u], NAMES[w]) == (p, q)), NONE) for p in NAMES for q in NAMES], 4]] * 4 + [[1, 2, 3, 4, 6]] * 2


class Drv:
    def __init__(self, s):
        import pydatastructs as P
        import pydatastructs.utils.misc_util as mu
        self.P = P
        self.graphs = {}
        for impl in ("adjacency_list", "adjacency_matrix"):
            for be in ("PYTHON", "CPP"):
                kw = {"backend": P.Backend.CPP} if be == "CPP" else {}
                node = getattr(mu, "AdjacencyListGraphNode" if impl.endswith("list") else "AdjacencyMatrixGraphNode")
                mk = (lambda n, node=node, kw=kw: node(n, 0, **kw)) if be == "CPP" else (lambda n, node=node: node(n))
                g = P.Graph(*[mk(n) for n in NAMES], implementation=impl, **kw)
                for u, w, c in EDGES:
                    g.add_edge(NAMES[u], NAMES[w], c)
                self.graphs[impl, be] = g, mk
        self.trees = {}
        for be in ("PYTHON", "CPP"):
            t = P.BinarySearchTree(backend=getattr(P.Backend, be))
            for k in (4, 2, 6, 1, 3):
                t.insert(k, k)
            self.trees[be] = t

    def obs(self):
        def edges(g):
            r = []
            for u in NAMES:
                for w in NAMES:
                    try:
                        e = g.get_edge(u, w)
                    except KeyError:
                        e = None
                    r.append(NONE if e is None else I(e.value))
            return r
        return [[edges(g), I(g.num_vertices())] for (g, _) in self.graphs.values()] + [
            [I(n.key) for n in self.P.BinaryTreeTraversal(t, **({"backend": self.P.Backend.CPP} if be == "CPP" else {})).depth_first_search(order="in_order")]
            for be, t in self.trees.items()]

    def op_ask(self, e, a, im, be):
        P = self.P
        b = getattr(P.Backend, be)
        A = lambda *xs: P.OneDimensionalArray(int, list(xs), backend=b if be == "CPP" else P.Backend.PYTHON)
        f = getattr(P, e, None)
        g, mk = self.graphs.get((im, "CPP" if be == "CPP" and e in TWO else "PYTHON"), (None, None))
        kw = {"backend": b}
        seen = []

        def visit(*x, **k):
            seen.append(x)
            return True
        if e in ("breadth_first_search", "depth_first_search"):
            f(g, "a", visit, **({} if e[0] == "d" and be == "PYTHON" else kw))
            return int(len(seen) > 2)
        if e == "breadth_first_search_parallel":
            f(g, "a", 2, visit, **({} if be == "PYTHON" else kw))
            return int(len(seen) > 2)
        if e == "minimum_spanning_tree":
            r = f(g, a, **kw)
            return int(r is not None and r.num_vertices() == 4)
        if e == "minimum_spanning_tree_parallel":
            return int(f(g, a, 2, **kw).num_vertices() == 4)
        if e == "strongly_connected_components":
            return int(len(f(g, a, **kw)) == 4)
        if e == "shortest_paths":
            r = f(g, a, "a", **kw)
            return int(r is not None and len(r) == 2 and r[0]["d"] == 4)
        if e == "all_pair_shortest_paths":
            r = f(g, a, **kw)
            return int(len(r) == 2 and r[0]["a"]["d"] == 4)
        if e == "topological_sort":
            return int(list(f(g, a, **kw)) == ["a", "c", "b", "d"])
        if e == "topological_sort_parallel":
            return int(list(f(g, a, 2, **kw)) == ["a", "c", "b", "d"])
        if e == "max_flow":
            return int(f(g, "a", "d", a, **kw) == 2)
        if e == "find_bridges":
            return int(f(g) is not None)
        if e == "Graph":
            g = f(implementation=im, **kw)
            return int(g.num_vertices() == 0)
        if e == "change":
            if a not in ("add_vertex", "remove_vertex"):
                raise NotImplementedError
            if im.endswith("list"):     # allowed: on a graph of its own
                g = P.Graph(mk("a"), mk("b"), implementation=im)
            g.add_vertex(mk("z")) if a == "add_vertex" else g.remove_vertex("b")
            return int(g.num_vertices() == (3 if a == "add_vertex" else 1))
        if e in ("Queue", "Stack"):
            q = f(implementation=im, **kw)
            (q.push if e == "Stack" else q.append)(5)
            r = (q.pop if e == "Stack" else q.popleft)()
            return int((r if im == "array" else r.key) == 5)
        if e == "PriorityQueue":
            q = f(implementation=im, **kw)
            q.push(7, 2)
            q.push(8, 1)
            return int(q.pop() == 8)
        if e in ("RangeQueryStatic", "RangeQueryDynamic"):
            r = f(P.OneDimensionalArray(int, [4, 2, 3]), P.minimum, data_structure=im, **kw)
            return int(r.query(0, 2) == 2)
        if e == "ArraySegmentTree":
            t = f(P.OneDimensionalArray(int, [4, 2, 3]), P.minimum, **({"dimensions": int(a)} if a != "nonesuch" else {"dimensions": a}), **kw)
            t.build()
            return int(t.query(0, 2) == 2)
        if e == "find":
            r = f("abcab", "ab", a, **kw)
            return int([r[i] for i in range(2)] == [0, 3])
        if e == "dfs_order":
            r = P.BinaryTreeTraversal(self.trees[be], **kw).depth_first_search(order=a)
            return int(len(list(r)) == 5)
        if e == "bfs_strategy":
            r = P.BinaryTreeTraversal(self.trees[be], **kw).breadth_first_search(strategy=a)
            return int([n.key for n in r] == [4, 2, 6, 1, 3])
        if e in ("merge_sort_parallel", "brick_sort_parallel"):
            x = A(3, 1, 2)
            f(x, 2, **kw)
            return int([x[i] for i in range(3)] == [1, 2, 3])
        if e.endswith("sort") and e not in ("topological_sort",):
            x = A(3, 1, 2)
            r = f(x, **kw)
            x = x if r is None else r
            return int([x[i] for i in range(3)] == [1, 2, 3])
        if e == "longest_common_subsequence":
            return int(len(f(A(1, 2, 3), A(2, 3), **kw)) == 2)
        if e == "longest_increasing_subsequence":
            return int(len(f(A(3, 1, 2), **kw)) == 2)
        if e == "is_ordered":
            return int(f(A(1, 2, 3), **kw) is True)
        if e in ("upper_bound", "lower_bound", "linear_search", "binary_search", "jump_search"):
            return int(f(A(1, 3, 5), 3, **kw) == (2 if e[0] == "u" else 1))
        if e == "next_permutation":
            return int(f(A(1, 2), **kw)[0] is True)
        if e == "prev_permutation":
            return int(f(A(2, 1), **kw)[0] is True)
        if e == "MultiDimensionalArray":
            return int(f(int, 2, 2, **kw) is not None)
        if e in ("OneDimensionalArray", "DynamicOneDimensionalArray"):
            x = f(int, [7, 8], **kw)
            return int(x[1] == 8)
        if e == "SparseTable":
            return int(f(P.OneDimensionalArray(int, [4, 2, 3]), P.minimum, **kw).query(0, 2) == 2)
        if e == "OneDimensionalSegmentTree":
            return int(f([(1, 2)], **kw) is not None)
        if e == "BinaryIndexedTree":
            return int(f([1, 2, 3], **kw).get_sum(0, 2) == 6)
        if e == "CartesianTree":
            t = f(**kw)
            t.insert(1, 1, 1)
            return int(t.search(1) is not None)
        return int(f(**kw) is not None)


TWO = {"breadth_first_search", "minimum_spanning_tree", "shortest_paths"}


def run(s, events):
    replay(Drv(s), s, events)


POOL = []


def from_model(m):
    POOL.append(m["ops"][0])
    yield {"v": "", "cfg": {"o": EXPECT}, "ops": [m["ops"][0]]}


def models(tier):
    return [("Offer_MC", mc(1, "Consistent Decided"), (), 1)]


def seeded(tier, rng):
    for _ in range(60 if tier == "quick" else 600):
        yield {"v": "", "cfg": {"o": EXPECT}, "ops": [rng.choice(POOL) for _ in range(12)]}
