"""X03: exceptions raised by functions of the caller's, at every consultation in turn."""
import random
from lib import *
from comps import sort as S
from comps.graph import G, SCHEMES

MODULE = "Faults_Trace"

class Fault(Exception):
    pass

class Asked:
    """the caller's function: answers, or raises at the consultation that was chosen"""

    def __init__(self):
        self.m, self.n = 0, 0

    def arm(self, n):
        self.m, self.n = 0, n
        self.exc = Fault("at %d" % n)

    def tick(self):
        self.m += 1
        if self.m == self.n:
            raise self.exc

    def of(self, f):
        def g(*a, **k):
            self.tick()
            return f(*a, **k)
        return g

def item_type(asked):
    """items which are themselves asked how they compare"""
    class It:
        def __init__(self, v):
            self.v = v
    for name in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
        setattr(It, name, asked.of(lambda self, other, f=getattr(int, name): f(self.v, other.v) if isinstance(other, It) else NotImplemented))
    It.__hash__ = None
    return It

class Arrays:
    """v = array / how compared / kind of array / backend of the functions / sorting algorithm"""

    def __init__(self, s, asked):
        import pydatastructs as p
        from pydatastructs.utils.misc_util import Backend
        self.p, self.asked = p, asked
        _, how, kind, be, self.alg = s["v"].split("/")
        cells = s["cfg"]["s"]
        self.dyn = kind.startswith("doda")
        self.kw = {"backend": Backend.CPP} if be == "cpp" else {}
        self.le, self.lt, self.piv = {}, {}, {}
        if how == "items":
            It = item_type(asked)
            self.enc, self.dec = It, lambda y: NONE if y is None else I(y.v)
            C = p.DynamicOneDimensionalArray if self.dyn else p.OneDimensionalArray
            self.a = C(It, len(cells), **({"load_factor": 0.0} if self.dyn else {}))
            for j, c in enumerate(cells):
                if c != NONE:
                    self.a[j] = It(c)
        else:
            self.enc, self.dec = int, lambda y: I(y)
            self.a = S.build(kind, cells)
            if how == "comp":
                self.le, self.lt = {"comp": asked.of(lambda u, v: u <= v)}, {"comp": asked.of(lambda u, v: u < v)}
            else:
                self.piv = {"pick_pivot_element": asked.of(S.PIV["mid"])}

    def obs(self):
        return [self.dec(self.a[j]) for j in range(self.a.size if self.dyn else len(self.a))]

    def op_sort(self, lo, hi):
        kw = dict(self.le, start=lo, end=hi, **self.piv)
        r = S.sort(self.alg, self.a, kw)
        return 1 if r is None or r is self.a else 0

    def op_ordered(self, *_):
        return B(self.p.is_ordered(self.a, **self.lt, **self.kw))

    def op_binary(self, x, _):
        return I(self.p.binary_search(self.a, self.enc(x), **self.lt, **self.kw))

    def op_jump(self, x, _):
        return I(self.p.jump_search(self.a, self.enc(x), **self.lt, **self.kw))

    def op_lower(self, x, _):
        return I(self.p.lower_bound(self.a, self.enc(x), **self.lt))

    def op_upper(self, x, _):
        return I(self.p.upper_bound(self.a, self.enc(x), **self.lt))

    def arranged(self, f):
        found, out = f(self.a, **self.lt)
        self.out = [self.dec(out[j]) for j in range(len(out))]
        return B(found)

    def op_next(self, *_):
        return self.arranged(self.p.next_permutation)

    def op_prev(self, *_):
        return self.arranged(self.p.prev_permutation)

class Trees:
    """v = tree / kind / backend"""
    CLASSES = {"BST": "BinarySearchTree", "AVL": "AVLTree", "RB": "RedBlackTree", "SPLAY": "SplayTree", "TREAP": "Treap", "CART": "CartesianTree"}

    def __init__(self, s, asked):
        import pydatastructs.trees.binary_trees as bt
        from pydatastructs.utils.misc_util import Backend
        _, self.kind, be = s["v"].split("/")
        self.bt, kw = bt, {"backend": Backend.CPP} if be == "cpp" else {}
        if self.kind in ("BST", "AVL", "RB"):
            kw["is_order_statistic"] = True
        self.t = getattr(bt, self.CLASSES[self.kind])(comp=asked.of(lambda a, b: a < b), **kw)
        self.shaken = 0
        for j, x in enumerate(s["cfg"]["s"]):
            self.t.insert(x, *([j * 7 % 5] if self.kind == "CART" else []), x)

    def walk(self, i, pre):
        if i is None:
            return []
        n = self.t.tree[i]
        l, r = self.walk(n.left, pre), self.walk(n.right, pre)
        return [n.key] + l + r if pre else l + [n.key] + r

    def obs(self):
        root = self.t.root_idx
        if self.t.tree[root].key is None:
            return []
        return [I(x) for x in self.walk(root, 0) + self.walk(root, 1)]

    def op_search(self, x, _):
        i = self.t.search(x)
        return 0 if i is None else 1 if self.t.tree[i].key == x else BADV

    def op_lower(self, x, _):
        return I(self.t.lower_bound(x))

    def op_upper(self, x, _):
        return I(self.t.upper_bound(x))

    def op_rank(self, x, _):
        if self.shaken or self.kind not in ("BST", "AVL", "RB"):
            raise Skip()
        return I(self.t.rank(x))

    def op_lca1(self, x, y):
        return I(self.t.lowest_common_ancestor(x, y, 1))

    def op_lca2(self, x, y):
        return I(self.t.lowest_common_ancestor(x, y, 2))

    def op_insert(self, x, _):
        if self.kind != "BST":      # the others consult again while they restructure
            raise Skip()
        self.t.insert(x, x)

    def change(self, f):
        # after a change which failed, a balancing tree is only asked for its keys
        if self.shaken:
            raise Skip()
        self.shaken = 1
        r = f()
        self.shaken = 0
        return r

    def op_put(self, x, _):
        return self.change(lambda: self.t.insert(x, *([x * 7 % 5] if self.kind == "CART" else []), x))

    def op_del(self, x, _):
        r = self.change(lambda: self.t.delete(x))
        return 1 if r is True else I(r)

class Queues:
    """v = queue"""

    def __init__(self, s, asked):
        from pydatastructs import PriorityQueue
        self.q = PriorityQueue(implementation="linked_list", comp=asked.of(lambda u, v: u < v))
        for x in s["cfg"]["s"]:
            self.q.push(x % 1000, x // 1000)

    def obs(self):
        n, out = self.q.items.head, []
        while n is not None:
            out.append(I(n.key * 1000 + n.data))
            n = n.next
        return out

    def op_pop(self, *_):
        return I(self.q.pop())

    def op_peek(self, *_):
        return I(self.q.peek.data)

    def op_look(self, *_):
        return None

class Heaps:
    """v = heap"""

    def __init__(self, s, asked):
        from pydatastructs import PriorityQueue
        self.q = PriorityQueue(implementation="binary_heap", comp=asked.of(lambda u, v: u < v))
        self.shaken = 0
        for x in s["cfg"]["s"]:
            self.q.push(x % 1000, x // 1000)

    def obs(self):
        h = self.q.items
        return sorted(I(h.heap[j].key * 1000 + h.heap[j].data) for j in range(h._last_pos_filled + 1))

    change = Trees.change

    def op_push(self, x, _):
        self.change(lambda: self.q.push(x % 1000, x // 1000))

    def op_pop(self, *_):
        return I(self.change(lambda: self.q.pop()))

class Folds:
    """v = fold / data structure"""

    def __init__(self, s, asked):
        import pydatastructs as p
        from pydatastructs.utils import misc_util as m
        ds = s["v"].split("/")[1]
        self.a = p.OneDimensionalArray(int, list(s["cfg"]["s"]))
        f = asked.of(m.minimum)
        self.q = (p.RangeQueryStatic if ds in ("array", "sparse_table") else p.RangeQueryDynamic)(self.a, f, data_structure=ds.replace("dynamic_", ""))

    def obs(self):
        return [I(self.a[j]) for j in range(len(self.a))]

    def op_query(self, x, y):
        return I(self.q.query(x, y))

class Graphs:
    """v = graph / representation / algorithm"""

    def __init__(self, s, asked):
        _, v, self.alg = s["v"].split("/")
        self.g, self.asked = G(v, SCHEMES[s.get("names", 0)], list(range(1, 5))), asked
        for e in s["cfg"]["s"]:
            self.g.add(e // 10, e % 10, None)

    def obs(self):
        g, nm = self.g.g, lambda i: self.g.names[i - 1]
        return [10 * u + w for u in range(1, 5) for w in range(1, 5) if g.is_adjacent(nm(u), nm(w))]

    def op_visit(self, x, _):
        from pydatastructs import breadth_first_search, breadth_first_search_parallel, depth_first_search
        g, at, op = self.g.g, self.g.names[x - 1], self.asked.of(lambda u, v: True)
        if self.alg == "pbfs":
            breadth_first_search_parallel(g, at, 3, op)
        elif self.alg == "dfs":
            depth_first_search(g, at, op)
        else:
            breadth_first_search(g, at, op, **self.g.kw)

KINDS = {"array": Arrays, "tree": Trees, "queue": Queues, "heap": Heaps, "fold": Folds, "graph": Graphs}

def run(s, events):
    asked = Asked()
    asked.arm(0)
    d = KINDS[s["cfg"]["kind"]](s, asked)

    def observe():
        asked.arm(0)
        return d.obs()
    x, o = call(observe)
    events.append(ev("init", [], x, NONE, {"s": o if not x else [], "m": 0, "p": []}))
    if x:
        return
    for op, a, b, n in s["ops"]:
        asked.arm(n)
        exc, d.out = asked.exc, []
        try:
            r, x = getattr(d, "op_" + op)(a, b), ""
        except Skip:
            continue
        except Exception as e:
            r, x = NONE, "Fault" if e is exc else "AnotherFault" if type(e) is Fault else type(e).__name__
        m = asked.m
        ox, o = call(observe)
        events.append(ev(op, [a, b, n], "OBS:" + ox if ox else x, NONE if x or r is None else r, {"s": o if not ox else [], "m": m, "p": d.out}))
        if ox:
            return

# ---------------------------------------------------------------- scenarios
COMP = [a for a in S.WITH_COMP]
ITEMS = ["heap", "intro", "intro_small", "intro_depth", "merge1", "merge3", "brick", "brick_parallel", "cocktail", "quick", "bubble",
         "selection", "insertion", "shell"]
PIVOT = ["quick", "quick_cpp"]
ARR = ["oda", "doda", "oda_cpp", "doda_cpp"]

def array_variants():
    for j, alg in enumerate(COMP):
        for q, kind in enumerate(ARR):
            yield "array/comp/%s/%s/%s" % (kind, ("py", "cpp")[(j + q) % 2], alg)
    for alg in ITEMS:
        for kind in ARR[:2]:
            yield "array/items/%s/py/%s" % (kind, alg)
    for alg in PIVOT:
        for kind in ARR:
            yield "array/pivot/%s/py/%s" % (kind, alg)

VARIANTS = {
    "array": list(array_variants()),
    "tree": ["tree/%s/%s" % (k, b) for k in Trees.CLASSES for b in ("py", "cpp")],
    "queue": ["queue"],
    "heap": ["heap"],
    "fold": ["fold/" + d for d in ("array", "sparse_table", "dynamic_array", "segment_tree")],
    "graph": ["graph/%s/%s" % (v, a) for v, a in [("list", "bfs"), ("list", "dfs"), ("list", "pbfs"), ("matrix", "bfs"), ("matrix", "dfs"),
                                                  ("matrix", "pbfs"), ("list-cpp", "bfs"), ("matrix-cpp", "bfs")]],
}
PAR = ("merge3", "brick_parallel", "pbfs")
COUNT = {}

def fit(v, cells, ops):
    kind = v.split("/")[0]
    if kind == "array" and v.split("/")[1] == "pivot":
        ops = [o for o in ops if o[0] == "sort"]
    if not ops:
        return []
    return [{"v": v, "cfg": {"kind": kind, "s": cells, "par": 1 if v.rsplit("/", 1)[-1] in PAR else 0}, "ops": ops}]

def model(kind, depth, **c):
    return ("Faults_MC", mc(depth, "NoTrace", "Frame", Kind='"%s"' % kind, **c))

def models(tier):
    q = tier == "quick"
    ms = [("FaultRuns", "SPECIFICATION Spec\nCONSTANTS Way = \"%s\"  Vals = {1, 2, 3}  N = %d\nINVARIANTS NothingLost Whole\n" % (w, 4 if q else 5))
          for w in ("swap", "hole", "merge")]
    return ms + [model("array", 1, Vals="<- V1", MaxLen=4, MaxN=6 if q else 9) + ((), .3 if q else 1),
                 model("array", 2, Vals="{1, 2}", MaxLen=3, MaxN=3) + ((), .2 if q else 1),
                 model("tree", 2, Vals="{1}", MaxLen=3, MaxN=2 if q else 3) + ((), .1 if q else .5),
                 model("queue", 3 if q else 4, Vals="{1, 2}", MaxLen=3, MaxN=3),
                 model("heap", 2 if q else 3, Vals="{1, 2}", MaxLen=4, MaxN=4),
                 model("fold", 2, Vals="{1, 2}", MaxLen=4 if q else 5, MaxN=3) + ((), .3 if q else .5),
                 model("graph", 1 if q else 2, Vals="{1}", MaxLen=3, MaxN=3) + ((), .5 if q else .1)]

def from_model(m):
    kind, cells = m["cfg"]["kind"], m["cfg"]["s"]
    vs = VARIANTS[kind]
    out = []
    for j in range(3 if kind == "array" else 2 if kind == "tree" else 1):
        COUNT[kind] = COUNT.get(kind, -1) + 1
        out += fit(vs[COUNT[kind] % len(vs)], cells, m["ops"])
    return out

def seeded(tier, rng):
    for n in range(900 if tier == "quick" else 9000):
        kind = rng.choice(["array", "array", "array", "tree", "tree", "tree", "queue", "heap", "fold", "graph"])
        v = rng.choice(VARIANTS[kind])
        k = rng.choice([3, 6, 12, 25])
        N = lambda: rng.choice([0, 1, 2, 3, 5, rng.randrange(1, 4 * k)])
        if kind == "array":
            cells = [NONE if rng.random() < .1 else rng.randrange(rng.choice([3, 30])) for _ in range(k)]
            full = NONE not in cells
            ops = [["sort", *sorted(rng.randrange(k) for _ in range(2)), N()] for _ in range(3)]
            if full:
                ops += [[rng.choice(["next", "prev"]), 0, 0, N()] for _ in range(2)]
            rng.shuffle(ops)
            ops += [["ordered", 0, 0, N()], ["sort", 0, k - 1, 0], ["ordered", 0, 0, N()]]
            if full:
                ops += [[rng.choice(["binary", "jump", "lower", "upper"]), rng.randrange(-1, 31), 0, N()] for _ in range(5)]
        elif kind == "tree":
            cells = rng.sample(range(1, 60), k)
            ops = [rng.choice([[o, rng.randrange(61), 0, N()] for o in ("search", "lower", "upper", "rank", "insert", "put", "del")] +
                              [["lca" + str(rng.randrange(1, 3)), rng.choice(cells), rng.choice(cells), N()]] * 2) for _ in range(12)]
        elif kind == "queue":
            cells = [1000 * rng.randrange(9) + j for j in range(k)]
            ops = [[rng.choice(["pop", "peek"]), 0, 0, rng.choice([0, rng.randrange(1, k)])] for _ in range(k)]
        elif kind == "heap":
            cells = [1000 * rng.randrange(9) + j for j in range(k)]
            ops = [rng.choice([["push", 1000 * rng.randrange(9) + k + j, 0], ["pop", 0, 0]]) + [rng.choice([0, 0, rng.randrange(1, 9)])] for j in range(k)]
        elif kind == "fold":
            cells = [rng.randrange(99) for _ in range(k)]
            ops = [["query", *sorted(rng.randrange(k) for _ in range(2)), N()] for _ in range(12)]
        else:
            cells = sorted(rng.sample([10 * u + w for u in range(1, 5) for w in range(1, 5)], rng.randrange(1, 14)))
            ops = [["visit", rng.randrange(1, 5), 0, rng.randrange(0, 5)] for _ in range(4)]
        for s in fit(v, cells, ops):
            if kind == "graph":
                s["names"] = n % 4
            yield s
