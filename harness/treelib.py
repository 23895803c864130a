"""Search trees: one driver for all kinds, shared by the components of T01-T09.
A scenario names the aspects of the tree the property is about (cfg.asp); after every call
the node table of each tree is projected for the specification to judge."""
import ctypes
import random
import zlib
from lib import *

ERR = -777777
KINDS = {"BST": "BinarySearchTree", "AVL": "AVLTree", "RB": "RedBlackTree", "SPLAY": "SplayTree",
         "TREAP": "Treap", "CART": "CartesianTree"}
ORDERS = ("pre_order", "in_order", "post_order", "out_order")


def err(f):
    try:
        return I(f())
    except ValueError:
        return ERR
    except IndexError:
        return BADV


# Keys of a scenario are small numbers; the code is given one of these images of them, always
# freshly made, so that keys which are equal are not the same object.
IMAGES = {
    "num": (lambda k: k, lambda x: x),
    "big": (lambda k: 1000003 * k + 5000, lambda x: (x - 5000) // 1000003 if (x - 5000) % 1000003 == 0 else BADV),
    "str": (lambda k: "k%05d" % (k + 1000), lambda x: int(x[1:]) - 1000),
    "pair": (lambda k: (k // 3, str(k % 3)), lambda x: 3 * x[0] + int(x[1])),
}


class Drv:
    def __init__(self, s):
        import pydatastructs.trees.binary_trees as bt
        self.bt = bt
        c = s["cfg"]
        self.kind, self.asp = c["k"], c["asp"]
        random.seed(repr(s["ops"]))
        self.K, self.back = IMAGES[c.get("km", "num")]
        kw = {}
        self.bkw = {}
        if c.get("be") == "cpp":
            from pydatastructs.utils.misc_util import Backend
            ctypes.CDLL(None).srand(zlib.crc32(repr(s["ops"]).encode()))
            kw["backend"] = Backend.CPP
            self.bkw = {"backend": Backend.CPP}
        if c["os"]:
            kw["is_order_statistic"] = True
        if c["cmp"] == -1:
            kw["comp"] = lambda a, b: a > b
        self.d = Codec(s, ("num", "num", "num", "same", "same", "str"))
        args = c["init"]
        self.trees = [getattr(bt, KINDS[self.kind])(*([self.K(args[0])] + [self.d.enc(x) for x in args[1:]] if args else []), **kw)]
        self.used = {args[0]} if args else set()
        self.s, self.seen = s, 0

    # ---- projection
    def Q(self, x):
        if x is None:
            return NONE
        try:
            return I(self.back(x))
        except (TypeError, ValueError, IndexError):
            return BADV

    def table(self, t):
        T = t.tree
        root = T[t.root_idx]
        live = [] if root.key is None else [i for i in range(len(T)) if T[i] is not None]
        pos = {i: n + 1 for n, i in enumerate(live)}

        def ln(x):
            return 0 if x is None else pos.get(x, BADV)
        return [{"r": 0 if root.key is None else ln(t.root_idx),
                 "n": [[self.Q(T[i].key), self.d.dec(T[i].data), ln(T[i].left), ln(T[i].right), ln(T[i].parent),
                        self.extra(t, i)]
                       for i in live]}]

    def extra(self, t, i):
        if self.kind == "RB":
            return I(t.tree[i].color)
        if self.kind == "AVL":
            return I(t.balance_factor(t.tree[i]))
        if self.kind == "CART":
            return I(t.tree[i].priority)
        if self.kind != "TREAP":
            return 0
        ps = sorted({n.priority for n in (t.tree[j] for j in range(len(t.tree))) if n is not None})
        return ps.index(t.tree[i].priority)

    def obs(self):
        if not self.asp:
            return NONE
        self.seen += 1
        if self.s.get("sparse") and self.seen % 60 and self.s["ops"][self.seen - 2][0] in ("insert", "delete"):
            return [[] for t in self.trees]      # not looked at this time
        return [self.table(t) if t is not None else [] for t in self.trees]

    # ---- calls
    def t(self, w):
        if w > len(self.trees) or self.trees[w - 1] is None:
            raise Skip()
        return self.trees[w - 1]

    def op_insert(self, w, k, d, p):
        t = self.t(w)
        self.used.add(k)
        data = self.d.enc(d)
        return t.insert(self.K(k), p, data) if self.kind == "CART" else t.insert(self.K(k), data)

    def op_delete(self, w, k):
        r = self.t(w).delete(self.K(k))
        return None if r is None else B(r)

    def op_search(self, w, k):
        t = self.t(w)
        i = t.search(self.K(k))
        return [] if i is None else [self.Q(t.tree[i].key), self.d.dec(t.tree[i].data)]

    def op_odd(self, w, what):
        """a call with a key that cannot be compared with those held"""
        t = self.t(w)
        if not self.held(t):
            raise Skip()
        args = {"insert": (2.5, 7) if self.kind == "CART" else (7,)}.get(what, ())
        getattr(t, what)(object(), *args)

    def op_split(self, w, k):
        r = self.t(w).split(self.K(k))
        if r is None:
            return None
        self.trees.append(r)
        return 1

    def op_join(self, w, v):
        t, u = self.t(w), self.t(v)
        if w == v:
            raise Skip()
        t.join(u)
        self.trees[v - 1] = None

    def err(self, f):
        try:
            return self.Q(f())
        except ValueError:
            return ERR
        except IndexError:
            return BADV

    def held(self, t):
        if t.tree[t.root_idx].key is None:
            return []
        return sorted(self.Q(n.key) for n in (t.tree[i] for i in range(len(t.tree))) if n is not None)

    def op_stats(self, w):
        t = self.t(w)
        n = len(self.held(t))
        return [[[k, err(lambda: t.rank(self.K(k)))] for k in sorted(self.used)[:25] + [max(self.used, default=0) + 1]],
                [[i, self.err(lambda: t.select(i).key)] for i in list(range(0, min(n, 25) + 2)) + [n, n + 1]]]

    def op_bounds(self, w):
        t = self.t(w)
        u = sorted(self.used) or [0]
        return [[p, self.Q(t.lower_bound(self.K(p))), self.Q(t.upper_bound(self.K(p)))] for p in sorted({x + e for x in u for e in (-1, 0, 1)})]

    def op_lcas(self, w):
        t = self.t(w)
        h = self.held(t)
        rng = random.Random(len(h))
        ks = h if len(h) < 9 else rng.sample(h, 8)
        ab = [max(self.used, default=0) + 1, min(self.used, default=0) - 1]
        if not h:
            raise Skip()
        K = self.K
        return [[j, k, self.err(lambda: t.lowest_common_ancestor(K(j), K(k), 1)), self.err(lambda: t.lowest_common_ancestor(K(j), K(k), 2))]
                for j, k in [(a, b) for a in ks for b in ks] + [(ab[0], h[0]), (h[0], ab[1])]]

    def op_paths(self, w):
        t = self.t(w)
        r = []
        for k in sorted(self.used | {x + 1 for x in self.used}):
            i, p = t.search(self.K(k), parent=True)
            r.append([k, NONE if p is None else self.Q(t.tree[p].key)])
        return r

    def op_travs(self, w):
        t = self.t(w)
        h = self.held(t)
        if not h:
            raise Skip()
        tr = self.bt.BinaryTreeTraversal(t, **self.bkw)
        starts = h if len(h) < 8 else random.Random(len(h)).sample(h, 6)
        r = []
        root = self.Q(t.tree[t.root_idx].key)
        Q, K = self.Q, self.K
        for o in ORDERS:
            r.append([o, root, [Q(n.key) for n in tr.depth_first_search(order=o)]])
            for k in starts:
                r.append([o, k, [Q(n.key) for n in tr.depth_first_search(order=o, node=t.search(K(k)))]])
        r.append(["bfs", root, [Q(n.key) for n in tr.breadth_first_search()]])
        for k in starts:
            r.append(["bfs", k, [Q(n.key) for n in tr.breadth_first_search(node=t.search(K(k)))]])
        return r


def run(s, events):
    replay(Drv(s), s, events)


SHAPE = """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Inits  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = TRUE  All = TRUE  Kind = "%s"  MKeys = {%s}  MPrios = {%s}
INVARIANTS Content Discipline EmitShape
VIEW ShapeView
"""
SIZES = {"BST": (6, 7), "AVL": (7, 8), "RB": (7, 8), "SPLAY": (5, 6), "TREAP": (4, 5), "CART": (4, 5)}


def make(g, kinds, asp, looks=(), heavy=0, join=False, sample=1, be="", pick=0, few=False):
    """defines run/models/from_model/seeded of a component in its namespace g"""
    state = {"n": 0}

    def scen(kind, ops, os=0, cmp=1, init=()):
        cfg = {"k": kind, "os": os, "cmp": cmp, "init": list(init), "asp": list(asp(kind) if callable(asp) else asp)}
        if be:
            cfg["be"] = be
        km = ("num", "num", "big", "str", "pair")[zlib.crc32(repr(ops).encode()) % 5]
        if km != "num":
            cfg["km"] = km
        return {"v": kind + ("/" + be if be else ""), "cfg": cfg, "ops": ops}

    def models(tier):
        q = tier == "quick"
        r = []
        for kind in kinds:
            if kind == "CART" and "TREAP" in kinds:
                continue
            n = SIZES[kind][0 if q else 1] - (1 if (heavy or few) and q else 0)
            mk = "TREAP" if kind == "CART" else kind
            r.append(("SearchTree_MC", SHAPE % (30, mk, ", ".join(map(str, range(1, n + 1))), "0, 1, 2" if mk == "TREAP" else "0"), (),
                      (sample if q else 1)))
        return r

    def from_model(m):
        """the history that leads to one shape, then each possible next call"""
        state["n"] += 1
        n = state["n"]
        mk = m["ops"]
        kn = m["cfg"]["k"]
        keys = sorted({o[1] for o in mk if o[0] == "insert"})
        held = set()
        pre = []
        for j, o in enumerate(mk):
            if o[0] == "insert":
                pre.append(["insert", 1, o[1], 10 * o[1] + j % 7, o[2]])
                held.add(o[1])
            else:
                pre.append(["delete", 1, o[1]])
                held.discard(o[1])
        top = (keys[-1] if keys else 0) + 1
        nexts = [["delete", 1, k] for k in sorted(held)] + [["insert", 1, k, 100 + k, n % 3] for k in range(1, top + 1)]
        if not looks or "search" in looks:
            nexts.append(["search", 1, n % (top + 1)])
        nexts.append(["delete", 1, top])
        for kind in [k for k in kinds if k == kn or (k == "CART" and kn == "TREAP")]:
            if heavy:
                nx = random.Random(n).sample(nexts, min(len(nexts), 2 + heavy))
            else:
                nx = nexts
            for z in nx:
                if join and kind == "SPLAY" and random.Random(n).random() < .5:
                    yield scen(kind, pre + [["split", 1, z[2]]] + ([["join", 1, 2]] if n % 2 else []))
                cmp = -1 if n % 5 == 0 else 1
                ls = random.Random(n).sample(looks, pick) if pick else looks
                yield scen(kind, pre + [z] + [[l, 1] for l in ls], os=1 if "stats" in ls else (n // 2) % 2, cmp=cmp)

    def seeded(tier, rng):
        per = (90 if tier == "quick" else 1500) // (3 if few else 1)
        for kind in kinds:
            for n in range(3):      # large ones
                span = 300 if n == 2 else 45 if heavy else 90
                ks = list(range(span)) if n == 1 else rng.sample(range(span), span)
                ops = [["insert", 1, k, rng.randrange(50), rng.randrange(1000)] for k in ks]
                ops += [["delete", 1, k] for k in rng.sample(ks, span // 3)]
                yield {**scen(kind, ops + [[l, 1] for l in looks if l != "search"], os=1 if "stats" in looks else n % 2), "sparse": n == 2}
            for n in range(per):
                span = rng.choice([3, 6, 12, 20, 32])
                pd = rng.choice([.2, .4, .5, .6])
                ops = []
                pr = lambda: rng.randrange(rng.choice([2, 5, 50]))
                held = set()
                init = []
                if kind != "CART" and rng.random() < .3:
                    init = [rng.randrange(span), rng.randrange(50)]
                    held.add(init[0])
                mode = rng.choice(["mix", "mix", "build"])
                ks = list(range(span))
                o = rng.choice(["up", "down", "rand"])
                if o == "down":
                    ks.reverse()
                elif o == "rand":
                    rng.shuffle(ks)
                if mode == "build":
                    for k in ks:
                        ops.append(["insert", 1, k, rng.randrange(50), pr()])
                        held.add(k)
                    ds = list(ks)
                    if rng.random() < .6:
                        rng.shuffle(ds)
                    for k in ds[:rng.choice([span // 2, span])]:
                        ops.append(["delete", 1, k])
                    if rng.random() < .4:
                        ops += [["insert", 1, rng.randrange(span), 60, pr()] for _ in range(3)]
                elif join and kind == "SPLAY" and n % 5 < 2:
                    # two trees on either side of a key, up to a few keys on the wrong side of
                    # it and buried below later accesses, joined in either direction
                    rng.shuffle(ks)
                    cut = rng.randrange(span)
                    ops += [["insert", 1, k, rng.randrange(50), 0] for k in ks[:rng.randrange(2, span + 1)]]
                    ops += [["insert", 1, cut, 7, 0], ["split", 1, cut]]
                    for w, side in ((1, [k for k in ks if k <= cut]), (2, [k for k in ks if k > cut])):
                        z = rng.random()
                        if z < .4:
                            ops.append(["insert", w, rng.randrange(span), 8, 0])
                        for _ in range(rng.randrange(5)):
                            if side:
                                ops.append([rng.choice(["insert", "insert", "delete"]), w, rng.choice(side), 9, 0])
                    ops = [o[:3] if o[0] == "delete" else o for o in ops]
                    ops.append(["join"] + rng.choice([[1, 2], [1, 2], [1, 2], [2, 1]]))
                    ops += [[rng.choice(["insert", "delete"]), 1, rng.randrange(span), 70, 0] for _ in range(3)]
                    ops = [o[:3] if o[0] == "delete" else o for o in ops]
                elif join and kind == "SPLAY" and n % 5 == 2:
                    # a tree thinned out is joined to one that is empty or nearly so
                    rng.shuffle(ks)
                    ops += [["insert", 1, k, rng.randrange(50), 0] for k in [-1] + ks] + [["split", 1, -1]]
                    ds = ks if rng.random() < .5 else rng.sample(ks, span)
                    ops += [["delete", 2, k] for k in ds[:rng.randrange(span // 2, span)]]
                    if rng.random() < .7:
                        ops.append(["delete", 1, -1])
                    ops += [["join", 1, 2], ["delete", 1, ds[-1]], ["insert", 1, ds[0], 70, 0]]
                else:
                    nt = 1
                    for _ in range(rng.choice([6, 15, 40])):
                        k = rng.randrange(span)
                        w = rng.randrange(1, nt + 1)
                        if join and kind == "SPLAY" and rng.random() < .25:
                            if rng.random() < .6 and nt < 4:
                                ops.append(["split", w, k])
                                nt += 1
                            elif nt > 1:
                                ops.append(["join", w, rng.randrange(1, nt + 1)])
                        elif rng.random() < pd:
                            ops.append(["delete", w, k])
                        elif rng.random() < .15 and (callable(asp) or "map" in asp) and not heavy:
                            ops.append(["search", w, k])
                        else:
                            ops.append(["insert", w, k, rng.choice([NONE, rng.randrange(50)]) if kind != "CART" or rng.random() < .9 else NONE, pr()])
                if rng.random() < .35:
                    whats = ["insert", "delete", "search"] + (["lower_bound", "upper_bound"] * 2 if "bounds" in looks else []) \
                        + (["rank"] * 2 if "stats" in looks else []) + (["split"] * 2 if join and kind == "SPLAY" else [])
                    for _ in range(rng.randrange(1, 4)):
                        j = rng.randrange(len(ops) + 1)
                        ops.insert(j, ["odd", ops[j - 1][1] if j else 1, rng.choice(whats)])
                every = 1 if len(ops) < 12 else rng.choice([3, 7])
                ls = rng.sample(looks, pick) if pick else looks
                if ls:
                    out = []
                    for j, x in enumerate(ops):
                        out.append(x)
                        if j % every == every - 1 or j == len(ops) - 1:
                            out += [[l, x[1]] for l in ls if l != "search"]
                    ops = out
                yield scen(kind, ops, os=1 if "stats" in ls else rng.randrange(2), cmp=rng.choice([1, 1, 1, -1]), init=init)

    g.update(MODULE="SearchTree_Trace", run=run, models=models, from_model=from_model, seeded=seeded)
