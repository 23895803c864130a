"""P01: the printed form of every structure."""
import ast
import random
from lib import *

MODULE = "Print_Trace"


def lit(x):
    """a printed literal as nested lists of numbers"""
    if isinstance(x, str):
        if x == "":
            return []
        return lit(ast.literal_eval(x))
    if isinstance(x, (list, tuple)):
        return [lit(y) for y in x]
    return I(x)


def cells(x):
    return [NONE if y == [] else y for y in lit(ast.literal_eval(x))]


def entries(x):
    # the priority of a node is judged elsewhere: only positions, key and data are kept
    return [[lit(y[0]), lit(y[1]), lit(y[-2]), lit(y[-1])] if y != "" else [] for y in ast.literal_eval(x)]


TREES = {"bst": "BinarySearchTree", "avl": "AVLTree", "rb": "RedBlackTree", "splay": "SplayTree", "treap": "Treap", "cart": "CartesianTree"}
LISTS = {"sll": "SinglyLinkedList", "dll": "DoublyLinkedList", "scll": "SinglyCircularLinkedList", "dcll": "DoublyCircularLinkedList"}
VARIANTS = {
    "cells": ["oda", "oda.cpp", "mda"],
    "items": ["doda", "doda.cpp", "stack", "stack.cpp", "deque"],
    "nodes": ["ldeque", "lstack"] + list(LISTS),
    "tree": [t + b for t in TREES for b in ("", ".cpp")],
    "heap": ["h2", "h3", "h4"], "mary": [""],
    "sparse": [""], "segtree": [""], "stab": [""],
}
# which ends a container has
ENDS = {"doda": {"put", "take", "takeleft"}, "stack": {"put", "take"}, "lstack": {"put", "take"}}


def ends(v):
    return ENDS.get(v.split(".")[0], {"put", "putleft", "take", "takeleft"})


class Drv:
    def __init__(self, s):
        import pydatastructs as P
        c, v = s["cfg"], s["v"]
        self.k, (name, _, be) = c["k"], v.partition(".")
        self.name, self.a = name, c["a"]
        kw = {"backend": P.Backend.CPP} if be else {}
        f = {"sum": P.utils.misc_util.summation, "min": P.minimum}.get(c.get("f"))
        A = P.OneDimensionalArray
        if name == "oda":
            self.x = A(int, len(self.a), **kw)
        elif name == "mda":
            self.x = P.MultiDimensionalArray(int, *c["shape"])
            self.shape = c["shape"]
        elif name == "doda":
            self.x = P.DynamicOneDimensionalArray(int, 0, **kw)
        elif name == "stack":
            self.x = P.Stack(implementation="array", **kw)
        elif name == "lstack":
            self.x = P.Stack(implementation="linked_list")
        elif name == "deque":
            self.x = P.Queue(implementation="array", double_ended=True)
        elif name == "ldeque":
            self.x = P.Queue(implementation="linked_list", double_ended=True)
        elif name in LISTS:
            self.x = getattr(P, LISTS[name])()
        elif name in TREES:
            random.seed(repr(s["ops"]))
            self.x = getattr(P.trees, TREES[name])(**kw)
        elif self.k == "heap":
            d = int(name[1])
            kw = {"heap_property": c["f"]}
            self.x = P.BinaryHeap(**kw) if d == 2 else P.TernaryHeap(**kw) if d == 3 else P.DHeap(d=d, **kw)
        elif self.k == "mary":
            self.x = P.MAryTree(*self.a)
        elif self.k == "sparse":
            self.x = P.SparseTable(A(int, list(self.a)), f)
        elif self.k == "segtree":
            self.x = P.ArraySegmentTree(A(int, list(self.a)), f)
        else:
            self.x = P.OneDimensionalSegmentTree([tuple(iv) for iv in self.a])
        if self.k in ("items", "nodes"):
            for i in self.a:
                self.op_put(i)

    def obs(self):
        t = str(self.x)
        if self.k in ("cells", "items"):
            return cells(t)
        if self.k == "tree":
            return entries(t)
        if self.k == "stab":
            return [[lit(a), lit(b), [] if d is None else lit(d), lit(e)] for a, b, d, e in ast.literal_eval(t)]
        return lit(ast.literal_eval(t))

    def op_look(self):
        pass

    def op_set(self, i, v):
        if self.name == "mda":
            at = []
            for n in reversed(self.shape):
                at.insert(0, i % n)
                i //= n
            self.x[tuple(at)] = v
        else:
            self.x[i] = v

    def op_fill(self, v):
        self.x.fill(v)

    def op_put(self, v):
        if self.k == "mary":
            return self.x.tree[self.x.root_idx].add_children(v)
        (self.x.push if "stack" in self.name else self.x.append)(v)

    def op_putleft(self, v):
        self.x.appendleft(v)

    def take(self, left):
        if self.name == "doda":
            at = [i for i in range(self.x.size) if self.x[i] is not None]
            if at:
                self.x.delete(at[0] if left else at[-1])
        elif len(self.x):
            if self.name in LISTS:
                (self.x.popleft if left else self.x.popright)()
            else:
                (self.x.popleft if left else self.x.pop)()

    def op_take(self):
        self.take(False)

    def op_takeleft(self):
        self.take(True)

    def op_insert(self, k, d):
        if self.name == "cart":
            self.x.insert(k, (k * 7 + d) % 5, d)
        else:
            self.x.insert(k, d)

    def op_delete(self, k):
        self.x.delete(k)

    def op_extract(self):
        self.x.extract()

    def op_build(self):
        self.x.build()

    def op_update(self, i, v):
        self.x.update(i, v)


def run(s, events):
    replay(Drv(s), s, events)
    for e in events:
        e["r"] = NONE           # results are judged by the other properties


M = """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Real  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = TRUE  MKeys = {%s}  MaxLen = %d  PKinds = {%s}
INVARIANTS Accepts Rejects EmitScenario
"""


def models(tier):
    q = tier == "quick"
    seqs = '"cells", "items", "nodes", "mary"'
    return [("Print_MC", M % (4 if q else 5, "1", 1, seqs), (), 1 if q else .5),
            ("Print_MC", M % (4 if q else 5, "1, 2, 3", 1, '"tree", "heap"'), (), .5 if q else .2),
            ("Print_MC", M % (1, "1", 5 if q else 7, '"sparse", "stab"'), (), 1),
            ("Print_MC", M % (2 if q else 3, "1", 4, '"segtree"'), (), 1 if q else .3)]


def from_model(m):
    c = m["cfg"]
    for v in VARIANTS[c["k"]]:
        if c["k"] in ("items", "nodes") and not {o[0] for o in m["ops"]} <= ends(v):
            continue
        yield {"v": v, "cfg": dict(c, shape=[len(c["a"])]) if v == "mda" else c, "ops": m["ops"]}


def seeded(tier, rng):
    per = 12 if tier == "quick" else 150
    for k, vs in VARIANTS.items():
        for v in vs:
            for _ in range(per * (1 if v else 4)):
                c, ops, L = {"k": k, "a": []}, [], rng.choice([6, 15, 40])
                if k == "cells":
                    sh = [rng.randrange(1, 4) for _ in range(rng.randrange(1, 4))] if v == "mda" else [rng.randrange(1, 12)]
                    n = 1
                    for d in sh:
                        n *= d
                    c.update(a=[NONE] * n, shape=sh)
                    ops = [["fill", rng.randrange(99)] if rng.random() < .1 else ["set", rng.randrange(n), rng.randrange(99)] for _ in range(L)]
                elif k in ("items", "nodes"):
                    c["a"] = [rng.randrange(99) for _ in range(rng.randrange(6))]
                    up = rng.choice([.4, .6, .75])
                    for _ in range(L):
                        o = rng.choice([e for e in sorted(ends(v)) if e.startswith("put") == (rng.random() < up)] or ["put"])
                        ops.append([o, rng.randrange(99)] if o[0] == "p" else [o])
                elif k == "tree":
                    span = rng.choice([4, 9, 20])
                    pd = rng.choice([.25, .5])
                    ops = [["delete", rng.randrange(span)] if rng.random() < pd else ["insert", rng.randrange(span), rng.randrange(99)] for _ in range(L)]
                elif k == "heap":
                    c["f"] = rng.choice(["min", "max"])
                    fresh = rng.sample(range(200), L)
                    pd = rng.choice([.25, .5])
                    ops = [["extract"] if rng.random() < pd else ["insert", fresh.pop(), rng.randrange(99)] for _ in range(L)]
                elif k == "mary":
                    c["a"] = [rng.randrange(99), rng.randrange(99)]
                    ops = [["put", rng.randrange(99)] for _ in range(rng.randrange(12))]
                elif k == "stab":
                    c["a"] = [sorted([rng.randrange(12), rng.randrange(12)]) for _ in range(rng.randrange(1, 7))]
                    ops = [["look"]]
                else:
                    n = rng.randrange(1, 18)
                    c.update(a=[rng.randrange(-9, 50) for _ in range(n)], f=rng.choice(["sum", "min"]))
                    ops = [["look"]] if k == "sparse" else ([["update", 0, 5]] if rng.random() < .3 else []) + [["build"]] + [
                        ["update", rng.randrange(n), rng.randrange(-9, 50)] for _ in range(8)]
                yield {"v": v, "cfg": c, "ops": ops}
