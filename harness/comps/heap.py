"""H01: binary, ternary and d-ary heaps."""
import ast
from lib import *

MODULE = "Heap_Trace"


class Drv:
    def __init__(self, s):
        from pydatastructs import DynamicOneDimensionalArray, OneDimensionalArray
        from pydatastructs.trees.heaps import BinaryHeap, TernaryHeap, DHeap
        from pydatastructs.utils.misc_util import TreeNode
        c = s["cfg"]
        self.c = k = Codec(s)
        self.d = Codec(s, ("num", "half", "same", "str", "same", "tup"))
        els = [TreeNode(k.enc(x), self.d.enc(d)) for x, d in c["items"]]
        form = s.get("form", "list")
        if form == "tuple":
            els = tuple(els)
        elif form == "oda":
            els = OneDimensionalArray(TreeNode, els) if els else OneDimensionalArray(TreeNode, 0)
        elif form == "doda":
            a = DynamicOneDimensionalArray(TreeNode, 0)
            for e in els:
                a.append(e)
            els = a
        elif form == "none":
            els = None
        prop = "max" if c["max"] else "min"
        if s["v"] == "binary":
            self.h = BinaryHeap(els, prop)
        elif s["v"] == "ternary":
            self.h = TernaryHeap(els, prop)
        else:
            self.h = DHeap(els, prop, c["d"])
        if els is not None:     # the caller's own items are not kept
            other = BinaryHeap(els, "min" if c["max"] else "max")
            if len(c["items"]) > 1:
                other.extract()
                other.insert(other.extract().key, 0)
        if isinstance(els, list):
            del els[:]

    def op_insert(self, k, d):
        return self.h.insert(self.c.enc(k), self.d.enc(d))

    def op_extract(self):
        n = self.h.extract()
        return [self.c.dec(n.key), self.d.dec(n.data)]

    def obs(self):
        shown = ast.literal_eval(str(self.h))
        return {"lay": [[self.c.dec(k), I(d) if self.d.name == "same" else self.d.dec(d)] for k, d, _ in shown], "kids": [[I(x) for x in c] for _, _, c in shown],
                "empty": B(self.h.is_empty)}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    if tier == "quick":
        return [("Heap_MC", mc(5, "Refines", "ExtractsTop", Keys="{1, 2, 3}", Ds="{2, 3}", MaxInit=0), (), 0.8),
                ("Heap_MC", mc(1, "Refines", "ExtractsTop", Keys="{1, 2}", Ds="{1, 2, 3}", MaxInit=5), (), 1)]
    return [("Heap_MC", mc(6, "Refines", "ExtractsTop", Keys="{1, 2, 3}", Ds="{2, 3}", MaxInit=0)),
            ("Heap_MC", mc(7, "Refines", "ExtractsTop", Keys="{1, 2}", Ds="{1, 2, 4}", MaxInit=0)),
            ("Heap_MC", mc(2, "Refines", "ExtractsTop", Keys="{1, 2}", Ds="{1, 2, 3}", MaxInit=6))]


N = 0
FORMS = ["list", "tuple", "oda", "doda"]


def variants(cfg):
    return {2: ["binary", "dheap"], 3: ["ternary", "dheap"]}.get(cfg["d"], ["dheap"])


def scen(v, form, cfg, ops):
    # drain at the end: the whole content in order
    n = len(cfg["items"]) + sum(o[0] == "insert" for o in ops) + 1
    return {"v": v, "form": form, "cfg": cfg, "ops": ops + [["extract"]] * n}


def from_model(m):
    global N
    for v in variants(m["cfg"]):
        N += 1
        form = FORMS[N % 4] if m["cfg"]["items"] else ["none", "list", "doda"][N % 3]
        yield scen(v, form, m["cfg"], m["ops"])


def seeded(tier, rng):
    for n, (d, m) in enumerate(((2, 70), (3, 130), (4, 90), (7, 130), (2, 260))):      # large ones
        cfg = {"max": n % 2 == 0, "d": d, "items": [[rng.randrange(-500, 500), 1000 + j] for j in range(m)]}
        ops = [op for q in (1, 4) for op in (["extract"], ["insert", 501, q], ["insert", -501, q + 1], ["insert", 0, q + 2], ["extract"], ["extract"])]
        for v in variants(cfg):
            yield scen(v, rng.choice(FORMS), cfg, ops)
    for n in range(150 if tier == "quick" else 2500):
        d = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        hi = rng.choice([2, 6, 60])
        items = [[rng.randrange(-hi, hi), 1000 + j] for j in range(rng.choice([0, 1, 2, 7, 13, 28]))]
        cfg = {"max": rng.random() < 0.5, "d": d, "items": items}
        ops, p = [], 0.6
        for k in range(rng.choice([8, 25, 45])):
            if k % 12 == 11:
                p = rng.choice([0.2, 0.5, 0.85])
            ops.append(["insert", rng.randrange(-hi, hi), k] if rng.random() < p else ["extract"])
        yield scen(rng.choice(variants(cfg)), rng.choice(FORMS), cfg, ops)
