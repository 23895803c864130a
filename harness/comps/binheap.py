"""H02: binomial heaps."""
from lib import *

MODULE = "BinHeap_Trace"


class Drv:
    def __init__(self, s):
        from pydatastructs.trees.heaps import BinomialHeap
        self.hs = [BinomialHeap() for _ in range(s["cfg"]["n"])]
        self.c = Codec(s)
        self.d = Codec(s, ("num", "half", "same", "str", "same", "tup"))

    def op_insert(self, g, k, d):
        return self.hs[g - 1].insert(self.c.enc(k), self.d.enc(d))

    def op_merge(self, g, j):
        r = self.hs[g - 1].merge(self.hs[j - 1])
        self.hs[j - 1] = None
        return r

    def op_min(self, g):
        n = self.hs[g - 1].find_minimum()
        return [self.c.dec(n.key), self.d.dec(n.data)]

    def op_delmin(self, g):
        return self.hs[g - 1].delete_minimum()

    def find(self, g, d):
        todo = [t.root for t in self.hs[g - 1].root_list]
        while todo:
            n = todo.pop()
            if self.d.dec(n.data) == d:
                return n
            todo.extend(c for c in n.children if c is not None)
        raise Skip       # another of the tied items was deleted

    def children(self, n):
        return [c for c in n.children if c is not None]

    def op_decrease(self, g, d, k):
        return self.hs[g - 1].decrease_key(self.find(g, d), self.c.enc(k))

    def op_delete(self, g, d):
        return self.hs[g - 1].delete(self.find(g, d))

    def obs(self):
        res = []
        for h in self.hs:
            if h is None:
                res.append({"trees": [], "empty": 1, "links": 1})
                continue
            links = [1]

            def node(n, parent):
                if parent is None:
                    links[0] &= bool(n.is_root)
                else:
                    links[0] &= n.parent is parent and not n.is_root
                return [self.c.dec(n.key), self.d.dec(n.data), [node(c, n) for c in self.children(n)]]
            res.append({"trees": [[I(t.order), node(t.root, None)] for t in h.root_list],
                        "empty": B(h.is_empty), "links": int(links[0])})
        return res


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    if tier == "quick":
        return [("BinHeap_MC", mc(5, "Disjoint MergeIsAddition", Keys="{1, 2}", Heaps=2, SumTo=40, Mode='"dec"'), (), 0.5)]
    return [("BinHeap_MC", mc(6, "Disjoint MergeIsAddition", Keys="{1, 2}", Heaps=2, SumTo=120, Mode='"no"')),
            ("BinHeap_MC", mc(6, "Disjoint", Keys="{2}", Heaps=2, SumTo=1, Mode='"dec"'), (), 0.6)]


def from_model(m):
    yield {"v": "", "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for hi in (3, 1000):      # large ones
        ops = [["insert", 1 + k % 2, rng.randrange(-hi, hi), k] for k in range(100)]
        yield {"v": "", "cfg": {"n": 2}, "ops": ops + [["merge", 1, 2]] + [["delmin", 1]] * 4 + [["min", 1]]}
    for n in range(220 if tier == "quick" else 3000):
        nh = rng.choice([1, 2, 3])
        hi = rng.choice([2, 6, 60])
        bags = [{} for _ in range(nh)]      # datum -> key: which items may be named
        live = list(range(1, nh + 1))
        ops, p = [], 0.7
        for k in range(rng.choice([12, 30, 50])):
            if k % 10 == 9:
                p = rng.choice([0.3, 0.5, 0.85])
            g = rng.choice(live)
            r = rng.random()
            if r < p:
                ops.append(["insert", g, rng.randrange(-hi, hi), k])
                bags[g - 1][k] = ops[-1][2]
            elif r < p + 0.04 and len(live) > 1:
                j = rng.choice([x for x in live if x != g])
                ops.append(["merge", g, j])
                bags[g - 1].update(bags[j - 1])
                live.remove(j)
            elif r < p + 0.14 and "sure" and bags[g - 1]:
                # only items whose presence does not depend on how ties were broken
                ks = list(bags[g - 1].values())
                d = rng.choice(list(bags[g - 1]))
                if rng.random() < 0.5:
                    nk = bags[g - 1][d] - rng.choice([0, 1, 5])
                    ops.append(["decrease", g, d, nk])
                    if nk < bags[g - 1][d]:
                        bags[g - 1][d] = nk
                else:
                    ops.append(["delete", g, d])
                    del bags[g - 1][d]
            elif r < p + 0.2:
                ops.append(["min", g])
            else:
                b = bags[g - 1]
                if b:
                    m = [d for d in b if b[d] == min(b.values())]
                    if len(m) > 1:
                        continue
                    del b[m[0]]
                ops.append(["delmin", g])
        for g in live:
            ops += [["min", g], ["delmin", g]] * 3
        yield {"v": "", "cfg": {"n": nh}, "ops": ops}
