"""D01: disjoint-set forest.  The observation replays the history so far on a fresh forest and
questions that one, so that looking does not disturb the forest under test."""
from lib import *

MODULE = "DSU_Trace"


class Drv:
    def __init__(self, s):
        self.c = Codec(s, ("num", "str", "tup", "half"))
        from pydatastructs import DisjointSetForest
        self.f = DisjointSetForest()
        self.made, self.done = [], []
        self.data = {}      # what came with a key when it was first made

    def op_make(self, x):
        if x not in self.made:
            self.made.append(x)
        x = self.c.enc(x)
        args = [x] + [object()] * (len(self.done) % 3 > 0)
        self.data.setdefault(x, args[1] if args[1:] else None)
        self.done.append(("make_set", *args))
        return self.f.make_set(*args)

    def key(self, n):
        """a set is known by its root: the key and the data that came with it"""
        return self.c.dec(n.key) if n.key in self.data and n.data is self.data[n.key] else BADV

    def op_find(self, x):
        x = self.c.enc(x)
        self.done.append(("find_root", x))
        return self.key(self.f.find_root(x))

    def op_union(self, x, y):
        x, y = self.c.enc(x), self.c.enc(y)
        self.done.append(("union", x, y))
        return self.f.union(x, y)

    def op_size(self, x):
        x = self.c.enc(x)
        self.done.append(("find_size", x))
        return I(self.f.find_size(x))

    def op_root(self, x):
        x = self.c.enc(x)
        self.done.append(("make_root", x))
        return self.f.make_root(x)

    def op_sets(self):
        self.done.append(("disjoint_sets",))
        return [[self.c.dec(x) for x in g] for g in self.f.disjoint_sets()]

    def obs(self):
        from pydatastructs import DisjointSetForest
        g = DisjointSetForest()
        for m, *a in self.done:
            try:
                getattr(g, m)(*a)
            except KeyError:
                pass
        keys = [[x, self.key(g.find_root(self.c.enc(x))), I(g.find_size(self.c.enc(x)))] for x in self.made]
        return {"keys": keys, "sets": [[self.c.dec(x) for x in s] for s in g.disjoint_sets()]}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    ops = '{"make", "union", "root", "find"}'
    if tier == "quick":
        return [("DSU_MC", mc(4, "Refines SubtreeSizes", Elems="{1, 2}", Ops=ops), (), 0.3),
                ("DSU_MC", mc(4, "Refines SubtreeSizes", Elems="{1, 2, 3}", Ops='{"make", "union", "root"}'), (), 0.08)]
    return [("DSU_MC", mc(5, "Refines SubtreeSizes", Elems="{1, 2}", Ops=ops), (), 1),
            ("DSU_MC", mc(6, "Refines SubtreeSizes", Elems="{1, 2, 3}", Ops='{"make", "union", "root"}'), (), 0.008)]


def from_model(m):
    n = max(x for o in m["ops"] for x in o[1:])
    yield {"v": "", "ops": m["ops"]}
    # the same unions and roots with everything made first: deeper forests
    ops = [o for o in m["ops"] if o[0] != "make"]
    if len(ops) < len(m["ops"]):
        yield {"v": "", "ops": [["make", x] for x in range(1, n + 1)] + ops}


def seeded(tier, rng):
    for k in (20, 40):      # large ones: chains, and trees of trees
        for shape in range(3):
            xs = list(range(1, k + 1))
            rng.shuffle(xs)
            ops = [["make", x] for x in xs]
            if shape == 0:
                ops += [["union", xs[j], xs[j + 1]] for j in range(k - 1)]
            elif shape == 1:
                step = 1
                while step < k:
                    ops += [["union", xs[j], xs[j + step]] for j in range(0, k - step, 2 * step)]
                    step *= 2
            else:
                ops += [["union"] + rng.sample(xs, 2) for _ in range(k)]
            yield {"v": "", "ops": ops + [["root", x] for x in rng.sample(xs, 6)] + [["size", xs[0]], ["sets"]]}
    for n in range(200 if tier == "quick" else 3000):
        k = rng.choice([3, 6, 10])
        ops = [["make", x] for x in range(1, k + 1)]
        if rng.random() < 0.3:
            rng.shuffle(ops)
            ops = ops[:-1]
        w = rng.choice([(6, 2, 2, 1, 1, 1), (3, 4, 1, 1, 1, 1), (2, 1, 4, 1, 1, 1)])
        for _ in range(rng.choice([8, 16, 30])):
            o = rng.choices(["union", "root", "find", "size", "sets", "make"], w)[0]
            x = rng.randrange(1, k + 1)
            ops.append({"union": ["union", x, rng.randrange(1, k + 1)], "sets": ["sets"]}.get(o, [o, x]))
        yield {"v": "", "ops": ops}
