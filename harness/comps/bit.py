"""D06: binary indexed trees."""
from lib import *

MODULE = "BIT_Trace"


class Drv:
    def __init__(self, s):
        from pydatastructs import BinaryIndexedTree, Backend
        backend, kind = s["v"].split("/")
        self.c = Codec(kind.partition("-")[2] or "num")
        cells = [self.c.enc(x) for x in s["cfg"]["cells"]]
        self.n = len(cells)
        self.given = list(cells)
        self.arr = tuple(cells) if kind.startswith("tuple") else cells
        self.t = BinaryIndexedTree(self.arr, backend={"python": Backend.PYTHON, "cpp": Backend.CPP}[backend])

    def op_update(self, i, v):
        return self.t.update(i, self.c.enc(v))

    def op_prefix(self, i):
        return self.c.dec(self.t.get_prefix_sum(i))

    def op_sum(self, i, j):
        return self.c.dec(self.t.get_sum(i, j))

    def obs(self):
        n = self.n
        assert list(self.arr) == self.given       # the caller's list stays as it is
        rs = [(i, j) for i in range(n) for j in range(i, n) if n <= 6 or (i * 7 + j * 3) % 11 == 0]
        return {"pre": [self.c.dec(self.t.get_prefix_sum(i)) for i in range(n)],
                "sums": [[i, j, self.c.dec(self.t.get_sum(i, j))] for i, j in rs]}


def run(s, events):
    replay(Drv(s), s, events)


def job(n, cells, ops):
    return {"v": ["python/list", "cpp/list", "python/tuple", "cpp/list"][n % 4] + ("", "-big", "", "-half")[n // 4 % 4], "cfg": {"cells": list(cells)}, "ops": ops}


def models(tier):
    d = 2 if tier == "quick" else 3
    return [("BIT_MC", mc(d, "Refines", Vals="<- VNeg", MinLen=1, MaxLen=3), (), 0.5 if tier == "quick" else 0.2),
            ("BIT_MC", mc(1, "Refines", Vals="<- VNeg", MinLen=4, MaxLen=6), (), 0.1)]


N = 0


def from_model(m):
    global N
    for _ in range(2):
        N += 1
        yield job(N, m["cfg"]["cells"], m["ops"])


def seeded(tier, rng):
    for n, size in enumerate((64, 65, 127, 128, 129, 257)):      # large ones
        ops = [["update", rng.choice([0, size - 1, rng.randrange(size)]), rng.randrange(-999, 1000)] for _ in range(3)] + [["sum", 1, size - 1]]
        yield job(n // 2, [rng.randrange(-999, 1000) for _ in range(size)], ops)
    for n in range(300 if tier == "quick" else 4000):
        size = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33])
        lim = rng.choice([2, 100, 100000])
        val = lambda: rng.randrange(-lim, lim + 1)
        cells = [val() for _ in range(size)]
        ops = []
        for _ in range(rng.choice([3, 12])):
            o = rng.choice(["update", "update", "prefix", "sum"])
            i, j = sorted(rng.randrange(size) for _ in range(2))
            ops.append({"update": [o, i, val()], "prefix": [o, i], "sum": [o, i, j]}[o])
        if n % 3 == 0:
            ops.insert(rng.randrange(len(ops) + 1), ["update", size + rng.choice([0, 0, 1, 5, 40]), 7])
        for b in range(2):
            yield job(2 * n + b, cells, ops)
