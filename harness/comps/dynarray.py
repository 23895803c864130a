"""A02: DynamicOneDimensionalArray, Python and C++."""
import ast
from lib import *

MODULE = "DynArray_Trace"
VARIANTS = ["py", "cpp"]


class Drv:
    def __init__(self, s):
        from pydatastructs import DynamicOneDimensionalArray
        from pydatastructs.utils.misc_util import Backend
        v, cfg = s["v"], s["cfg"]
        self.c = k = Codec(s, Codec.CELLS)
        kw = {"backend": Backend.CPP} if v == "cpp" else {}
        if (cfg["p"], cfg["q"]) != (1, 4):
            kw["load_factor"] = cfg["p"] / cfg["q"]
        c = cfg["cells"]
        self.v = v
        if all(x == NONE for x in c):
            self.a = DynamicOneDimensionalArray(k.type, len(c), **kw)
        else:
            given = [k.enc(x) for x in c]
            self.a = DynamicOneDimensionalArray(k.type, given, **kw)
            del given[:]        # the caller's own list is not kept

    def op_append(self, x):
        self.a.append(self.c.enc(x))

    def op_delete(self, j):
        self.a.delete(j)

    def op_assign(self, j, x):
        self.a[j] = self.c.enc(x)

    def op_fill(self, x):
        self.a.fill(self.c.enc(x))

    def obs(self):
        cells = [self.c.dec(self.a[i]) for i in range(self.a.size)]
        st = [self.c.read(x) for x in ast.literal_eval(str(self.a)) if x not in ("", None)]
        rev = [self.c.dec(x) for x in reversed(self.a) if x is not None] if self.v == "py" else [c for c in reversed(cells) if c != NONE]
        return {"cells": cells, "size": I(len(self.a)), "str": st, "rev": rev}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    out = [("DynArray_MC", mc(4 if tier == "quick" else 5, properties="RefAllowed NothingLost LoadBound", Cfgs="<- C1", Writes="FALSE")),
           ("DynArray_MC", mc(3 if tier == "quick" else 4, properties="RefAllowed NothingLost LoadBound", Cfgs="<- C1", Writes="TRUE"), (), .5 if tier == "quick" else 1)]
    if tier != "quick":
        out.append(("DynArray_MC", mc(5, properties="RefAllowed NothingLost LoadBound", Cfgs="<- C2", Writes="FALSE")))
    return out


def from_model(m):
    for v in VARIANTS:
        yield {"v": v, "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for v in VARIANTS:      # long ones
        for p, q in ((1, 4), (1, 2)):
            n = rng.randrange(260, 400)
            ops = [["append", k] for k in range(3)] + [["delete", k] for k in rng.sample(range(n), 5)] + [["append", 7]]
            yield {"v": v, "cfg": {"cells": list(range(1, n + 1)), "p": p, "q": q}, "ops": ops}
    for n in range(120 if tier == "quick" else 1500):
        v = VARIANTS[n % 2]
        p, q = rng.choice([(1, 4), (1, 4), (1, 2), (1, 8), (3, 4), (1, 1)])
        cells = rng.choice([[], [NONE] * rng.randrange(1, 6), list(range(1, rng.randrange(2, 12)))])
        ops, items, size, pr = [], 0, max(len(cells), 3), 0.6
        for k in range(rng.choice([15, 50])):
            if k % 12 == 11:
                pr = rng.choice([0.15, 0.5, 0.8])
            if n % 3 == 2 and rng.random() < .4:        # writes anywhere
                ops.append(["assign", rng.randrange(size), rng.choice([NONE, 300 + k, 300 + k, 300 + k])] if rng.random() < .95 else ["fill", 300 + k])
            elif rng.random() < pr:
                ops.append(["append", rng.randrange(1, 250)])
                size += 1
            else:
                ops.append(["delete", rng.randrange(-1, size + 1)])
        yield {"v": v, "cfg": {"cells": cells, "p": p, "q": q}, "ops": ops}
