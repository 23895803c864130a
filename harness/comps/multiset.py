"""D02: multisets."""
from lib import *

MODULE = "Multiset_Trace"


class Drv:
    def __init__(self, s):
        from pydatastructs import Multiset
        self.c = Codec(s)
        self.t = Multiset(*map(self.c.enc, s["cfg"]["init"]))
        self.used = set(s["cfg"]["init"])
        for o in s["ops"]:
            self.used.add(o[1])

    def op_add(self, x):
        return self.t.add(self.c.enc(x))

    def op_remove(self, x):
        return self.t.remove(self.c.enc(x))

    def obs(self):
        t, enc, dec = self.t, self.c.enc, self.c.dec
        return {"n": len(t), "p": [[p, I(t.count(enc(p))), B(enc(p) in t), dec(t.lower_bound(enc(p))), dec(t.upper_bound(enc(p)))]
                                   for p in sorted({x + d for x in self.used for d in (-1, 0, 1)})]}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    q = tier == "quick"
    return [("Multiset_MC", mc(5 if q else 6, "Refines", Elems="{0, 1, 2}", Ops='{"add", "remove"}'), (), 0.25 if q else 1)]


def from_model(m):
    yield {"v": "", "cfg": {"init": []}, "ops": m["ops"]}
    if len(m["ops"]) and m["ops"][0][0] == "add":
        yield {"v": "", "cfg": {"init": [m["ops"][0][1]] * 2 + [1]}, "ops": m["ops"][1:]}


def seeded(tier, rng):
    for k in (70, 260):      # large counts
        ops = [["add", 5]] * 3 + [["remove", 5]] * 2 + [["add", 6], ["remove", 6], ["remove", 6], ["add", 5]]
        yield {"v": "", "cfg": {"init": [5] * k + [6]}, "ops": ops}
        yield {"v": "", "cfg": {"init": list(range(k))}, "ops": ops + [["remove", j] for j in range(0, k, k // 9)]}
    for n in range(300 if tier == "quick" else 4000):
        span = rng.choice([2, 5, 12])
        lo = rng.choice([0, -5, 1000])
        init = [lo + rng.randrange(span) for _ in range(rng.choice([0, 0, 3, 8]))]
        pr = rng.choice([.3, .5, .6])
        ops = [["remove" if rng.random() < pr else "add", lo + rng.randrange(span)] for _ in range(rng.choice([6, 20, 40]))]
        yield {"v": "", "cfg": {"init": init}, "ops": ops}
