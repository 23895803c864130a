"""Q03: priority queues (linked list, binary heap, binomial heap)."""
from lib import *

MODULE = "PQueue_Trace"
VARIANTS = ["linked_list", "binary_heap", "binomial_heap"]


class Drv:
    def __init__(self, s):
        from pydatastructs import PriorityQueue
        v, cfg = s["v"], s["cfg"]
        self.c, self.d = Codec(s, ("num", "half")) if cfg["mag"] else Codec(s), Codec(s, ("half", "num", "str", "num", "tup", "same"))
        kw = {"comp": lambda u, v: u > v} if cfg["max"] else {"comp": lambda u, v: abs(u) < abs(v)} if cfg["mag"] else {}
        self.q = PriorityQueue(implementation=v, **kw)

    def op_push(self, value, prio):
        return self.q.push(self.d.enc(value), self.c.enc(prio))

    def op_pop(self):
        return self.d.dec(self.q.pop())

    def op_peek(self):
        n = self.q.peek
        return [self.c.dec(n.key), self.d.dec(n.data)]

    def obs(self):
        return B(self.q.is_empty)


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    d = 6 if tier == "quick" else 8
    return [("PQueue_MC", """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Inits  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = TRUE  Prios <- PS
INVARIANTS Conserved EmitScenario
PROPERTIES PopIsExtreme
""" % d)]


def from_model(m):
    for v in VARIANTS:
        if v == "binomial_heap" and (m["cfg"]["max"] or m["cfg"]["mag"]):
            continue        # documented: no custom comparators there
        yield {"v": v, "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for n, v in enumerate(VARIANTS):      # long ones
        ops = [["push", k, rng.randrange(-200, 200)] for k in range(90)] + [["pop"]] * 12 + [["push", 1000, 0]] + [["pop"]] * 5
        yield {"v": v, "cfg": {"max": False, "mag": False}, "ops": ops}
    for n in range(150 if tier == "quick" else 1500):
        v = VARIANTS[n % 3]
        mx = v != "binomial_heap" and rng.random() < 0.4
        mag = v != "binomial_heap" and not mx and rng.random() < 0.4
        hi = rng.choice([2, 5, 50])
        ops = []
        p = 0.6
        for k in range(rng.choice([15, 50, 100])):
            if k % 20 == 19:
                p = rng.choice([0.2, 0.5, 0.8])
            ops.append(["push", k if n % 2 or mag else rng.randrange(4), rng.randrange(-hi, hi)] if rng.random() < p else
                       rng.choice([["pop"], ["pop"], ["peek"]]))
        yield {"v": v, "cfg": {"max": mx, "mag": mag}, "ops": ops}
