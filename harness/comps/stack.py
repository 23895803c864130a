"""Q01: stacks (array, array in C++, linked list)."""
import ast
from lib import *

MODULE = "Stack_Trace"
VARIANTS = ["array", "cpp", "linked_list"]


class Drv:
    def __init__(self, s):
        from pydatastructs import Stack
        from pydatastructs.utils.misc_util import Backend
        self.v = v = s["v"]
        self.c = Codec(s)
        items = [self.c.enc(x) for x in s["cfg"]["items"]]
        kw = {}
        if items:
            kw["items"] = items
        if v != "linked_list" and self.c.name != "num":
            kw["dtype"] = self.c.type
        if v == "cpp":
            kw["backend"] = Backend.CPP
        self.s = Stack(implementation="array" if v == "cpp" else v, **kw)
        del items[:]        # the caller's own list is not kept

    def val(self, x):
        return self.c.dec(getattr(x, "key", BADV)) if self.v == "linked_list" and x is not None else self.c.dec(x)

    def op_push(self, x):
        if self.s.is_empty:
            self.c.next()
        return self.s.push(self.c.enc(x))

    def op_pop(self):
        return self.val(self.s.pop())

    def op_peek(self):
        return self.val(self.s.peek)

    def obs(self):
        t = ast.literal_eval(str(self.s))
        if self.v == "linked_list":
            items = [self.c.dec(ast.literal_eval(x)[0]) for x in t]
        elif self.v == "cpp":
            items = [self.c.read(x) for x in t]
        else:
            items = [self.c.dec(x) for x in t if x is not None]
        return {"items": S(items), "len": I(len(self.s)), "empty": B(self.s.is_empty)}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    d = 5 if tier == "quick" else 8
    return [("Stack_MC", """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Inits  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = TRUE  Vals = {1, 2}
INVARIANTS Lifo EmitScenario
PROPERTIES PeekIsPop PopReturnsLastPushed
""" % d)]


def from_model(m):
    for v in VARIANTS:
        c = dict(m["cfg"])
        c["impl"] = "linked_list" if v == "linked_list" else "array"
        yield {"v": v, "cfg": c, "ops": m["ops"] + [["pop"]] * 3}


def seeded(tier, rng):
    for v in VARIANTS:      # long ones
        yield {"v": v, "cfg": {"impl": "linked_list" if v == "linked_list" else "array", "items": list(range(rng.randrange(260, 300)))},
               "ops": [["push", 1], ["push", 2], ["pop"], ["peek"]] + [["pop"]] * 8}
    for n in range(60 if tier == "quick" else 600):
        v = VARIANTS[n % 3]
        items = [rng.randrange(100) for _ in range(rng.choice([0, 0, 1, 2, 5, 9]))]
        ops, p = [], rng.choice([0.45, 0.5, 0.6, 0.75])
        for k in range(rng.choice([20, 60, 120])):
            if k % 30 == 29:
                p = rng.choice([0.2, 0.5, 0.8])
            ops.append(["push", rng.randrange(-50, 200)] if rng.random() < p else
                       rng.choice([["pop"], ["pop"], ["pop"], ["peek"]]))
        yield {"v": v, "cfg": {"impl": "linked_list" if v == "linked_list" else "array", "items": items},
               "ops": ops + [["pop"]] * rng.choice([0, 5, 40])}
