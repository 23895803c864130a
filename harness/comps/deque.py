"""Q02: FIFO and double ended queues (array, linked list)."""
import ast
from lib import *

MODULE = "Deque_Trace"
VARIANTS = ["array", "linked_list"]


class Drv:
    def __init__(self, s):
        from pydatastructs import Queue
        self.v, cfg = s["v"], s["cfg"]
        self.c = Codec(s)
        items = [self.c.enc(x) for x in cfg["items"]]
        kw = {"items": items} if items else {}
        if self.v == "array" and self.c.name != "num":
            kw["dtype"] = self.c.type
        if cfg["de"]:
            kw["double_ended"] = True
        self.q = Queue(implementation=self.v, **kw)
        del items[:]        # the caller's own list is not kept

    def val(self, x):
        return self.c.dec(getattr(x, "key", BADV)) if self.v == "linked_list" and x is not None else self.c.dec(x)

    def turn(self):
        if self.q.is_empty:
            self.c.next()

    def op_append(self, x):
        self.turn()
        return self.q.append(self.c.enc(x))

    def op_appendleft(self, x):
        self.turn()
        return self.q.appendleft(self.c.enc(x))

    def op_pop(self):
        return self.val(self.q.pop())

    def op_popleft(self):
        return self.val(self.q.popleft())

    def obs(self):
        q = self.q
        t = ast.literal_eval(str(q))
        n = I(len(q))
        if self.v == "linked_list":
            items = [ast.literal_eval(x)[0] for x in t]
            front, rear = (q.front.key, q.rear.key) if items else (None, None)
        elif n == 0:
            items, front, rear = [], None, None
        else:
            items = list(t)
            front, rear = q.items[q.front], q.items[q.rear]
        return {"items": [self.c.dec(x) for x in items], "len": n, "empty": B(q.is_empty), "front": self.c.dec(front), "rear": self.c.dec(rear)}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    d = 6 if tier == "quick" else 8
    return [("Deque_MC", """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Inits  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = TRUE
INVARIANTS Fifo NoDup EmitScenario
PROPERTIES Oldest
""" % d)]


def from_model(m):
    for v in VARIANTS:
        yield {"v": v, "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for v in VARIANTS:      # long ones
        for de in (True, False):
            ops = [["append", 1000], ["popleft"], ["append", 1001]] + [["popleft"]] * 6
            yield {"v": v, "cfg": {"de": de, "items": list(range(rng.randrange(260, 300)))},
                   "ops": ops[:2] + [["appendleft", 1002], ["appendleft", 1003], ["pop"]] + ops[2:] + [["pop"]] * 4 if de else ops}
    for n in range(120 if tier == "quick" else 1200):
        v = VARIANTS[n % 2]
        de = rng.random() < 0.6
        items = [rng.randrange(1000) for _ in range(rng.choice([0, 0, 1, 2, 5, 9]))]
        ops, p = [], rng.choice([0.45, 0.5, 0.6, 0.75])
        pl = rng.choice([0.0, 0.3, 0.5]) if de else 0.0
        for k in range(rng.choice([20, 60, 120])):
            if k % 20 == 19:
                p = rng.choice([0.15, 0.5, 0.85])
            left = rng.random() < pl
            if rng.random() < p:
                ops.append(["appendleft" if left else "append", 1000 + k])
            else:
                ops.append(["pop" if left else "popleft"])
        yield {"v": v, "cfg": {"de": de, "items": items}, "ops": ops}
