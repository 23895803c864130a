"""A04: the four linked lists."""
import ast
from lib import *

MODULE = "LinkedList_Trace"
VARIANTS = ["SinglyLinkedList", "DoublyLinkedList", "SinglyCircularLinkedList", "DoublyCircularLinkedList"]
CAP = 300


class Drv:
    def __init__(self, s):
        import pydatastructs
        self.c, self.d = Codec(s), Codec(s, ("half", "num", "str", "num", "tup", "same"))
        self.l = getattr(pydatastructs, s["v"])()
        self.dbl = s["cfg"]["dbl"]

    def op_append(self, k, d):
        self.l.append(self.c.enc(k), self.d.enc(d))

    def op_appendleft(self, k, d):
        self.l.appendleft(self.c.enc(k), self.d.enc(d))

    def op_insert_at(self, j, k, d):
        k = self.c.enc(k)
        self.l.insert_at(j, k) if d == NONE else self.l.insert_at(j, k, self.d.enc(d))

    def op_insert_after(self, j, k, d):
        self.l.insert_after(self.l[j], self.c.enc(k), self.d.enc(d))

    def op_insert_before(self, j, k, d):
        self.l.insert_before(self.l[j], self.c.enc(k), self.d.enc(d))

    def op_extract(self, j):
        return self.node(self.l.extract(j))

    def op_popleft(self):
        return self.node(self.l.popleft())

    def op_popright(self):
        return self.node(self.l.popright())

    def op_get(self, j):
        return self.node(self.l[j])

    def op_search(self, k):
        n = self.l.search(self.c.enc(k))
        if n is None:
            return -1
        nodes = self.walk(self.l.head, "next")[0]
        return next((i for i, m in enumerate(nodes) if m is n), BADV)

    def node(self, n):
        return [self.c.dec(n.key), self.d.dec(n.data)]

    @staticmethod
    def walk(start, link):
        out, n = [], start
        while n is not None and len(out) < CAP:
            out.append(n)
            n = getattr(n, link)
            if n is start:
                return out, "start"
            if any(n is m for m in out[-3:]):
                return out, "loop"
        return out, "none" if n is None else "endless"

    def obs(self):
        f, fend = self.walk(self.l.head, "next")
        b, bend = self.walk(self.l.tail, "prev") if self.dbl else ([], "")
        t = -1 if self.l.tail is None else next((i for i, m in enumerate(f) if m is self.l.tail), BADV)
        if fend in ("loop", "endless"):
            st = []
        else:
            st = [self.c.dec(ast.literal_eval(x)[0]) for x in ast.literal_eval(str(self.l))]
        return {"fwd": [self.node(n) for n in f], "fend": fend, "bwd": [self.node(n) for n in b], "bend": bend, "tail": t,
                "size": I(self.l.size), "len": I(len(self.l)), "empty": B(self.l.is_empty), "str": st}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    out = []
    for b in ("TRUE", "FALSE"):
        out.append(("LinkedList_MC", mc(3, properties="SizeStep Kept NegIndex", Dbl=b)))
        out.append(("LinkedList_MC", mc(4, properties="SizeStep Kept NegIndex", Dbl=b), (), 0.2 if tier == "quick" else 1))
        if tier != "quick":
            out.append(("LinkedList_MC", mc(5, properties="SizeStep Kept NegIndex", Dbl=b), (), 0.1))
    return out


def from_model(m):
    for v in VARIANTS:
        if v.startswith("Doubly") == m["cfg"]["dbl"]:
            c = {"dbl": m["cfg"]["dbl"], "ring": "Circular" in v}
            yield {"v": v, "cfg": c, "ops": m["ops"] + [["popright"]]}


def seeded(tier, rng):
    for v in VARIANTS:      # long ones
        dbl, n = v.startswith("Doubly"), rng.randrange(130, 150)
        ops = [[rng.choice(["append", "appendleft"]), k % 200, k] for k in range(n)]
        ops += [["extract", n - 1], ["extract", -2], ["insert_at", n - 2, 7, 7], ["extract", n // 2], ["popleft"], ["popright"], ["get", -1], ["get", 100], ["search", n - 9]]
        yield {"v": v, "cfg": {"dbl": dbl, "ring": "Circular" in v}, "ops": ops}
    for n in range(200 if tier == "quick" else 3000):
        v = VARIANTS[n % 4]
        dbl = v.startswith("Doubly")
        size, ops, grow = 0, [], 0.6
        for k in range(rng.choice([12, 30, 60])):
            if k % 10 == 9:
                grow = rng.choice([0.2, 0.5, 0.8])
            lo, hi = -size - 2, size + 2
            if rng.random() < grow:
                op = rng.choice(["append", "appendleft", "insert_at", "insert_at", "insert_after"] + ["insert_before"] * dbl)
                key, d = rng.randrange(0, 12), rng.randrange(0, 50)
                ops.append([op, key, d] if op.startswith("append") else [op, rng.randrange(lo, hi), key, d])
                size += 1
            else:
                op = rng.choice(["extract", "extract", "popleft", "popright", "get", "search"])
                ops.append([op] if op.startswith("pop") else [op, rng.randrange(0, 12)] if op == "search" else [op, rng.randrange(lo, hi)])
                if op in ("extract", "popleft", "popright"):
                    size = max(0, size - 1)
        yield {"v": v, "cfg": {"dbl": dbl, "ring": "Circular" in v}, "ops": ops}
