"""A05: SkipList under many outcomes of its coin flips."""
import ast, math, random
from lib import *

MODULE = "SkipList_Trace"
CAP = 400


def coin_seeds():
    """seeds of `random' whose first coin flips stop after 0, 1, 2, 3, 4 heads"""
    want, s = {}, 0
    while len(want) < 5:
        r = random.Random(s)
        n = 0
        while r.getrandbits(1) == 0 and n < 4:
            n += 1
        want.setdefault(n, s)
        s += 1
    return [want[n] for n in range(5)]


SEEDS = coin_seeds()


def enc_str(k):
    return "k%03d" % (k + 500)


def enc_inf(k):
    return {-8: -math.inf, 8: math.inf}.get(k, k)


# what a key of the specification is in the list, and back
CODECS = {"": (lambda k: k, I),
          "str": (enc_str, lambda k: int(k[1:]) - 500),
          "tup": (lambda k: ("t", k), lambda k: I(k[1])),
          "half": (lambda k: k / 2, lambda k: I(int(k * 2)) if int(k * 2) == k * 2 else BADV),
          "inf": (enc_inf, lambda k: {-math.inf: -8, math.inf: 8}.get(k, k))}


class Drv:
    def __init__(self, v, cfg, s):
        from pydatastructs import SkipList
        self.d = Codec(s, ("num", "half", "same", "str", "same", "tup"))
        self.l = SkipList()
        self.enc, self.dec = CODECS[v]

    def op_insert(self, k, d, coin):
        random.seed(SEEDS[coin] if coin < 5 else coin)
        self.l.insert(self.enc(k), self.d.enc(d))

    def op_search(self, k):
        return B(self.l.search(self.enc(k)))

    def op_extract(self, k):
        n = self.l.extract(self.enc(k))
        return [self.dec(n.key), self.d.dec(n.data)]

    def obs(self):
        levels, items, down = [], [], 1
        head, below = self.l.head, None
        rows = []
        while head is not None and len(rows) < CAP:
            row, n = [], head.next
            while n is not None and n.next is not None and len(row) < CAP:
                row.append(n)
                n = n.next
            if n is None:
                down = BADV
            rows.append(row)
            head = head.down
        rows.reverse()
        for i in range(1, len(rows)):
            ids = {id(m) for m in rows[i - 1]}
            for m in rows[i]:
                if id(m.down) not in ids or m.down.key != m.key:
                    down = 0
        keys = [[self.dec(m.key) for m in row] for row in rows]
        grid = []
        for line in str(self.l).split("\n"):
            row, t = [], line.replace(", ", ",").split()
            for c in t:
                row.append(NONE if c == "None" else
                           self.dec(ast.literal_eval(c.replace("inf", "1e999"))[0]))
            grid.append(row)
        return {"levels": keys, "items": [[self.dec(m.key), self.d.dec(m.data)] for m in rows[0]], "size": I(self.l.size),
                "nlevels": I(self.l.levels), "down": down, "str": grid[:len(rows)]}


def run(s, events):
    replay(Drv(s["v"], s["cfg"], s), s, events)


def models(tier):
    return [("SkipList_MC", mc(4, properties="Grows KeyErrorOnlyIfAbsent", Keys="{1, 2, 3}", Coins="{0, 1}")),
            ("SkipList_MC", mc(5, properties="Grows KeyErrorOnlyIfAbsent", Keys="{1, 2, 3}", Coins="{0, 1}"), (),
             0.05 if tier == "quick" else 0.5)]


def from_model(m):
    yield {"v": "", "cfg": m["cfg"], "ops": m["ops"] + [["search", k] for k in (0, 1, 2, 3, 4)]}


def seeded(tier, rng):
    for k in (70, 150):      # large ones
        ks = rng.sample(range(-k, k), k)
        ops = [["insert", x, j, rng.choice([0, 1, 2, 3, 4, rng.randrange(5, 1000)])] for j, x in enumerate(ks)]
        yield {"v": "", "cfg": {"z": 0}, "ops": ops + [["extract", x] for x in rng.sample(ks, 12)] + [["search", x] for x in ks[:6]]}
    for n in range(200 if tier == "quick" else 3000):
        v = rng.choice(["", "str", "tup", "half", "inf"])
        hi = 8 if v == "inf" else rng.choice([3, 8, 30])
        uniq = rng.random() < 0.6
        ops, have, p = [], [], 0.65
        for k in range(rng.choice([10, 25, 50])):
            if k % 10 == 9:
                p = rng.choice([0.2, 0.5, 0.8])
            x = rng.randrange(-hi, hi + 1)
            if rng.random() < p:
                if uniq and x in have:
                    ops.append(["search", x])
                else:
                    ops.append(["insert", x, k, rng.choice([0, 1, 2, 3, 4, rng.randrange(5, 1000)])])
                    have.append(x)
            elif rng.random() < 0.3:
                ops.append(["search", x])
            else:
                x = rng.choice(have) if have and rng.random() < 0.8 else x
                ops.append(["extract", x])
                if x in have:
                    have.remove(x)
        yield {"v": v, "cfg": {"z": 0}, "ops": ops}
