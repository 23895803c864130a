"""S01: tries.  Letters are small integers on the specification's side."""
from lib import *

MODULE = "Trie_Trace"
ALPHA = {"abc": "abcdefgh", "wide": "".join(chr(33 + c) for c in range(200)), "odd": "\x00 $\u00e9A\n.0"}


class Drv:
    def __init__(self, s):
        from pydatastructs import Trie
        self.t = Trie()
        self.alpha = ALPHA[s["v"]]
        self.seen = []
        self.note([])

    def note(self, w):
        for n in range(len(w) + 1):
            if w[:n] not in self.seen:
                self.seen.append(w[:n])
        for z in (w + [1], w[:-1] + [3]):
            if z not in self.seen and len(self.seen) < 60:
                self.seen.append(z)

    def enc(self, w):
        return "".join(self.alpha[c - 1] for c in w)

    def dec(self, s):
        return [self.alpha.index(c) + 1 for c in s] if isinstance(s, str) and all(c in self.alpha for c in s) else [BADV]

    def op_insert(self, w):
        self.note(w)
        return self.t.insert(self.enc(w))

    def op_delete(self, w):
        r = self.t.delete(self.enc(w))
        return None if r is None else B(r)

    def op_inserted(self, w):
        return B(self.t.is_inserted(self.enc(w)))

    def op_present(self, w):
        return B(self.t.is_present(self.enc(w)))

    def obs(self):
        t = self.t
        return {"probe": [[w, B(t.is_inserted(self.enc(w))), B(t.is_present(self.enc(w)))] for w in self.seen],
                "lists": [[w, [self.dec(x) for x in t.strings_with_prefix(self.enc(w))]] for w in self.seen]}


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    q = tier == "quick"
    return [("Trie_MC", mc(4, "Refines", Words="<- W1", Ops='{"insert", "delete"}'), (), 0.8 if q else 1),
            ("Trie_MC", mc(4 if q else 5, "Refines", Words="<- W2", Ops='{"insert", "delete"}'), (), 0.1)]


N = 0


def from_model(m):
    global N
    N += 1
    yield {"v": "abc" if N % 3 else "odd", "ops": m["ops"]}


def seeded(tier, rng):
    wide = [[c] for c in range(1, 70)]      # long words and many children
    long = [rng.randrange(1, 4) for _ in range(90)]
    ops = [["insert", w] for w in wide] + [["delete", w] for w in wide[::9]] + [["insert", [1, 2]], ["delete", [1]]]
    yield {"v": "wide", "ops": ops}
    yield {"v": "wide", "ops": [["insert", long], ["insert", long[:60]], ["delete", long], ["inserted", long[:60]], ["insert", long[:80]], ["delete", long[:60]]]}
    for n in range(300 if tier == "quick" else 4000):
        a = rng.choice([1, 2, 3])
        pool = [[rng.randrange(1, a + 1) for _ in range(rng.choice([0, 1, 2, 3, 4, 6]))] for _ in range(8)]
        pool += [w[:rng.randrange(len(w) + 1)] for w in pool]
        ops = []
        for _ in range(rng.choice([6, 14, 25])):
            o = rng.choices(["insert", "delete", "inserted", "present"], (5, 4, 1, 1))[0]
            ops.append([o, rng.choice(pool)])
        yield {"v": "abc" if n % 3 else "odd", "ops": ops}
