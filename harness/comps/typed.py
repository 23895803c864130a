"""A06: containers hold only items of their declared type."""
import random
from lib import *

MODULE = "Typed_Trace"
TYPES = {"int": int, "float": float, "str": str}
VARIANTS = {"one": ["py", "cpp"], "multi": ["py"], "dyn": ["py", "cpp"], "stack": ["py", "cpp"], "queue": ["py"]}
OBJ = object()


def put(x):
    t, v = x
    return {"int": lambda: v, "float": lambda: v / 2, "obj": lambda: OBJ, "none": lambda: None,
            "str": lambda: str(v) if v < 1000 else str((v - 1000) / 2) if v < 2000 else "x%d" % v}[t]()


def seen(x):
    if x is None:
        return ["none", 0]
    if type(x) is int:
        return ["int", I(x)]
    if type(x) is float and x * 2 == int(x * 2):
        return ["float", I(int(x * 2))]
    if type(x) is str:
        if x[:1] == "x":
            return ["str", int(x[1:])]
        if x.isdigit():
            return ["str", int(x)]
        try:
            return ["str", 1000 + int(2 * float(x))]
        except ValueError:
            pass
    return ["other", 0]


class Drv:
    def __init__(self, s):
        import pydatastructs as P
        c = s["cfg"]
        self.s, self.done = s, []
        self.P, self.k, self.n, self.t = P, c["k"], c["n"], TYPES[c["t"]]
        self.kw = {"backend": P.Backend.CPP} if c["be"] == "cpp" else {}
        items = [put(x) for x in c["items"]]
        if self.k == "one":
            self.x = P.OneDimensionalArray(self.t, self.n, **self.kw)
        elif self.k == "multi":
            self.x = P.MultiDimensionalArray(self.t, 1, self.n)
        elif self.k == "dyn":
            self.x = P.DynamicOneDimensionalArray(self.t, items or 0, **self.kw)
        elif self.k == "stack":
            self.x = P.Stack(implementation="array", dtype=self.t, **({"items": items} if items else {}), **self.kw)
        else:
            self.x = P.Queue(implementation="array", double_ended=True, **({"items": items} if items else {"dtype": self.t}))

    def at(self, j):
        return (0, j) if self.k == "multi" else j

    def obs(self):
        if self.k == "one":
            self.n = len(self.x)
            return [seen(self.x[j]) for j in range(self.n)]
        if self.k == "multi":
            return [seen(self.x[0, j]) for j in range(self.n)]
        if self.k == "dyn":
            return [seen(self.x[j]) for j in range(self.x._last_pos_filled + 1)]
        # emptying would bring a new type, so it is another one that is emptied
        other = Drv(self.s)
        for op, *a in self.done:
            try:
                getattr(other, "op_" + op)(*a)
            except Exception:
                pass
        out = []
        while len(other.x):
            out.append(seen(other.x.pop()))
        return out[::-1]

    def op_set(self, j, x):
        self.x[self.at(j)] = put(x)

    def op_fill(self, x):
        self.x.fill(put(x))

    def op_new(self, t, xs):
        self.x = self.P.OneDimensionalArray(TYPES[t], [put(x) for x in xs], **self.kw)

    def op_times(self, t, n, x):
        self.x = self.P.OneDimensionalArray(TYPES[t], n, init=put(x), **self.kw)

    def op_put(self, x):
        (self.x.push if self.k == "stack" else self.x.append)(put(x))

    def op_putleft(self, x):
        self.x.appendleft(put(x))

    def op_take(self):
        return seen(self.x.pop())

    def op_takeleft(self):
        return seen(self.x.popleft())


class Logged:
    """remembers the calls made"""
    def __init__(self, d):
        self.d = d
        self.obs = d.obs

    def __getattr__(self, name):
        def call(*a):
            self.d.done.append([name[3:], *a])
            return getattr(self.d, name)(*a)
        return call


def run(s, events):
    replay(Logged(Drv(s)), s, events)


def models(tier):
    q = tier == "quick"
    def m(d, kinds, items):
        return mc(d, "Typed", "Refused Others Stays", MKinds="{%s}" % kinds, MItems="<- " + items)
    return [("Typed_MC", m(2 if q else 3, '"one", "multi"', "Items"), (), 1 if q else .3),
            ("Typed_MC", m(3, '"dyn", "stack"', "Items"), (), 1),
            ("Typed_MC", m(3 if q else 4, '"queue"', "Few"), (), 1 if q else .5)]


def from_model(m):
    if m["cfg"]["be"] in VARIANTS[m["cfg"]["k"]]:
        yield {"v": m["cfg"]["k"] + "." + m["cfg"]["be"], "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for n in range(250 if tier == "quick" else 4000):
        k, be = rng.choice([(k, b) for k in VARIANTS for b in VARIANTS[k]])
        t = rng.choice(sorted(TYPES))
        even = rng.random() < .5        # mostly of the right type

        def item(t):
            x = t if even and rng.random() < .7 else rng.choice(["int", "float", "str", "str", "obj"])
            if x == "obj" and (t == "str" or k in ("stack", "queue")):
                x = "int"               # what an object looks like as a string is not specified
            return [x, {"int": lambda: rng.choice([0, rng.randrange(900)]), "float": lambda: rng.choice([0, rng.randrange(900)]), "obj": lambda: 0,
                        "str": lambda: rng.choice([0, 0, 1000, 2000]) + rng.randrange(900)}[x]()]
        L = rng.choice([5, 12, 25])
        size = rng.randrange(1, 7)
        c = {"k": k, "be": be, "t": t, "n": size, "items": []}
        if k not in ("one", "multi") and rng.random() < .5:
            c["items"] = [[t, rng.randrange(900)] for _ in range(size)]
        ops, held = [], len(c["items"])
        for _ in range(L):
            r = rng.random()
            if k in ("one", "multi"):
                if k == "one" and r < .15:
                    ops.append(["times", t, size, item(t)])
                elif k == "one" and r < .3:
                    ops.append(["new", t, [item(t) for _ in range(size)]])
                elif r < .45:
                    ops.append(["fill", item(t)])
                else:
                    ops.append(["set", rng.randrange(size), item(t) if r < .9 else ["none", 0]])
            elif k == "dyn":
                if r < .6 or not c["items"]:
                    ops.append(["put", item(t)])
                else:
                    ops.append(["set", rng.randrange(len(c["items"])), item(t)])
            elif r < .6:
                ops.append([rng.choice(["put", "putleft"] if k == "queue" else ["put"]), item(t)])
            else:
                ops.append([rng.choice(["take", "takeleft"] if k == "queue" else ["take"])])
        yield {"v": k + "." + be, "cfg": c, "ops": ops}
