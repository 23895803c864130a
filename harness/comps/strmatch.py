"""S02: string matching.  Letters are code points on the specification's side."""
from lib import *

MODULE = "Text_Trace"
ALGS = ["kmp", "knuth_morris_pratt", "rabin_karp", "boyer_moore", "z_function"]


def run(s, events):
    from pydatastructs import find
    t, p = ("".join(map(chr, s[k])) for k in "tp")
    x, r = call(lambda: find(t, p, s["v"]))
    out = NONE
    if not x:
        r = [r[i] for i in range(len(r))]
        while r and r[-1] is None:      # unused capacity of the dynamic array
            r.pop()
        out = S(r)
    events.append(ev("find", [s["v"], s["t"], s["p"]], x, out))


def models(tier):
    if tier == "quick":
        return [("Text_MC", mc(1, "Refines", Letters="{1, 2}", MaxText=7, MaxPat=4), (), 0.6)]
    return [("Text_MC", mc(1, "Refines", Letters="{1, 2}", MaxText=9, MaxPat=5), (), 0.3),
            ("Text_MC", mc(1, "Refines", Letters="{1, 2, 3}", MaxText=6, MaxPat=3), (), 0.2)]


MAPS = [(97, 98, 99), (36, 97, 98), (97, 36, 354), (0, 1, 257), (48, 0x1F600, 36)]
N = 0


def jobs(t, p, algs=None):
    for a in algs or ALGS:
        yield {"v": a, "t": t, "p": p}


def from_model(m):
    global N
    N += 1
    c = MAPS[N % 5]
    tr = lambda w: [c[x - 1] for x in w]
    yield from jobs(tr(m["cfg"]["t"]), tr(m["ops"][0][1]), [ALGS[N % 5], ALGS[(N + 2) % 5]])


def seeded(tier, rng):
    for n in range(3):      # long texts and patterns
        c = MAPS[n]
        u = [rng.choice(c[:2]) for _ in range((300, 140, 260)[n])]
        yield from jobs(u, u[-4:])
        yield from jobs(u, u[:130] if n else u)
        yield from jobs([c[0]] * 290, [c[0]] * (3, 150, 260)[n])
        yield from jobs([c[0]] * 270 + [c[1]], [c[0]] * (150, 3, 260)[n] + [c[1]])
    for n in range(400 if tier == "quick" else 6000):
        kind = rng.choice(["rand", "periodic", "fib", "collide"])
        c = rng.choice(MAPS)
        if kind == "rand":
            a = rng.choice([1, 2, 3])
            t = [rng.choice(c[:a]) for _ in range(rng.randrange(0, 40))]
            p = [rng.choice(c[:a]) for _ in range(rng.randrange(0, 6))]
            if t and rng.random() < 0.6:
                i = rng.randrange(len(t))
                p = t[i:i + rng.randrange(1, 12)]
        elif kind == "periodic":
            u = [rng.choice(c[:2]) for _ in range(rng.randrange(1, 5))]
            t = (u * 20)[:rng.randrange(1, 40)]
            p = (u * 9)[rng.randrange(len(u)):][:rng.randrange(1, 18)]
            if rng.random() < 0.3:
                t[rng.randrange(len(t))] = c[2]
        elif kind == "fib":
            a, b = [c[0]], [c[0], c[1]]
            for _ in range(5):
                a, b = b, b + a
            t, i = b[:rng.randrange(5, 34)], rng.randrange(20)
            p = b[i:i + rng.randrange(1, 14)]
        else:                           # same polynomial hash, different strings
            x, y = rng.randrange(1, 90), rng.randrange(2, 90)
            p = [x, y] if rng.random() < 0.5 else [x + 257, y - 1]
            q = [x + 257, y - 1] if p[0] == x else [x, y]
            t = []
            for _ in range(rng.randrange(1, 10)):
                t += rng.choice([p, q, [rng.randrange(1, 300)]])
        yield from jobs(t, p)
