"""D05: one-dimensional segment tree (stabbing queries).  Coordinates are half integers; the
specification sees them doubled."""
from lib import *

MODULE = "Stab_Trace"


def run(s, events):
    from pydatastructs import OneDimensionalSegmentTree
    two = lambda v: I(v * 2)
    half = lambda v: v / 2 if abs(v) < LIM else v * float("inf")
    mk = {"list": list, "tuple": tuple, "set": set}
    inner, outer, when = s["v"].split("/")
    flip = s.get("flip", [])
    segs = [(half(b), half(a)) if flip and flip[j] else (half(a), half(b)) for j, (a, b) in enumerate(s["cfg"]["ivs"])]
    if s.get("ints"):
        segs = [(int(a), int(b)) for a, b in segs]
    given = mk[outer](mk[inner](x) for x in segs)
    t = OneDimensionalSegmentTree(given)
    same = list(map(mk[inner], given)) == list(map(mk[inner], segs))
    for x in list(given):       # the caller's own lists are not kept
        if inner == "list":
            x[:] = [0, 9]
    if outer == "list":
        del given[:]
    if when == "build":
        t.build()
    events.append(ev("init", [], "", NONE, s["cfg"]["ivs"] if same else BADV))
    for x in s["qs"]:
        if isinstance(x, list):         # a collection that holds something else than pairs is refused
            bad = mk[outer](i if n == 0 else mk[inner](range(i, i + n)) for i, n in enumerate(x))
            xn, r = call(lambda: OneDimensionalSegmentTree(bad) and None)
            events.append(ev("make", [x], xn))
            continue
        xn, r = call(lambda: t.query(half(x)))
        events.append(ev("query", [x], xn, NONE if xn else sorted([two(n.key[1]), two(n.key[2])] for n in r)))


V = ["list/list/build", "tuple/list/lazy", "tuple/tuple/build", "list/tuple/lazy"]
N = 0


def models(tier):
    if tier == "quick":
        return [("Stab_MC", mc(0, "Refines", Points="{0, 1, 2, 3}", MinN=0, MaxN=3), (), 1)]
    return [("Stab_MC", mc(0, "Refines", Points="{0, 1, 2, 3}", MinN=0, MaxN=4), (), 0.4),
            ("Stab_MC", mc(0, "Refines", Points="{0, 1, 2, 3, 4, 5}", MinN=2, MaxN=3), (), 0.8)]


def from_model(m):
    global N
    N += 1
    ivs = [[2 * a, 2 * b] for a, b in m["cfg"]["ivs"]]
    hi = max([b for _, b in ivs] + [2])
    yield {"v": V[N % 4], "cfg": {"ivs": ivs}, "qs": list(range(-3, hi + 4)), "ints": N % 2, "flip": [N // 4 % 3 == 0 and j % 2 for j in range(len(ivs))]}


def seeded(tier, rng):
    for n, m in enumerate((40, 64, 70)):      # many
        ivs = [sorted(rng.randrange(-500, 500) for _ in range(2)) for _ in range(m)]
        yield {"v": V[n % 4], "cfg": {"ivs": ivs}, "qs": [rng.choice(rng.choice(ivs)) + rng.choice([0, 0, 1, -1]) for _ in range(25)], "flip": [rng.random() < 0.2 for _ in ivs]}
    for n in range(500 if tier == "quick" else 6000):
        m = rng.randrange(1, 13)
        lim = rng.choice([6, 20, 400])
        ivs = [sorted(rng.randrange(-lim, lim) for _ in range(2)) for _ in range(m)]
        if rng.random() < 0.3:
            ivs += [list(rng.choice(ivs)) for _ in range(2)]
        ends = [e for i in ivs for e in i]
        qs = sorted(set(ends + [e + 1 for e in ends] + [e - 1 for e in ends] + [rng.randrange(-lim - 3, lim + 3) for _ in range(5)]))
        rng.shuffle(qs)
        if rng.random() < 0.2:
            for iv in ivs:
                iv[0] = -LIM if rng.random() < 0.2 else iv[0]
                iv[1] = LIM if rng.random() < 0.2 else iv[1]
            qs[:0] = [LIM, -LIM]
        qs = qs[:40]
        for _ in range(2):
            qs.insert(rng.randrange(len(qs)), [rng.choice([2, 2, 2, 0, 1, 3]) for _ in range(rng.randrange(1, 5))])
        v = V[n % 4]
        if n % 3 == 0 and all(a < b for a, b in ivs):
            v = "set" + v[v.index("/"):]
        yield {"v": v, "cfg": {"ivs": ivs}, "qs": qs, "flip": [rng.random() < 0.2 for _ in ivs]}
