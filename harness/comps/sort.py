"""O01: all sorting functions, array kinds and backends."""
from lib import *

MODULE = "Sort_Trace"
CMP = {"asc": None, "asc_lt": lambda u, v: u < v, "desc": lambda u, v: u >= v, "desc_gt": lambda u, v: u > v}
PIV = {"mid": lambda low, high, array: array[(low + high) // 2], "low": lambda low, high, array: array[low]}
WITH_COMP = ["merge1", "merge3", "brick", "brick_parallel", "cocktail", "quick", "quick_mid", "quick_low", "quick_cpp",
             "quick_cpp_mid", "bubble", "bubble_cpp", "selection", "selection_cpp", "insertion", "insertion_cpp", "shell"]
PLAIN = ["heap", "counting", "bucket", "intro", "intro_small", "intro_depth", "radix", "bubble_llvm", "selection_llvm",
         "bubble_i32_llvm", "selection_i32_llvm", "bubble_f32_llvm", "selection_f32_llvm"]
KINDS = ["oda", "doda", "oda_cpp", "doda_cpp", "oda_float", "doda_float",
         "oda_str", "doda_tup", "oda_half", "doda_str", "oda_cpp_str", "doda_cpp_tup", "doda_cpp_half", "doda_big", "oda_cpp_big"]
TYPES = ("str", "tup", "half", "big")
ALL = [(a, o) for a in WITH_COMP for o in CMP] + [(a, "asc") for a in PLAIN for _ in range(2)]


def coder(kind):
    return Codec(kind.rsplit("_", 1)[1] if kind.endswith(TYPES) else "num")


def build(kind, cells):
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    kw = {"backend": Backend.CPP} if "cpp" in kind else {}
    if kind.endswith(TYPES):
        num, k = coder(kind).type, coder(kind).enc
    else:
        num = k = float if kind.endswith("float") else int
    if kind.startswith("oda"):
        a = OneDimensionalArray(num, len(cells), **kw)
        for i, c in enumerate(cells):
            if c != NONE:
                a[i] = k(c)
        return a
    live = sum(c != NONE for c in cells)
    if live * 4 < len(cells):
        kw["load_factor"] = 0.0
    a = DynamicOneDimensionalArray(num, [k(0) if c == NONE else k(c) for c in cells], **kw) if cells else \
        DynamicOneDimensionalArray(num, 0, **kw)
    for i, c in enumerate(cells):
        if c == NONE:
            a.delete(i)
    return a


def sort(alg, a, kw):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import Backend
    f = alg.split("_")
    if f[-1] == "llvm":
        kw["backend"] = Backend.LLVM
        if len(f) == 3:
            kw["dtype"] = {"i32": "int32", "f32": "float32"}[f[1]]
    if "cpp" in f:
        kw["backend"] = Backend.CPP
    if f[-1] in PIV:
        kw["pick_pivot_element"] = PIV[f[-1]]
    if alg.startswith("merge") or alg == "brick_parallel":
        with unruly((alg, len(a), str([a[j] for j in range(len(a))])), 8):
            if alg == "brick_parallel":
                return p.brick_sort_parallel(a, 3, **kw)
            return p.merge_sort_parallel(a, int(alg[5:]), **kw)
    if alg == "intro_small":
        kw["ins_threshold"] = 2
    if alg == "intro_depth":
        kw.update(ins_threshold=2, maxdepth=1)
    name = {"heap": "heapsort", "cocktail": "cocktail_shaker_sort"}.get(f[0], f[0] + "_sort")
    return getattr(p, name)(a, **kw)


def run(s, events):
    alg, order, kind, cells, lo, hi = s["job"]
    a = build(kind, cells)
    dec = coder(kind).dec
    kw = {}
    if CMP[order]:
        kw["comp"] = CMP[order]
    if (lo, hi) != (0, len(cells) - 1):
        kw.update(start=lo, end=hi)
    x, r = call(lambda: sort(alg, a, kw))
    n = a.size if kind.startswith("doda") else len(a)
    o = {"cells": [dec(a[i]) for i in range(n)], "copy": [], "dyn": 0, "more": []}
    if alg == "counting" and not x:
        m = r.size if kind.startswith("doda") else len(r)
        o["copy"] = [dec(r[i]) for i in range(m)]
        r = None
    if kind.startswith("doda"):
        o["dyn"] = 1
        a.append(coder(kind).enc(77))
        o["more"] = [dec(a[i]) for i in range(a.size) if a[i] is not None]
    events.append(ev("sort", [alg, order.split("_")[0], cells, lo, hi], x, NONE if x else 1 if r is None or r is a else 0, o))


def models(tier):
    if tier == "quick":
        return [("Sort_MC", mc(1, "Determined", Vals="<- V1", MaxLen=4, Orders='{"asc", "desc"}'))]
    return [("Sort_MC", mc(1, "Determined", Vals="<- V2", MaxLen=4, Orders='{"asc", "desc"}')),
            ("Sort_MC", mc(1, "Determined", Vals="<- V1", MaxLen=5, Orders='{"asc", "desc"}'))]


COUNT = 0


def pick(alg_order, kind, cells, lo, hi):
    alg, order = alg_order
    if alg == "counting" and ("cpp" in kind or (lo, hi) != (0, len(cells) - 1)):
        return None      # documented for whole Python arrays
    if kind.endswith(TYPES) and (alg == "counting" or alg in ("radix", "bucket") and not kind.endswith("big") or "llvm" in alg):
        return None
    if kind.endswith("float") and (alg in ("counting", "radix", "bucket") or "_i32" in alg):
        return None
    if not kind.endswith("float") and "_f32" in alg:
        return None
    if alg == "radix" and any(NONE < c < 0 for c in cells):
        return None      # documented for non-negative integers
    return {"v": "%s/%s/%s" % (alg, order, kind), "job": [alg, order, kind, cells, lo, hi]}


def from_model(m):
    """the algorithms rotate over the enumerated inputs, so that every (algorithm, kind) pair meets a
    different systematic sample; small inputs meet all of them"""
    global COUNT
    cells = m["cfg"]["cells"]
    _, order, lo, hi = m["ops"][0]
    if not cells:
        hi = -1
    cand = [(a, o) for a, o in ALL if o.startswith(order)]
    jobs = []
    if len(cells) <= 2:
        jobs = [pick(ao, k, cells, lo, hi) for ao in cand for k in KINDS]
    else:
        for i in range(14):
            COUNT += 1
            jobs.append(pick(cand[COUNT % len(cand)], KINDS[(COUNT // len(cand) + i) % len(KINDS)], cells, lo, hi))
    return [j for j in jobs if j]


def seeded(tier, rng):
    for n, m in enumerate((64, 65, 100, 130, 257)):      # long ones
        for lim in (3, 100000):
            cells = [rng.randrange(0, lim) for _ in range(m)]
            if n % 2:
                cells[m // 3] = cells[-1] = NONE
            yield from [j for j in (pick(ao, KINDS[(n + q) % len(KINDS)], cells, 0, m - 1) for q, ao in enumerate(ALL) if n < 4 or q % 4 == lim % 4) if j]
    for n in range(150 if tier == "quick" else 3000):
        m = rng.choice([3, 5, 8, 16, 17, 30, 45])
        lim = rng.choice([2, 10, 1000])
        low = 0 if rng.random() < 0.5 else -lim
        pn = rng.choice([0, 0, 0.2, 0.5])
        cells = [NONE if rng.random() < pn else rng.randrange(low, lim + 1) for _ in range(m)]
        shape = rng.random()
        live = sorted(c for c in cells if c != NONE)
        if shape < 0.15:
            cells = live
        elif shape < 0.3:
            cells = live[::-1]
        m = len(cells)
        if not m:
            continue
        lo, hi = (0, m - 1) if rng.random() < 0.4 else sorted(rng.randrange(m) for _ in range(2))
        jobs = [pick(ao, rng.choice(KINDS), cells, *((0, m - 1) if ao[0] == "counting" else (lo, hi))) for ao in rng.sample(ALL, 30)]
        yield from [j for j in jobs if j]
