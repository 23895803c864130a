"""N01: the nodes and edges of the structures carry what they were given."""
import ast, random, re
from lib import *

MODULE = "Nodes_Trace"
BOTH = ("tree", "lgraph", "mgraph", "edge")
KINDS = ["tree", "cart", "rb", "bino", "mary", "ll", "skip", "set", "trie", "lgraph", "mgraph", "edge"]
OBJ = [[j] for j in range(1000)]
FIELDS = {"tree": "key data left right parent height size is_root", "cart": "key data left right parent height size is_root priority",
          "rb": "key data left right parent height size is_root color", "bino": "key data parent is_root", "mary": "key data is_root",
          "ll": "key data next prev", "skip": "key data next down", "set": "key data parent size", "trie": "char is_terminal",
          "lgraph": "name data", "mgraph": "name data", "edge": "value"}


def put(x):
    t, n = x
    return {"int": lambda: n, "big": lambda: 2 ** 63 - 1 + n, "flo": lambda: n + .5, "fin": lambda: n + 2 ** -30, "quo": lambda: "q'%d" % n, "str": lambda: "s%d" % n, "nul": lambda: "z\0%d" % n,
            "sur": lambda: "\ud800%d" % n, "obj": lambda: OBJ[n], "none": lambda: None, "name": lambda: "n%d" % n, "digits": lambda: str(n)}[t]()


def seen(x, same=True):
    """the value x; printed ones are not the objects themselves"""
    if x is None:
        return ["none", 0]
    if isinstance(x, int):
        return ["int", int(x)] if abs(x) < 10 ** 6 else ["big", I(x - (2 ** 63 - 1))]
    if type(x) is float:
        return ["flo", I(x - .5)] if x - int(x) == .5 else ["fin", I(x - 2 ** -30)]
    if type(x) is str:
        m = re.fullmatch(r"(n|s|q'|z\0|\ud800|)(\d+)", x)
        if m:
            return [{"n": "name", "s": "str", "q'": "quo", "z\0": "nul", "\ud800": "sur", "": "digits"}[m.group(1)], int(m.group(2))]
    if type(x) is list and len(x) == 1 and 0 <= x[0] < 1000 and (x is OBJ[x[0]] or not same):
        return ["obj", x[0]]
    return ["other", 0]


class Drv:
    def __init__(self, s):
        import pydatastructs.utils.misc_util as M
        c = s["cfg"]
        self.t, self.cpp, self.M = c["t"], c["be"] == "cpp", M
        kw = {"backend": M.Backend.CPP} if self.cpp else {}
        f = {k: put(v) for k, v in c["f"]}
        late = {k: f.pop(k) for k in ("left", "right", "parent") if k in f and self.t != "ll"}
        t = self.t
        self.pool = []
        if t == "tree":
            x = M.TreeNode(f.pop("key"), f.pop("data", None), **kw)
        elif t == "ll":
            links = [k for k in ("next", "prev") if k in f]
            x = M.LinkedListNode(f.pop("key"), f.pop("data", None), links=links, addrs=[f.pop(k) for k in links])
        elif t in ("lgraph", "mgraph"):
            if t == "lgraph":
                self.pool = [M.AdjacencyListGraphNode(n, put(d), **kw) for n, d in c["adj"]]
                self.given = list(self.pool)
                if self.given:
                    form = s.get("form", "list")
                    f["adjacency_list"] = tuple(self.given) if form == "tuple" else iter(self.given) if form == "iter" else self.given
            x = (M.AdjacencyListGraphNode if t == "lgraph" else M.AdjacencyMatrixGraphNode)(f.pop("name"), **f, **kw)
            f = {}
        elif t == "edge":
            self.ends = [M.AdjacencyListGraphNode("n%d" % n, n, **kw) for n in (1, 2)]
            x = M.GraphEdge(*self.ends, **f, **kw)
            f = {}
        else:
            C = {"cart": M.CartesianTreeNode, "rb": M.RedBlackTreeNode, "bino": M.BinomialTreeNode, "mary": M.MAryTreeNode,
                 "skip": M.SkipNode, "set": M.Set, "trie": M.TrieNode}[t]
            x, f = C(**f), {}
        for k, v in dict(f, **late).items():
            setattr(x, k, v)
        self.x, self.kids = x, []

    def obs(self):
        x, t = self.x, self.t
        f = [[k, seen(getattr(x, k))] for k in FIELDS[t].split()]
        up, ch, adj = 1, [], []
        if t == "mary":
            ch = [I(x.children[j]) for j in range(x.children._last_pos_filled + 1)]
        elif t == "bino":
            ch = [I(x.children[j].key) for j in range(x.children._last_pos_filled + 1)]
            up = B2(all(x.children[j].parent is x for j in range(x.children._last_pos_filled + 1)))
        elif t == "trie":
            ch = [[n, y] for n in range(6) for y in [self.get(n)] if y != NONE]
        elif t == "lgraph":
            for n in x.adjacent:
                y = x.adjacent[n] if self.cpp else getattr(x, n) if isinstance(n, str) else None
                adj.append([n, seen(y.data if hasattr(y, "data") else y)])
        if t == "edge" and not self.cpp and (x.source is not self.ends[0] or x.target is not self.ends[1]):
            up = 0
        return {"f": f, "ch": ch, "up": up, "adj": adj, "p": self.printed()}

    def printed(self):
        if self.t in ("set", "trie"):
            return []
        s = str(self.x).replace("\0", "\\x00")
        if self.t == "edge" and self.cpp:        # a string is not quoted
            s = re.sub(r"([szq]'?(\\x00)?\d+)\)$", lambda m: '"%s")' % m[1], s)
        return [seen(v, False) for v in ast.literal_eval(s)]

    def op_set(self, f, v):
        setattr(self.x, f, put(v))

    def op_call(self, f, v):
        setattr(self.x, f, put(v))

    def op_erase(self, f, _):
        delattr(self.x, f)

    def op_child(self, ks):
        self.x.add_children(*[self.M.BinomialTreeNode(k) if self.t == "bino" else k for k in ks])

    def op_near(self, n, d):
        self.x.add_adjacent_node(n, put(d))

    def op_apart(self, n):
        self.x.remove_adjacent_node(n)

    def op_other(self, n, d):
        [y for y in self.pool if y.name == n][0].data = put(d)

    def op_all(self, adj, *_):
        """the neighbours replaced; one of them is no node when it has no name"""
        self.x.adjacent = {n: self.M.AdjacencyListGraphNode(n, put(d), backend=self.M.Backend.CPP) if n != "bad" else d for n, d in adj}

    def op_spoil(self):
        del self.given[:]

    def op_put(self, n, k):
        y = self.M.TrieNode("c%d" % n)
        y.id = k
        self.x.add_child(y)

    def get(self, n):
        y = self.x.get_child("c%d" % n)
        return NONE if y is None else y.id if y.char == "c%d" % n else BADV

    def op_get(self, n):
        return self.get(n)

    def op_drop(self, n):
        self.x.remove_child("c%d" % n)


def B2(b):
    return 1 if b else 0


def run(s, events):
    replay(Drv(s), s, events)


def models(tier):
    q = tier == "quick"
    def m(d, kinds):
        return mc(d, "Unique Fixed", "OneThing Refusals Reads", MKinds="{%s}" % kinds)
    return [("Nodes_MC", m(2, '"tree", "cart", "rb", "bino", "mary", "ll", "skip", "set"'), (), 1),
            ("Nodes_MC", m(3 if q else 4, '"trie", "lgraph"'), (), .5 if q else .3),
            ("Nodes_MC", m(2 if q else 3, '"mgraph", "edge"'), (), 1)]


def from_model(m):
    yield {"v": m["cfg"]["t"] + "." + m["cfg"]["be"], "cfg": m["cfg"], "ops": m["ops"]}


def seeded(tier, rng):
    for n in range(400 if tier == "quick" else 6000):
        t = KINDS[n % len(KINDS)]
        be = rng.choice(["py", "cpp"]) if t in BOTH else "py"
        kinds = ["int", "int", "big", "flo", "fin", "str", "quo", "nul", "sur", "obj", "none"]

        def val():
            k = rng.choice(kinds)
            return [k, 0 if k == "none" else rng.choice([0, 0, 1, rng.randrange(1000)]) + (k == "big")]

        def fine():
            while True:
                v = val()
                if not (t == "edge" and be == "cpp" and v[0] in ("big", "sur", "obj")):
                    return v
        have = FIELDS[t].split()
        may = [f for f in have if f not in ("height", "size", "is_root", "is_terminal", "color", "name")]
        f = []
        if "name" in have:
            f.append(["name", [rng.choice(["name", "quo", "int"] if be == "py" or t == "mgraph" else ["name", "quo"]), rng.randrange(50)]])
        for k in may:
            if k in ("key", "char", "priority") or k in ("next", "prev") and t == "ll":
                f.append([k, fine()])
            elif rng.random() < .5 and (k in ("data", "value") or t in ("tree", "skip") and k in ("left", "right", "next", "down")):
                f.append([k, fine()])
        adj = [["n%d" % j, fine()] for j in rng.sample(range(1, 9), rng.randrange(4))] if t == "lgraph" else []
        ops = []
        for _ in range(rng.choice([3, 8, 20])):
            r = rng.random()
            if t in ("lgraph", "mgraph") and rng.random() < .2:
                if be == "cpp" and rng.random() < .3:
                    ops.append(["erase", rng.choice(["name", "data"] + ["adjacent"] * (t == "lgraph")), ["none", 0]])
                else:
                    ops.append(["call", "name", [rng.choice(["name", "quo"] + ["int", "flo", "obj", "none"] * (be == "cpp")), rng.randrange(50)]])
            elif t == "lgraph" and r < .65:
                ops.append(rng.choice([["near", "n%d" % rng.randrange(1, 9), val()]] * 3 + [["apart", "n%d" % rng.randrange(1, 9)]] * 2 +
                                      ([["other", rng.choice(adj)[0], val()], ["spoil"]] if adj else [])))
            elif t == "lgraph" and be == "cpp" and r < .75:
                new = [["n%d" % j, val()] for j in rng.sample(range(1, 9), rng.randrange(4))] + ([["bad", val()]] if rng.random() < .4 else [])
                ops.append(["all", rng.sample(new, len(new))])
            elif t == "trie" and r < .8:
                ops.append(rng.choice([["put", rng.randrange(6), rng.randrange(100)], ["get", rng.randrange(6)], ["drop", rng.randrange(6)]]))
            elif t in ("bino", "mary") and r < .6:
                ops.append(["child", [rng.randrange(1000) for _ in range(rng.randrange(4))]])
            elif may:
                ops.append(["set", rng.choice(may), val()])
        yield {"v": t + "." + be, "cfg": {"t": t, "be": be, "f": f, "ch": [], "adj": adj}, "ops": ops, "form": rng.choice(["list", "tuple", "iter"])}
