"""Helpers for the drivers: normalised values, and the replay loop."""
NONE = -999999
BADV = -888888
LIM = 10 ** 9


def I(x):
    """int or None -> an integer TLC can compare with any other."""
    if x is None:
        return NONE
    if isinstance(x, bool):
        return 1 if x else 0
    if isinstance(x, int):
        return x if -LIM < x < LIM else BADV
    if isinstance(x, float):
        if x == float("inf"):
            return LIM
        if x == float("-inf"):
            return -LIM
        return int(x) if x == int(x) and abs(x) < LIM else BADV
    return BADV


class unruly:
    """Threads started inside are held up at any bytecode of the library, so that the work of one of them falls
    between two steps of another: interleavings a processor seldom shows.  Which ones is drawn from `what`."""

    def __init__(self, what, share=1):
        import random, zlib
        k = zlib.crc32(repr(what).encode())
        self.rng, self.on = random.Random(k), k % share == 0

    def trace(self, frame, event, arg):
        import time
        if "pydatastructs" not in frame.f_code.co_filename:
            return None
        frame.f_trace_opcodes = True
        if self.rng.random() < .1:
            time.sleep(self.rng.choice((0, 2e-5, 2e-4)))
        return self.trace

    def __enter__(self):
        import threading
        if self.on:
            threading.settrace(self.trace)

    def __exit__(self, *_):
        import threading
        if self.on:
            threading.settrace(None)


class Same:
    """an item that is equal to all of its kind, and false: cells are told apart by what they hold"""
    def __init__(self, v):
        self.v = v.v if type(v) is Same else v

    def __eq__(self, other):
        return type(other) is Same

    def __hash__(self):
        return 0

    def __bool__(self):
        return False

    def __repr__(self):
        return str(self.v)


class Codec:
    """The integers of a scenario as items of another type in the same order."""
    KINDS = {
        "num": (int, lambda x: x, lambda y: y),
        "half": (float, lambda x: x / 2, lambda y: int(y * 2)),
        "big": (int, lambda x: x * 10 ** 25, lambda y: y // 10 ** 25),
        "str": (str, lambda x: "k'%06d" % (x + 500000), lambda y: int(y[2:]) - 500000),
        "tup": (tuple, lambda x: (x // 3, str(x % 3)), lambda y: y[0] * 3 + int(y[1])),
        "same": (Same, Same, lambda y: y.v),
    }
    CELLS = ("num", "num", "num", "big", "half", "str", "tup", "same", "same")

    def __init__(self, s, names=("num", "num", "big", "half", "str", "tup")):
        """the type is drawn from the scenario itself"""
        import zlib
        self.name = names[zlib.crc32(repr([s.get("cfg"), s["ops"]]).encode()) % len(names)] if isinstance(s, dict) else s
        self.type, self._enc, self._dec = self.KINDS[self.name]

    def next(self):
        """another type (an array based stack or queue that was emptied takes any)"""
        names = ("num", "str", "big", "half", "tup")
        self.__init__(names[(names.index(self.name) + 1) % len(names)])

    def enc(self, x):
        return None if x is None or x == NONE else self._enc(x)

    def dec(self, y):
        if y is None:
            return NONE
        if self.name == "num":
            return I(y)
        try:
            x = self._dec(y) if type(y) is self.type else BADV
            return x if x != BADV and self._enc(x) == y else BADV
        except (ValueError, TypeError, IndexError):
            return BADV

    def read(self, text):
        """what str() makes of an item"""
        import ast
        if self.name == "same":
            return int(text)
        return self.dec(text if self.name == "str" else ast.literal_eval(text))


def B(x):
    """a value that must be exactly True/False -> 1/0."""
    return 1 if x is True else 0 if x is False else BADV


def S(xs):
    return [I(x) for x in xs]


def ev(op, a, x="", r=NONE, o=NONE):
    return {"op": op, "a": a, "x": x, "r": r, "o": o}


def call(f):
    """(exception name or "", value)"""
    try:
        return "", f()
    except Exception as e:
        return type(e).__name__, None


class Skip(Exception):
    """the operation does not apply to the state actually reached: the trace ends here"""


def replay(drv, s, events, obs_first=True):
    """Steps the operations of scenario s through driver drv: after each call the result
    (or exception) and the projected state are recorded."""
    def observe():
        try:
            return drv.obs(), ""
        except Exception as e:
            return NONE, "OBS:" + type(e).__name__
    if obs_first:
        o, x = observe()
        events.append(ev("init", [], x, NONE, o))
        if x:
            return
    for op, *a in s["ops"]:
        try:
            r, x = getattr(drv, "op_" + op)(*a), ""
        except Skip:
            return
        except Exception as e:
            r, x = NONE, type(e).__name__
        o, ox = observe()
        events.append(ev(op, a, ox or x, NONE if (x or r is None) else r, o))
        if ox:
            return


def mc(depth, invariants="", properties="", emit=True, **consts):
    """TLC configuration of an X_MC module built on ModelBase."""
    return """SPECIFICATION ModelSpec
CONSTANTS MInits <- MC_Inits  MCalls <- MC_Calls  MDo <- MC_Do
  Depth = %d  Emit = %s  %s
INVARIANTS %s EmitScenario
%s""" % (depth, "TRUE" if emit else "FALSE", "  ".join("%s %s" % (k, v if str(v).startswith("<-") else "= %s" % v) for k, v in consts.items()), invariants,
         ("PROPERTIES " + properties + "\n") if properties else "")
