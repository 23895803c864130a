"""Runs scenarios of one component on the real code and records their traces."""
import importlib, json, os, resource, signal, sys


class Hang(BaseException):
    pass


def on_hang(*_):
    raise Hang()


CPU_PY = float(os.environ.get("VERIF_CPU_PY", "8"))
CPU_KILL = float(os.environ.get("VERIF_CPU_KILL", "16"))


def main():
    comp, fin, fout = sys.argv[1:4]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        mod = importlib.import_module("comps." + comp)
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(77)
    signal.signal(signal.SIGVTALRM, on_hang)
    out = open(fout, "w")
    hangs = 0
    for line in open(fin):
        rec = json.loads(line)
        s = rec["s"]
        events = []
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_PY, 1.0)
        signal.setitimer(signal.ITIMER_PROF, CPU_KILL)
        try:
            mod.run(s, events)
        except Hang:
            events.append({"op": "<process>", "a": [], "x": "HANG", "r": -999999, "o": -999999})
        except Exception as e:       # set-up (construction) failed
            import traceback
            events.append({"op": "<setup>", "a": traceback.format_exc()[-500:].splitlines()[-4:], "x": "CRASH", "r": -999999, "o": -999999})
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        hangs += bool(events) and events[-1]["x"] == "HANG"
        out.write(json.dumps({"i": rec["i"], "t": {"ev": events}}) + "\n")
        out.flush()
        if hangs >= 3:      # evidence enough; the other scenarios would hang too
            sys.exit(78)


main()
