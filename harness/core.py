"""Machinery shared by every check.

    main.py <PROPERTY> [quick|thorough]

 1. builds /repo's C++ extensions out of tree and copies the Python package next
    to them (a scratch directory: /repo is only read);
 2. runs TLC on the property's specification (exhaustively, small constants),
    which checks the specification's own invariants and prints the scenarios
    (operation histories / inputs) it enumerated;
 3. replays those scenarios, and further seeded ones, on the real code in worker
    processes that record one event per call (name, arguments, result or
    exception, projected state);
 4. lets TLC validate every recorded trace against the specification.  A trace
    that the specification does not allow is reported with the clause that failed.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
TLA = "/opt/veriftools/tla"
NPROC = int(os.environ.get("VERIF_WORKERS", "6"))

NONE = -999999
BADV = -888888


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- build
def build(scratch):
    """Copy of the package with freshly built extensions; returns its parent."""
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:" + env["PATH"]
    env.update(CXXFLAGS="-std=c++17", CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PIP_NO_INDEX="1", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    root = os.path.join(scratch, "tree")
    shutil.copytree(os.path.join(REPO, "pydatastructs"), os.path.join(root, "pydatastructs"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    h = hashlib.sha256()
    for d, dirs, files in os.walk(os.path.join(REPO, "pydatastructs")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", "meson.build")):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "meson.build"), "rb") as fh:
        h.update(fh.read())
    cache = os.path.join(tempfile.gettempdir(), "pds-verif-so", h.hexdigest()[:24])
    if not os.path.isdir(cache):
        bdir = os.path.join(scratch, "build")
        for cmd in (["meson", "setup", bdir, REPO, "--prefix=/usr"], ["ninja", "-C", bdir]):
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise MachineryError("build of the C++ extensions failed:\n" + p.stdout[-4000:])
        p = subprocess.run(["meson", "introspect", "--installed", bdir], env=env,
                           stdout=subprocess.PIPE, text=True, check=True)
        tmp = cache + ".%d" % os.getpid()
        for src, dest in json.loads(p.stdout).items():
            if src.endswith(".so"):
                rel = dest[dest.index("pydatastructs/"):]
                os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
                shutil.copy2(src, os.path.join(tmp, rel))
        shutil.rmtree(bdir, ignore_errors=True)
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(cache, root, dirs_exist_ok=True)
    return root


# ---------------------------------------------------------------- workers
def run_scenarios(scratch, tree, comp, scenarios, tag, nproc=None):
    """Replay scenarios on the real code; returns the list of recorded traces."""
    nproc = nproc or NPROC
    n = max(1, min(nproc, (len(scenarios) + 39) // 40))
    chunks = [list(range(k, len(scenarios), n)) for k in range(n)]
    results = [None] * len(scenarios)
    errors = []

    def go(k):
        todo = chunks[k]
        rnd = 0
        while todo:
            fin = os.path.join(scratch, "%s.%d.%d.in" % (tag, k, rnd))
            fout = os.path.join(scratch, "%s.%d.%d.out" % (tag, k, rnd))
            with open(fin, "w") as fh:
                for i in todo:
                    fh.write(json.dumps({"i": i, "s": scenarios[i]}) + "\n")
            env = dict(os.environ)
            env.update(PYTHONPATH=tree + ":" + os.path.join(VERIF, "harness"), PYTHONHASHSEED="0",
                       PYTHONDONTWRITEBYTECODE="1")
            p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(VERIF, "harness", "worker.py"), comp, fin, fout],
                                 cwd=tree, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                 start_new_session=True)
            err = []
            t = threading.Thread(target=lambda: err.append(p.stderr.read()[-3000:]))
            t.start()
            last, lastt = -1, time.time()
            stalled = False
            while p.poll() is None:
                time.sleep(0.02)
                sz = os.path.getsize(fout) if os.path.exists(fout) else 0
                if sz != last:
                    last, lastt = sz, time.time()
                elif time.time() - lastt > 100:
                    stalled = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
            t.join(5)
            done = set()
            if os.path.exists(fout):
                with open(fout) as fh:
                    for line in fh:
                        if not line.endswith("\n"):
                            break
                        r = json.loads(line)
                        results[r["i"]] = r["t"]
                        done.add(r["i"])
            rest = [i for i in todo if i not in done]
            if p.returncode == 78 or (p.returncode == 0 and not rest):
                return
            if p.returncode == 77 or (p.returncode > 0 and not done and rnd == 0) or not rest:
                errors.append("worker for %s failed (%s):\n%s" % (comp, p.returncode,
                              (err[0] if err else b"").decode(errors="replace")))
                return
            if os.environ.get("VERIF_VERBOSE"):
                print("worker ended with", p.returncode, (err[0] if err else b"").decode(errors="replace")[-1500:])
            # the code under test took the process down (or hung it) in scenario rest[0]
            kind = "HANG" if stalled or p.returncode in (-signal.SIGPROF, -signal.SIGXCPU) else "CRASH"
            s = scenarios[rest[0]]
            results[rest[0]] = {"ev": [{"op": "<process>", "a": [], "x": kind, "r": NONE, "o": NONE}]}
            todo = rest[1:]
            rnd += 1 if kind == "CRASH" else 9
            if rnd > 25:     # evidence enough; do not spend the budget restarting
                return

    ths = [threading.Thread(target=go, args=(k,)) for k in range(n)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise MachineryError(errors[0])
    out = []
    for i, r in enumerate(results):
        if r is None:
            continue
        s = scenarios[i]
        out.append({"id": i, "cfg": s.get("cfg", {"z": 0}), "v": s.get("v", ""), "ev": r["ev"]})
    return out


# ---------------------------------------------------------------- TLC
def tlc(scratch, module, cfg, env=None, args=(), timeout=800, workers="4", xmx="6g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + scratch, "-Xmx" + xmx, "-Xss64m", "-cp",
           TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-metadir", meta, "-workers", workers, "-deadlock", "-noGenerateSpecTE",
           "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, "".join(l for l in p.stdout.splitlines(True) if not l.startswith(("Parsing file", "Semantic proc", "Linting")))


def tlc_counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: ([\d,]+)", out)
        return (int(m2[-1].replace(",", "")), 0) if m2 else (0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Stats:
    def __init__(self):
        self.model_states = self.model_trans = 0
        self.trace_states = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.models = []
        self.ops = {}
        self.components = {}
        self.exhaustive_scenarios = 0
        self.seeded_scenarios = 0


def run_model(scratch, stats, module, cfgtext, gen=False, args=(), workers=None, timeout=800):
    """Check a model exhaustively; returns the scenarios it printed."""
    cfg = os.path.join(scratch, "%s.%d.cfg" % (module, len(stats.models)))
    with open(cfg, "w") as fh:
        fh.write(cfgtext)
    t = time.time()
    rc, out = tlc(scratch, module + ".tla", cfg, workers=workers or ("1" if gen else "6"), args=args, timeout=timeout)
    if rc != 0 or "Error:" in out:
        raise MachineryError("model %s: TLC reported an error\n%s" % (module, out[-3500:]))
    g, d = tlc_counts(out)
    stats.model_states += d
    stats.model_trans += g
    stats.models.append({"module": module, "distinct": d, "generated": g, "wall_s": round(time.time() - t, 1),
                         "cfg": " ".join(cfgtext.split())[:300]})
    res = []
    if gen:
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
    return res


def validate(scratch, stats, module, traces, tag, batch_events=60000, expect_all_bad=False, workers="6"):
    """TLC decides each trace; returns [(trace, event-number, clause)] for the rejected ones."""
    rejected = []
    batches, cur, n = [], [], 0
    for t in traces:
        cur.append(t)
        n += len(t["ev"]) + 1
        if n >= batch_events:
            batches.append(cur)
            cur, n = [], 0
    if cur:
        batches.append(cur)
    for b, batch in enumerate(batches):
        todo = batch
        for attempt in range(60 if expect_all_bad else 6):
            f = os.path.join(scratch, "%s.%s.%d.%d.ndjson" % (module, tag, b, attempt))
            with open(f, "w") as fh:
                for t in todo:
                    fh.write(json.dumps({"v": t["v"], "cfg": t["cfg"], "ev": t["ev"]}) + "\n")
            rc, out = tlc(scratch, module + ".tla", os.path.join(SPEC, "Trace.cfg"), env={"TRACE_FILE": f}, workers=workers)
            os.unlink(f)
            rej = {}
            if '"REJECT' in out and not re.search(r'^"REJECT\|', out, re.M):
                raise MachineryError("cannot read TLC's verdicts\n" + out[-1500:])
            for m in re.finditer(r'^"REJECT\|(\d+)\|(\d+)\|(.*)"$', out, re.M):
                rej[int(m.group(1))] = (int(m.group(2)), m.group(3))
            g, d = tlc_counts(out)
            if rc == 0 and "Error:" not in out:
                expect = sum((rej[k + 1][0] if k + 1 in rej else len(t["ev"])) + 1 for k, t in enumerate(todo))
                if d != expect:
                    raise MachineryError("trace validation of %s visited %d states, expected %d\n%s"
                                         % (module, d, expect, out[-1500:]))
                stats.trace_states += 0 if expect_all_bad else d
                for k, (i, c) in rej.items():
                    rejected.append((todo[k - 1], i, c))
                break
            # TLC could not evaluate a clause on a malformed observation: that trace is not a
            # behaviour of the specification either.  Report it and validate the others.
            m = re.findall(r"/\\ tr = (\d+)", out)
            mi = re.findall(r"/\\ i = (\d+)", out)
            if not m or "Error: " not in out or "OutOfMemory" in out or "StackOverflow" in out:
                raise MachineryError("trace validation of %s failed (rc %s)\n%s" % (module, rc, out[-3500:]))
            k = int(m[-1]) - 1
            why = [l for l in out.splitlines() if l.strip()]
            errl = [i for i, l in enumerate(why) if l.startswith("Error:")]
            detail = " ".join(why[errl[0]:errl[0] + 4])[:300] if errl else ""
            rejected.append((todo[k], int(mi[-1]) + 1 if mi else 0, "malformed observation (%s)" % detail))
            todo = todo[:k] + todo[k + 1:]
            if not todo:
                break
        else:
            pass
    if not expect_all_bad:
        stats.traces += len(traces)
        for t in traces:
            stats.events += len(t["ev"])
            for e in t["ev"]:
                stats.ops[e["op"]] = stats.ops.get(e["op"], 0) + 1
    return rejected
