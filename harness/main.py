"""main.py <PROPERTY> [quick|thorough]   - decides one property on /repo's working tree."""
import fnmatch, importlib, json, os, random, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import BADV, NONE, MachineryError, Stats, VERIF
from props import PROPS


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(f, comp, trace, i, clause, scen):
    """a finding is identified by component, variant, failing call and clause"""
    if f["component"] != comp or not fnmatch.fnmatchcase(scen.get("v", ""), f.get("variant", "*")):
        return False
    if f.get("finding") and f["finding"] != scen.get("finding"):
        return False
    return fnmatch.fnmatchcase(clause, f["clause"])


def corrupt(v, rng):
    """a visibly wrong variant of an observed value"""
    if isinstance(v, bool) or v is None:
        return BADV
    if isinstance(v, int):
        return BADV
    if isinstance(v, str):
        return v + "#"
    if isinstance(v, list):
        if not v or (rng.random() < 0.3 and isinstance(v[0], int)):
            return v + [BADV]
        k = rng.randrange(len(v))
        return v[:k] + [corrupt(v[k], rng)] + v[k + 1:]
    if isinstance(v, dict) and v:
        k = rng.choice(sorted(v))
        return dict(v, **{k: corrupt(v[k], rng)})
    return BADV


def selftest(scratch, stats, module, accepted, comp, rng, clean):
    """The validation itself is tested on every run: accepted traces with one falsified event
    must be rejected by the specification (a binding that accepts anything decides nothing)."""
    pool = [t for t in accepted if t["ev"] and len(t["ev"]) <= 60]
    if not pool:
        return
    bad, kinds = [], []
    for n in range(45):
        t = rng.choice(pool)
        k = rng.randrange(len(t["ev"]))
        e = dict(t["ev"][k])
        kind = "xro"[n % 3]
        if kind == "x":
            e["x"] = "CorruptedError"
        elif e[kind] == NONE:
            continue
        else:
            e[kind] = corrupt(e[kind], rng)
        bad.append({"id": len(bad), "v": t["v"], "cfg": t["cfg"], "ev": t["ev"][:k] + [e]})
        kinds.append(kind)
    rej = {id(t) for t, _, _ in core.validate(scratch, stats, module, bad, comp + ".selftest", expect_all_bad=True, workers="2")}
    n = {"x": [0, 0], "r": [0, 0], "o": [0, 0]}
    for t, kind in zip(bad, kinds):
        n[kind][0] += 1
        n[kind][1] += id(t) in rej
    stats.components[comp]["falsified_events_rejected"] = {k: "%d of %d" % (v[1], v[0]) for k, v in n.items()}
    # (values the specification leaves open may be falsified unnoticed; when the tree under test was itself
    # rejected, that verdict stands and the few traces left prove nothing about the binding)
    if clean and (n["x"][1] < n["x"][0] or n["r"][1] + n["o"][1] < 0.3 * (n["r"][0] + n["o"][0])):
        raise MachineryError("self-test: falsified traces were accepted by %s: %s" % (module, n))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    stats = Stats()
    scratch = tempfile.mkdtemp(prefix="pds-%s-" % pid)
    violations, known = [], {}
    try:
        tree = core.build(scratch)
        for comp in PROPS[pid]:
            mod = importlib.import_module("comps." + comp)
            rng = random.Random("%s/%s/%d" % (pid, comp, seed))
            scen = []
            for m in mod.models(tier) if hasattr(mod, "models") else []:
                for s in core.run_model(scratch, stats, m[0], m[1], gen="Emit = TRUE" in m[1], args=m[2] if len(m) > 2 else ()):
                    if len(m) > 3 and rng.random() > m[3]:
                        continue        # a sample of the enumerated scenarios is replayed
                    scen.extend(mod.from_model(s))
            nm = len(scen)
            scen.extend(mod.seeded(tier, rng))
            scen.extend(getattr(mod, "findings", lambda: [])())
            stats.exhaustive_scenarios += nm
            stats.seeded_scenarios += len(scen) - nm
            traces = core.run_scenarios(scratch, tree, comp, scen, comp)
            stats.components[comp] = {"scenarios": len(scen), "traces": len(traces)}
            rej = core.validate(scratch, stats, mod.MODULE, traces, comp)
            good = {id(t) for t, _, _ in rej}
            ok = [t for t in traces if id(t) not in good and 2 <= len(t["ev"]) <= 30] or traces
            selftest(scratch, stats, mod.MODULE, [t for t in traces if id(t) not in good], comp, random.Random(seed), not rej)
            for t in random.Random(seed).sample(ok, min(3, len(ok))):
                stats.samples.append({"component": comp, "variant": t["v"], "cfg": t["cfg"], "events": t["ev"][:12]})
            for t, i, clause in rej:
                s = scen[t["id"]]
                f = next((f for f in known_findings() if f["property"] == pid and matches(f, comp, t, i, clause, s)), None)
                if f:
                    known.setdefault(f["id"], f)
                else:
                    violations.append((len(t["ev"][:i]), comp, s, t, i, clause))
    except MachineryError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(2)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.model_states + stats.trace_states,
            "transitions": stats.model_trans + stats.events,
            "model_states": stats.model_states, "trace_states": stats.trace_states,
            "traces_validated_against_impl": stats.traces,
            "events_validated": stats.events,
            "scenarios_enumerated_by_the_specification": stats.exhaustive_scenarios,
            "scenarios_seeded": stats.seeded_scenarios,
            "events_per_action": stats.ops,
            "models": stats.models, "components": stats.components,
            "samples": stats.samples,
        },
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if violations:
        violations.sort(key=lambda v: v[0])
        seen = {}
        for n, comp, s, t, i, clause in violations:
            k = (comp, s.get("v", ""), clause)
            seen.setdefault(k, [0, s, t, i])[0] += 1
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for j, ((comp, v, clause), (cnt, s, t, i)) in enumerate(list(seen.items())[:12]):
            path = os.path.join(d, "%s-%d.json" % (pid, j))
            with open(path, "w") as fh:
                json.dump({"property": pid, "component": comp, "scenario": s, "clause": clause, "event": i,
                           "trace": {"v": t["v"], "cfg": t["cfg"], "ev": t["ev"][:i]}}, fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s[%s] event %d: %s   (%d traces)" % (comp, v, i, clause, cnt))
            if os.environ.get("VERIF_VERBOSE"):
                print("   ", json.dumps(s)[:400])
                print("   ", json.dumps(t["ev"][max(0, i - 2):i])[:700])
        sys.exit(1)
    print("property %s: held on %d traces (%d events), %d specification states, %.0f s"
          % (pid, stats.traces, stats.events, stats.model_states + stats.trace_states, time.time() - t0))
    sys.exit(0)


main()
