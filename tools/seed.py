"""Plant bugs: seed.py SPECFILE [ID...].  SPECFILE defines BUGS, a list of dicts
(id, property, subs=[(file, old, new)], needs, breaks, demo).  Each is tried in a
scratch copy of /repo: it must apply, keep the tests passing, fail its demo, and the
demo must pass without it.  Kept bugs are written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
W = "/tmp/pds-seed"
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        t = os.path.join(W, "repo")
        shutil.rmtree(t, ignore_errors=True)
        sh("cp -a /repo %s" % t)
        for f, old, new in b["subs"]:
            p = os.path.join(t, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                print(b["id"], "NO MATCH", s.count(old)); s = None; break
            open(p, "w", newline="").write(s.replace(old, new))
        if s is None:
            continue
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout
        out = os.path.join("/verif/seeded", b["id"])
        tmp = os.path.join(W, "out"); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(os.path.join(tmp, "patch.diff"), "wb").write(diff)
        demo = ("#!/bin/bash\n# exit 0 when the behaviour is right (cwd: the repository, after build.sh)\n"
                "cd /tmp && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=\"$OLDPWD\" /opt/venv/bin/python - <<'P'\n"
                + b["demo"].strip("\n") + "\nP\n")
        open(os.path.join(tmp, "demo.sh"), "w").write(demo)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        ok = sh("bash %s/demo.sh" % tmp, cwd="/repo", timeout=300)
        if ok.returncode:
            print(b["id"], "DEMO FAILS ON CLEAN TREE", ok.stderr[-800:]); continue
        cpp = any(f.endswith((".cpp", ".hpp")) for f, _, _ in b["subs"])
        if cpp:
            # the scratch copy is built in place, like /repo
            shutil.rmtree(os.path.join(t, "build"), ignore_errors=True)
            r = sh("sed 's#/repo#%s#g; s#/opt/vp/#/tmp/pds-seed/#g' /opt/vp/common.sh > %s/common.sh; . %s/common.sh; build_extensions" % (t, W, W), executable="/bin/bash")
            if r.returncode:
                print(b["id"], "BUILD", (r.stdout + r.stderr)[-800:]); continue
        try:
            bad = sh("timeout 120 bash %s/demo.sh" % tmp, cwd=t)
        except subprocess.TimeoutExpired:
            pass
        if bad.returncode == 0:
            print(b["id"], "DEMO PASSES WITH BUG"); continue
        r = sh("PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 4 --doctest-modules --ignore-glob='*/tests/benchmarks' pydatastructs 2>&1 | tail -15" % t, cwd=t)
        tail = r.stdout.strip().splitlines()
        if "passed" not in tail[-1] or " failed" in tail[-1] or "error" in tail[-1]:
            base = [l for l in tail if l.startswith(("FAILED", "ERROR"))]
            print(b["id"], "TESTS", tail[-1], base[:4])
            if not all("test_code_quality" not in x and any(k in x for k in ns.get("FLAKY", [])) for x in base):
                continue
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(tmp, out)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        print(b["id"], "kept:", tail[-1], "| demo:", (bad.stderr.strip().splitlines() or [str(bad.returncode)])[-1][:150])
    shutil.rmtree(W, ignore_errors=True)
main()
