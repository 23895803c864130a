"""Mutation sweep over the C++ backends: mutate_cpp.py OUT.jsonl FILE N SEED [WORKERS]
FILE is relative to pydatastructs in /repo (or VERIF_REPO).  Each mutant is built and tested in a scratch copy;
those that pass the tests are given to the checks of the properties the file is about."""
import json, os, random, re, shutil, subprocess, sys, threading
REPO = os.environ.get("VERIF_REPO", "/repo")
CHECK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.sh")
MAP = [("trees/_backend/cpp/BinaryIndexedTree", "D06"), ("trees/_backend/cpp", "X01"), ("ArrayForTrees", "X01"), ("TreeNode", "X01"),
       ("arrays/Dynamic", "A02 O01"), ("arrays/", "A01 A02"), ("misc_algorithms", "O02 O03"), ("cpp/algorithms", "O01"), ("stack", "Q01"),
       ("graphs/_backend/cpp/Algorithms", "G02 G03 G04"), ("graphs/_backend", "G01 G02"), ("utils/_backend", "N01 G01 G02 G03")]
RULES = [(r"== Py_None", "!= Py_None"), (r"!= Py_None", "== Py_None"), (r"->left\b", "->right"), (r"->right\b", "->left"),
         (r"_left_rotate\(", "_right_rotate("), (r"_right_rotate\(", "_left_rotate("),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"= true;", "= false;"), (r"= false;", "= true;"), (r"= 0;", "= 1;"), (r"= 1;", "= 0;"),
         (r"== 0\b", "!= 0"), (r" == ", " != "), (r" != ", " == "), (r"->parent\b", "->left"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\+\+", "--"),
         (r"is_same\(", "!is_same("), (r"Py_RETURN_TRUE", "Py_RETURN_FALSE"), (r"Py_RETURN_FALSE", "Py_RETURN_TRUE")]
DECL = re.compile(r"^\s*(static|const|typedef|struct|return|Py_(INC|DEC|XDEC)REF|PyObject ?\*|PyObject ?\*\*|BinaryTree ?\*|TreeNode ?\*|long|int|double|size_t|bool|auto|std::|break|continue|\}|#|//|PyErr|Py_RETURN)")
def mutants(src):
    out, pos, fn = [], 0, ""
    for n, line in enumerate(src.split("\n"), 1):
        m = re.match(r"static .*?(\w+)\(", line)
        if m:
            fn = m.group(1)
        body = line.strip()
        if fn and not re.search(r"offsetof|tp_|METH_|PyErr_Set|PyType_Ready|_Check\(|include|_dealloc|___str__", line) and not fn.endswith(("dealloc", "__str__")) and not line.startswith("static"):
            for a, b in RULES:
                for z in re.finditer(a, line):
                    out.append((pos + z.start(), pos + z.end(), b, n, fn))
            if body.endswith(";") and line.startswith("    ") and not DECL.match(line) and ("=" in body or "(" in body):
                out.append((pos, pos + len(line), re.match(r"\s*", line).group(0) + ";", n, fn))
        pos += len(line) + 1
    return out
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, executable="/bin/bash", capture_output=True, text=True, **kw)
def worker(w, todo, src0, f, n, fh, lock, got):
    t = "/tmp/pds-cm-%d-%d" % (os.getpid(), w)
    shutil.rmtree(t, ignore_errors=True)
    sh("cp -a %s %s; rm -rf %s/build" % (REPO, t, t))
    sh("sed 's#/repo#%s#g' /opt/vp/common.sh > %s.sh" % (t, t))
    tmpd = t + "-tmp"
    os.makedirs(tmpd, exist_ok=True)
    path = os.path.join(t, "pydatastructs", f)
    props = [p for k, p in MAP if k in f][0].split()
    try:
        while True:
            with lock:
                if got[0] >= n or not todo:
                    return
                a, b, new, line, fn = todo.pop()
            res = {"file": f, "line": line, "fn": fn, "old": src0[a:b].strip()[:160], "new": new.strip()[:160], "ctx": src0.split("\n")[line - 1].strip()[:220]}
            open(path, "w", newline="").write(src0[:a] + new + src0[b:])
            r = sh(". %s.sh; build_extensions" % t)
            if r.returncode:
                res["verdict"] = "build"
            else:
                try:
                    r = sh("PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=60 --ignore-glob='*/tests/benchmarks' pydatastructs" % t, cwd=t)
                    ok = r.returncode == 0
                except subprocess.TimeoutExpired:
                    ok = False
                if not ok:
                    res["verdict"] = "tests"
                else:
                    with lock:
                        got[0] += 1
                    res["runs"] = []
                    res["verdict"] = "SURVIVED"
                    for p in props:
                        env = dict(os.environ, VERIF_REPO=t, VERIF_WORKERS="3", TMPDIR=tmpd)
                        try:
                            r = subprocess.run(["bash", CHECK, p, "quick"], env=env, capture_output=True, text=True, timeout=1500)
                            rc = r.returncode
                        except subprocess.TimeoutExpired:
                            rc = "timeout"
                        res["runs"].append([p, rc])
                        if rc == 1:
                            res["verdict"] = "caught"
                            break
                    shutil.rmtree(tmpd, ignore_errors=True)
                    os.makedirs(tmpd, exist_ok=True)
            with lock:
                fh.write(json.dumps(res) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(t, ignore_errors=True)
        shutil.rmtree(tmpd, ignore_errors=True)
        os.unlink(t + ".sh")
def main():
    outp, f, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    src = open(REPO + "/pydatastructs/" + f, newline="").read()
    ms = mutants(src)
    random.Random(seed).shuffle(ms)
    got, lock = [0], threading.Lock()
    with open(outp, "a") as fh:
        ts = [threading.Thread(target=worker, args=(w, ms, src, f, n, fh, lock, got)) for w in range(int(sys.argv[5]) if len(sys.argv) > 5 else 2)]
        [x.start() for x in ts]
        [x.join() for x in ts]
main()
