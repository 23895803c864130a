"""Mutation sweep: mutate.py OUT.jsonl FILE N SEED [WORKERS]

Draws N mutants of a Python file of /repo (comparison, arithmetic, constant, boolean, deleted
statement, fixed condition), keeps those that pass the package's tests, and runs the checks of the
properties the mutated class or function belongs to, stopping at the first that reports a
violation.  The survivors are read by hand: equivalent, outside every property, or a gap."""
import ast, json, os, random, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
MAP = {
 "linear_data_structures/arrays.py": {"OneDimensionalArray": "A01 A02", "DynamicOneDimensionalArray": "A02", "ArrayForTrees": "T08 T04", "MultiDimensionalArray": "A03", "": "A01 A02 A03"},
 "linear_data_structures/linked_lists.py": {"SkipList": "A05", "": "A04"},
 "linear_data_structures/algorithms.py": {
   "linear_search|binary_search|jump_search|_jump": "O02", "upper_bound|lower_bound": "O03", "next_perm|prev_perm|is_ordered|generate": "O04",
   "longest_common": "O05", "matrix": "O06", "": "O01"},
 "miscellaneous_data_structures/stack.py": {"": "Q01"},
 "miscellaneous_data_structures/queue.py": {"PriorityQueue|Priority": "Q03", "": "Q02 Q03"},
 "miscellaneous_data_structures/disjoint_set.py": {"": "D01"},
 "miscellaneous_data_structures/multiset.py": {"": "D02"},
 "miscellaneous_data_structures/segment_tree.py": {"": "D04"},
 "miscellaneous_data_structures/sparse_table.py": {"": "D03"},
 "miscellaneous_data_structures/binomial_trees.py": {"": "H02"},
 "miscellaneous_data_structures/algorithms.py": {"": "D03 D04"},
 "trees/heaps.py": {"BinomialHeap": "H02", "": "H01"},
 "trees/space_partitioning_trees.py": {"": "D05"},
 "trees/m_ary_trees.py": {"": "T01"},
 "trees/binary_trees.py": {"BinaryIndexedTree": "D06", "BinaryTreeTraversal": "T09", "AVLTree": "T05 T08 T04", "RedBlackTree": "T06 T08 T04",
   "SplayTree": "T07 T08 T04", "Treap": "T08 T04", "CartesianTree": "T08 T04", "SelfBalancingBinaryTree": "T05 T06 T07 T08 T04 T01 T02 T03",
   "": "T01 T02 T03 T04 T05 T08"},
 "utils/misc_util.py": {"": "N01"},
 "strings/trie.py": {"": "S01"}, "strings/algorithms.py": {"": "S02"},
 "graphs/graph.py": {"": "G01"}, "graphs/adjacency_list.py": {"": "G01"}, "graphs/adjacency_matrix.py": {"": "G01"},
 "graphs/algorithms.py": {"max_flow|residual": "G08", "_visit|_assign": "G07", "_generate_layer": "G02", "_sort_edges|_generate_mst": "G03", "breadth|_bfs|bfs": "G02", "depth": "G02", "minimum_spanning|kruskal|prim": "G03", "strongly|kosaraju|tarjan": "G07",
   "topological|kahn": "G06", "max_flow|edmonds|dinic": "G08", "bridges|bridge": "G09", "bellman|dijkstra|a_star|shortest": "G04", "floyd|all_pair|johnson": "G05", "": "G10"},
}
def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln - 1] + len(lines[ln - 1].encode()[:c].decode())
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: src[slice(*span(n))]
    out = []
    def add(n, new, kind, path):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, kind, n.lineno, ".".join(path)))
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
           ast.In: ["not in"], ast.NotIn: ["in"]}
    AR = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "-", ast.Mod: "+"}
    def go(n, path, par=None):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            path = path + [n.name]
        if path:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    add(n, "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])), "cmp", path)
            elif isinstance(n, ast.BinOp) and type(n.op) in AR:
                add(n, "(%s %s %s)" % (seg(n.left), AR[type(n.op)], seg(n.right)), "arith", path)
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, str(not n.value), "bool", path)
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                add(n, str(n.value + 1), "const", path)
                add(n, "(%d)" % (n.value - 1), "const", path)
            elif isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                add(n, "(" + o.join("(%s)" % seg(v) for v in n.values) + ")", "boolop", path)
                for v in n.values:
                    add(n, "(" + (" and " if o == " or " else " or ").join("(%s)" % seg(w) for w in n.values if w is not v) + ")", "dropcond", path)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, "(%s)" % seg(n.operand), "not", path)
            elif isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, "True", "iftrue", path)
                add(n.test, "False", "iffalse", path)
            elif isinstance(n, ast.While):
                add(n.test, "False", "while", path)
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, "pass", "delete", path)
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
                    a, b = n.value.elts
                    add(n.value, "%s, %s" % (seg(b), seg(a)), "swap", path)
            elif isinstance(n, (ast.Break, ast.Continue)):
                add(n, "pass", "delete", path)
            elif isinstance(n, ast.Attribute) and n.attr in ("left", "right") and isinstance(n.value, (ast.Name, ast.Subscript)):
                add(n, "%s.%s" % (seg(n.value), {"left": "right", "right": "left"}[n.attr]), "side", path)
        for f, v in ast.iter_fields(n):
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and f in ("decorator_list", "args", "returns"):
                        continue
                    go(c, path, n)
    go(tree, [])
    return out
def props_for(f, path):
    m = MAP[f]
    for k, v in m.items():
        if k and re.search(k, path):
            return v.split()
    return m[""].split()
def main():
    outp, f, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 3
    src0 = open("/repo/pydatastructs/" + f, newline="").read()
    crlf = "\r\n" in src0
    src = src0.replace("\r\n", "\n")
    ms = [m for m in mutants(src) if not re.search(r"__new__$|methods$|__repr__", m[5]) or m[3] not in ("bool",)]
    random.Random(seed).shuffle(ms)
    pkg = f.split("/")[0]
    def one(k):
        a, b, new, kind, line, path = ms[k]
        t = "/tmp/pds-mut-%d-%d" % (os.getpid(), k)
        res = {"file": f, "k": k, "line": line, "path": path, "kind": kind, "old": src[a:b][:200], "new": new[:200]}
        try:
            shutil.rmtree(t, ignore_errors=True)
            subprocess.run(["cp", "-a", "/repo", t], check=True)
            s = src[:a] + new + src[b:]
            try:
                ast.parse(s)
            except SyntaxError:
                res["verdict"] = "syntax"; return res
            open(t + "/pydatastructs/" + f, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
            env = dict(os.environ, PYTHONPATH=t, PYTHONDONTWRITEBYTECODE="1")
            tgt = ["pydatastructs/" + pkg] if pkg not in ("linear_data_structures", "miscellaneous_data_structures") else ["pydatastructs"]
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30", "--doctest-modules", "--ignore-glob=*/tests/benchmarks"] + tgt,
                               cwd=t, env=env, capture_output=True, text=True, timeout=120)
                if r.returncode:
                    res["verdict"] = "tests"; return res
            except subprocess.TimeoutExpired:
                res["verdict"] = "tests"; return res
            env = dict(os.environ, VERIF_REPO=t, VERIF_WORKERS="3")
            res["runs"] = []
            for p in props_for(f, path):
                try:
                    r = subprocess.run(["bash", "/verif/check.sh", p, "quick"], env=env, capture_output=True, text=True, timeout=1200)
                    res["runs"].append([p, r.returncode])
                    if r.returncode == 1:
                        res["verdict"] = "caught"; res["by"] = p; return res
                    if r.returncode != 0:
                        res["err"] = r.stderr[-400:]
                except subprocess.TimeoutExpired:
                    res["runs"].append([p, "timeout"])
            res["verdict"] = "SURVIVED"
            return res
        finally:
            shutil.rmtree(t, ignore_errors=True)
    # draw until N mutants pass the tests
    got, k = 0, 0
    with ThreadPoolExecutor(workers) as ex, open(outp, "a") as fh:
        pend = []
        while (got < n and k < len(ms)) or pend:
            while len(pend) < workers and k < len(ms) and got < n:
                pend.append(ex.submit(one, k)); k += 1
            done = [p for p in pend if p.done()]
            if not done:
                import time; time.sleep(0.2); continue
            for p in done:
                pend.remove(p)
                r = p.result()
                if r["verdict"] in ("caught", "SURVIVED"):
                    got += 1
                fh.write(json.dumps(r) + "\n"); fh.flush()
main()
