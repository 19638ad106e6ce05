"""Mutation runs: small syntactic changes of the source that the tests accept, and which checks notice them.

/opt/venv/bin/python tools/mutate.py list [file-substring]
/opt/venv/bin/python tools/mutate.py run OUT.jsonl [file-substring ...] [--workers=N] [--only=i,j]
Works in scratch copies under /tmp, which it removes.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/compas_cem"
FILES = {
    "equilibrium/force.py": ["C05", "C08", "C01", "C06", "C03", "C02", "C07", "C04", "C15"],
    "equilibrium/force_numpy.py": ["C05", "C06", "C03", "C01", "C02", "C07", "C04", "C24", "C15"],
    "diagrams/topology/topology.py": ["C18", "C13", "C12", "C10", "C25", "C11", "C16"],
    "diagrams/topology/mesh_mixins.py": ["C17"],
    "diagrams/diagram.py": ["C18", "C15", "C16", "C25", "C04", "C02", "C01"],
    "diagrams/form.py": ["C18", "C25", "C04"],
    "diagrams/mixins/node_mixins.py": ["C15", "C16", "C18"],
    "diagrams/mixins/edge_mixins.py": ["C16", "C18", "C25"],
    "elements/edge.py": ["C16", "C18"], "elements/trail.py": ["C16", "C18", "C02"], "elements/deviation.py": ["C16", "C18", "C02"], "elements/node.py": ["C15", "C16"],
    "loads/node.py": ["C16"], "supports/node.py": ["C16"], "data/data.py": ["C25"],
    "optimization/constraints/": ["C20", "C25", "C24"],
    "optimization/parameters/": ["C22", "C21", "C25", "C23", "C24"],
    "optimization/optimizer.py": ["C21", "C22", "C23", "C24"],
    "optimization/nlopt.py": ["C22", "C23"], "optimization/objective_func.py": ["C21", "C23"],
    "optimization/grad.py": ["C24", "C23"], "optimization/proxy.py": ["C23"],
    "plotters/formartist.py": ["C26"], "plotters/topologyartist.py": ["C26"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def skip_doc(body):
    return body[1:] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else body


def sites(tree):
    """(description, function that changes the node in place) for every mutation of a parsed module"""
    out = []

    def visit(node, path, infn):
        name = path
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            name = path + "." + node.name if path else node.name
            infn = infn or isinstance(node, ast.FunctionDef)
        if isinstance(node, ast.FunctionDef) and node.name in ("__repr__", "__str__", "print_info"):
            return
        if isinstance(node, (ast.Raise, ast.Assert)) and False:
            return
        ln = getattr(node, "lineno", 0)

        def add(what, f):
            out.append(("%s:%d %s" % (name, ln, what), f))
        if infn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                t = CMP.get(type(node.ops[0]))
                if t:
                    def f(n=node, t=t):
                        n.ops = [t()]
                    add("cmp %s->%s" % (type(node.ops[0]).__name__, t.__name__), f)
            if isinstance(node, ast.BoolOp):
                def f(n=node):
                    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
                add("and/or", f)
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                def f(n=node):
                    n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
                    if isinstance(n.op, ast.Not):
                        n.operand = ast.UnaryOp(ast.Not(), n.operand)
                add("drop %s" % type(node.op).__name__, f)
            if isinstance(node, ast.BinOp) and type(node.op) in BIN and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                def f(n=node):
                    n.op = BIN[type(n.op)]()
                add("bin %s" % type(node.op).__name__, f)
            if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None and node.value is not Ellipsis:
                v = node.value
                if isinstance(v, bool):
                    new = [not v]
                elif isinstance(v, int):
                    new = [v + 1]
                elif isinstance(v, float):
                    new = [v * 2 if v else 1.0]
                else:
                    new = []
                for w in new:
                    def f(n=node, w=w):
                        n.value = w
                    add("const %r->%r" % (v, w), f)
            if isinstance(node, (ast.If, ast.IfExp)):
                for w in (True, False):
                    def f(n=node, w=w):
                        n.test = ast.Constant(w)
                    add("if %s" % w, f)
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("abs", "fabs", "sorted", "list", "tuple", "dict", "set", "reversed", "float", "int", "deepcopy") and len(node.args) == 1:
                if node.func.id not in ("list", "tuple", "float", "int"):
                    def f(n=node):
                        n.func = ast.Name({"sorted": "list", "reversed": "list", "abs": "float", "fabs": "float", "dict": "dict", "set": "list", "deepcopy": "_same"}.get(n.func.id, n.func.id), ast.Load())
                    add("drop call %s" % node.func.id, f)
            if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
                def f(n=node):
                    n.slice = ast.Slice(None, None, None)
                add("drop slice", f)
            for field in ("body", "orelse", "finalbody"):
                body = getattr(node, field, None)
                if not isinstance(body, list):
                    continue
                for i, stmt in enumerate(skip_doc(body) if isinstance(node, ast.FunctionDef) else body):
                    if isinstance(stmt, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Raise, ast.Assert, ast.Return)) and not (isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant)):
                        if isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print":
                            continue
                        if isinstance(stmt, ast.Return) and body is node.body and isinstance(node, ast.FunctionDef):
                            continue

                        def f(b=body, s=stmt):
                            b[b.index(s)] = ast.Pass()
                        out.append(("%s:%d del %s" % (name, stmt.lineno, ast.unparse(stmt)[:50].replace("\n", " ")), f))
        for field, ch in ast.iter_fields(node):
            if field in ("decorator_list", "returns", "annotation"):
                continue
            if isinstance(node, ast.Raise) or (isinstance(node, ast.Assert) and field == "msg"):
                continue
            if isinstance(ch, list):
                for c in ch:
                    if isinstance(c, ast.AST):
                        visit(c, name, infn)
            elif isinstance(ch, ast.AST):
                visit(ch, name, infn)
    visit(tree, "", False)
    return out


def all_mutants(repo="/repo"):
    res = []
    for rel, checks in FILES.items():
        base = os.path.join(repo, SRC, rel)
        fs = [base] if base.endswith(".py") else sorted(os.path.join(base, x) for x in os.listdir(base) if x.endswith(".py") and x not in ("__init__.py", "mesh.py"))
        for p in fs:
            text = open(p).read()
            n = len(sites(ast.parse(text)))
            for i in range(n):
                tree = ast.parse(text)
                d, f = sites(tree)[i]
                f()
                ast.fix_missing_locations(tree)
                try:
                    new = ast.unparse(tree)
                except Exception:
                    continue
                res.append((os.path.relpath(p, os.path.join(repo, SRC)), d, new, checks))
    return res


def tests_pass(copy_, base):
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=copy_, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, PYTHONPATH=os.path.join(copy_, "src"), MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def main():
    what = sys.argv[1]
    pos = [a for a in sys.argv[2:] if not a.startswith("--")]
    opt = dict(a[2:].split("=") for a in sys.argv[2:] if a.startswith("--"))
    muts = all_mutants()
    if what == "list":
        for i, m in enumerate(muts):
            if not pos or any(p in m[0] for p in pos):
                print(i, m[0], m[1])
        return
    outf, subs = pos[0], pos[1:]
    todo = [(i, m) for i, m in enumerate(muts) if not subs or any(p in m[0] for p in subs)]
    if "only" in opt:
        keep = set(int(x) for x in opt["only"].split(","))
        todo = [t for t in todo if t[0] in keep]
    done = set()
    if os.path.exists(outf):
        done = set((json.loads(l)["file"], json.loads(l)["what"]) for l in open(outf))
    todo = [t for t in todo if (t[1][0], t[1][1]) not in done]
    lock = threading.Lock()
    print(len(todo), "to run", flush=True)

    def work(w):
        c = "/tmp/mutants/%d-w%d" % (os.getpid(), w)
        shutil.rmtree(c, ignore_errors=True)
        os.makedirs(c)
        for x in ("src", "tests", "data", "setup.py", "setup.cfg", "pytest.ini", "README.md", "README.rst", "requirements.txt"):
            if os.path.isdir("/repo/" + x):
                shutil.copytree("/repo/" + x, c + "/" + x)
            elif os.path.exists("/repo/" + x):
                shutil.copy("/repo/" + x, c)
        while True:
            with lock:
                if not todo:
                    break
                i, (rel, d, new, checks) = todo.pop(0)
            p = os.path.join(c, SRC, rel)
            orig = open(p).read()
            rec = {"i": i, "file": rel, "what": d}
            try:
                open(p, "w").write(new)
                if not tests_pass(c, None):
                    rec["result"] = "tests"
                else:
                    rec["result"] = "SURVIVED"
                    for k in checks:
                        try:
                            r = subprocess.run(["./check.sh", k, "quick", "--jobs", opt.get("jobs", "1"), "--first"], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                               env=dict(os.environ, VERIF_REPO=c, VERIF_OUT=c), timeout=1500)
                        except subprocess.TimeoutExpired:
                            rec["timeout"] = k
                            continue
                        if r.returncode == 1 and "VIOLATION" in r.stdout:
                            rec["result"] = k
                            break
                        if r.returncode != 0:
                            rec.setdefault("rc", []).append([k, r.returncode, r.stdout[-300:]])
            finally:
                open(p, "w").write(orig)
            with lock:
                open(outf, "a").write(json.dumps(rec) + "\n")
                print(rec["i"], rel, d, rec["result"], flush=True)
        shutil.rmtree(c, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(opt.get("workers", "8")))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
