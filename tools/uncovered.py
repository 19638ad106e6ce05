"""Functions of compas_cem that no check executes (from the evidence files), plotters, viewers and ghpython aside."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen = set()
for f in glob.glob(HERE + "/evidence/C*.json"):
    seen |= set(json.load(open(f))["coverage"]["functions_encoded"])
root = "/repo/src/"
for p in sorted(glob.glob(root + "compas_cem/**/*.py", recursive=True)):
    rel = p[len(root):]
    if any(x in rel for x in ("ghpython", "viewers", "plotters", "artists")):
        continue
    t = ast.parse(open(p).read())
    def walk(n, pre):
        for c in n.body if hasattr(n, "body") else []:
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = pre + c.name
                if isinstance(c, ast.FunctionDef) and rel + ":" + q not in seen:
                    print(rel, q, c.lineno)
                walk(c, q + ("." if isinstance(c, ast.ClassDef) else ".<locals>."))
    walk(t, "")
