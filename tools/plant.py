"""Writes seeded/<id>/ for the planted bugs described in tools/plants/*.py, and tries them.

python3 tools/plant.py make [id ...]     write patch.diff, demo.sh, demo.py, meta.json
python3 tools/plant.py try [id ...]      apply to a scratch clone of /repo; tests, demo, check
python3 tools/plant.py table             rewrite the table in DESIGN.md from tools/plant_results.json
"""
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
RESULTS = os.path.join(HERE, "tools", "plant_results.json")
PLANTS = {}


def plant(id, prop, file, edits, needs, breaks, demo):
    assert id not in PLANTS, id
    PLANTS[id] = (prop, file, edits, needs, breaks, demo)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    """A scratch clone of /repo's HEAD."""
    d = tempfile.mkdtemp(prefix="plant_")
    c = os.path.join(d, "repo")
    r = sh("git clone -q /repo %s" % c)
    assert r.returncode == 0, r.stdout
    return d, c


def make(id):
    prop, file, edits, needs, breaks, demo = PLANTS[id]
    top, repo = fresh()
    try:
        files = file if isinstance(file, list) else [file]
        if isinstance(edits, tuple):
            edits = [edits]
        for e in edits:
            f, old, new = e if len(e) == 3 else (files[0],) + tuple(e)
            p = os.path.join(repo, "src/compas_cem", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEEDED, id)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "patch.diff"), "w") as fh:
            fh.write(sh("git -C %s diff" % repo).stdout)
    finally:
        shutil.rmtree(top)
    with open(os.path.join(d, "demo.py"), "w") as fh:
        fh.write(demo.lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as fh:
        fh.write('#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python -B -W ignore "$here/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as fh:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
        fh.write("\n")


def attempt(id, checks=None):
    prop = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
    d = os.path.join(SEEDED, id)
    out = [id, prop]
    top, repo = fresh()
    try:
        r = sh("bash %s/demo.sh" % d, cwd=repo)
        out.append("demo-clean=%d" % r.returncode)
        if r.returncode:
            print(r.stdout[-600:])
        a = sh("git -C %s apply %s/patch.diff" % (repo, d))
        if a.returncode:
            print(a.stdout)
        env = dict(os.environ, PYTHONPATH=repo + "/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300", cwd=repo, env=env)
        m = re.search(r"(\d+) failed", t.stdout)
        n = re.search(r"(\d+) passed", t.stdout)
        out.append("tests passed=%s failed=%s" % (n.group(1) if n else 0, m.group(1) if m else 0))
        r = sh("bash %s/demo.sh" % d, cwd=repo)
        out.append("demo-patched=%d" % r.returncode)
        if r.returncode:
            out.append("(%s)" % r.stdout.strip().splitlines()[-1][:100])
        for p in checks if checks is not None else [prop]:
            c = sh("./check.sh %s quick" % p, cwd=HERE, env=dict(os.environ, VERIF_REPO=repo, VERIF_OUT=top))
            hit = "VIOLATION property=%s" % p in c.stdout
            out.append("%s:%s%s" % (p, "CAUGHT" if hit and c.returncode == 1 else "missed", "" if c.returncode in (0, 1) else " rc=%d" % c.returncode))
            if not hit:
                print(c.stdout[-700:])
            record(id, p, hit and c.returncode == 1)
    finally:
        shutil.rmtree(top)
    print("  ".join(out), flush=True)


def record(id, check, caught):
    with open(RESULTS + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
        r.setdefault(id, {})[check] = bool(caught)
        with open(RESULTS, "w") as fh:
            json.dump(r, fh, indent=1, sort_keys=True)
            fh.write("\n")


def table():
    """Rewrites the table of planted bugs at the end of DESIGN.md."""
    r = json.load(open(RESULTS))
    rows = ["| change | property | needs | caught by | not by |", "|---|---|---|---|---|"]
    for id in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, id, "meta.json")))
        got = r.get(id, {})
        rows.append("| %s | %s | %s | %s | %s |" % (id, m["property"], m["needs"].replace("|", "/"), ", ".join(k for k in sorted(got) if got[k]) or "-", ", ".join(k for k in sorted(got) if not got[k]) or "-"))
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    mark = "<!-- planted bugs -->\n"
    s = s[:s.index(mark)] + mark + "\n" + "\n".join(rows) + "\n"
    open(p, "w").write(s)


def main():
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "plants", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"plant": plant, "PLANTS": PLANTS})
    if sys.argv[1] == "table":
        return table()
    what, ids = sys.argv[1], [x for x in sys.argv[2:] if not x.startswith("--")]
    checks = [x[9:].split(",") for x in sys.argv[2:] if x.startswith("--checks=")]
    checks = [c for c in checks[0] if c] if checks else None
    ids = ids or sorted(PLANTS if what == "make" else os.listdir(SEEDED))
    for i in ids:
        if what == "make":
            make(i)
        else:
            attempt(i, checks)


if __name__ == "__main__":
    main()
