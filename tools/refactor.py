"""Tries the checks on behaviour-preserving rewrites of the code (tools/refactors/*.py), in a scratch copy of /repo.

/opt/venv/bin/python tools/refactor.py [batch ...] [--checks=C01,C02] [-k]
"""
import glob
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [os.path.basename(p)[:-3] for p in sorted(glob.glob(os.path.join(HERE, "props", "C*.py")))]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    names = [x for x in sys.argv[1:] if not x.startswith("-")]
    checks = [x[9:].split(",") for x in sys.argv[1:] if x.startswith("--checks=")]
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "refactors", "*.py"))):
        name = os.path.basename(f)[:-3]
        if names and name not in names:
            continue
        g = {}
        exec(compile(open(f).read(), f, "exec"), g)
        copy = "/tmp/rf_%s" % name
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy)
        for file, old, new in g["EDITS"]:
            p = os.path.join(copy, "src/compas_cem", file)
            s = open(p).read()
            if s.count(old) != 1:
                print("EDIT", name, file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests", cwd=copy,
               env=dict(os.environ, PYTHONPATH=copy + "/src", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
        print("==", name, t.stdout.strip().splitlines()[-1], flush=True)
        for c in checks[0] if checks else g.get("CHECKS", ALL):
            r = sh("./check.sh %s quick -v" % c, cwd=HERE, env=dict(os.environ, VERIF_REPO=copy))
            bad = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "violated" in x or "not reproduced" in x or "task error" in x or "inconclusive:" in x or "truncated:" in x or "aborted:" in x]
            print("  %s rc=%d %s" % (c, r.returncode, r.stdout.splitlines()[0] if r.stdout else ""), flush=True)
            for x in bad[:6]:
                print("      ", x, flush=True)
        if "-k" not in sys.argv:
            shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    main()
