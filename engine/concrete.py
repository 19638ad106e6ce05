"""python -B -m engine.concrete <property> <in.json> <out.json>: run assignments on the unpatched code."""
import importlib
import json
import os
import sys
import warnings


def main():
    prop, fin, fout = sys.argv[1:4]
    warnings.simplefilter("ignore")
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
    sys.path.insert(0, root)
    from engine.harness import run_concrete
    import compas_cem
    assert compas_cem.__file__.startswith(root + os.sep), compas_cem.__file__
    mod = importlib.import_module("props." + prop)
    items = json.load(open(fin))
    if isinstance(items, dict):
        items = [items]
    with open(fout, "w") as f:
        for it in items:
            r = run_concrete(getattr(mod, it["fn"]), it["cfg"], it["asg"])
            f.write(json.dumps(r) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
