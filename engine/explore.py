"""Explore every path of a harness under one configuration."""
import contextlib
import io
import random
import signal
import time
import traceback

from . import core
from . import poly as P
from .core import Ctx, PathEnd, Stats, Unsupported
from .harness import SymH


class Stuck(BaseException):
    """the code has been running for long without asking anything"""


STUCK_S = 40


def _watch(*_):
    c = core.CTX[0]
    if c is None or not _watch.on:
        _watch.last = None
        return
    now = (id(c), c.stats.decisions, c.stats.queries, c.stats.goals)
    if now == _watch.last:
        raise Stuck()
    _watch.last = now


_watch.last = None
_watch.on = False


def _asg(c, env, dm=None):
    d = dict(dm) if dm is not None else (c.disc_model() or {})
    return {"reals": {n: str(v) for n, v in (env or {}).items()}, "disc": d}


def explore(fn, cfg, policy="lazy", generic=False, budget=60.0, z3_ms=2000, seed=1, max_paths=100000,
            validate=12, max_cands=12, ufs=None, naming=True, fmt="opaque"):
    st = Stats()
    stack = [[]]
    t0 = time.time()
    rng = random.Random(seed)
    out = {"cands": [], "incon": {}, "valid": [], "notes": [], "samples": [], "truncated": 0}
    P.reset()
    seen_labels = {}
    nvalid = 0
    signal.signal(signal.SIGALRM, _watch)
    signal.setitimer(signal.ITIMER_REAL, STUCK_S, STUCK_S)
    while stack:
        if time.time() - t0 > budget or st.paths >= max_paths:
            out["truncated"] = len(stack)
            break
        prefix = stack.pop(rng.randrange(len(stack)) if len(stack) > 64 else -1)
        c = Ctx(prefix, st, seed=seed, policy=policy, generic=generic, z3_ms=z3_ms)
        c.deadline = t0 + budget
        c.fmt = fmt
        if ufs:
            c.ufs = ufs
        core.CTX[0] = c
        P.NAMING[0] = naming
        h = SymH(c)
        st.paths += 1
        end = "complete"
        buf = io.StringIO()
        exc = None
        try:
            _watch.on = True
            with contextlib.redirect_stdout(buf):
                fn(h, cfg)
        except PathEnd as e:
            end = e.why
        except Stuck:
            end = "stuck"
        except RecursionError as e:
            end = "aborted"
            exc = e
        except Exception as e:  # noqa: BLE001
            end = "exception"
            exc = e
        finally:
            _watch.on = False
        stack.extend(c.alternatives)
        try:
            if end == "complete":
                st.complete += 1
            elif end == "infeasible":
                st.infeasible += 1
            elif end in ("timeout", "stuck"):
                out["truncated"] += 1
                if seen_labels.get(end, 0) < 2:
                    # does the code end on such inputs at all? The replay tells.
                    seen_labels[end] = seen_labels.get(end, 0) + 1
                    w = c.witness(tries=40, climb=True)
                    if w is not None:
                        out["cands"].append({"label": "does not end", "asg": _asg(c, w), "detail": "path cut: " + end, "kind": "timeout"})
            elif end in ("exception", "aborted"):
                st.aborted += 1
                tb = traceback.extract_tb(exc.__traceback__)
                where = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-4:])
                label = "exception %s" % type(exc).__name__
                msg = "%s: %s at %s" % (type(exc).__name__, str(exc)[:160], where)
                if len(out["notes"]) < 20:
                    out["notes"].append("path aborted by " + msg)
                w = c.witness(tries=80, climb=True)
                if w is not None and seen_labels.get(label, 0) < max_cands:
                    seen_labels[label] = seen_labels.get(label, 0) + 1
                    out["cands"].append({"label": label, "asg": _asg(c, w), "detail": msg, "kind": "abort"})
                elif w is None:
                    out["incon"]["aborted path without witness"] = out["incon"].get("aborted path without witness", 0) + 1
            else:
                st.aborted += 1
                out["incon"][end] = out["incon"].get(end, 0) + 1
            for cand in c.cands:
                label, env, detail = cand[:3]
                dm = cand[3] if len(cand) > 3 else None
                if seen_labels.get(label, 0) >= max_cands:
                    continue
                seen_labels[label] = seen_labels.get(label, 0) + 1
                out["cands"].append({"label": label, "asg": _asg(c, env, dm), "detail": detail, "kind": "goal"})
            for l in c.incon:
                out["incon"][l] = out["incon"].get(l, 0) + 1
            for l in set(c.incomplete):
                out["incon"][l] = out["incon"].get(l, 0) + 1
            if end == "complete" and (nvalid < validate or (nvalid < 4 * validate and rng.random() < 0.05)):
                w = c.witness(tries=60, climb=True)
                if w is None:
                    out["incon"]["no witness for a complete path"] = out["incon"].get("no witness for a complete path", 0) + 1
                else:
                    st.witnesses += 1
                    nvalid += 1
                    obs = {}
                    cache = {}
                    e = c.eval_env(w)
                    for label, x in c.obs:
                        if x.bad:
                            continue
                        try:
                            obs[label] = float(P.eval_poly(x.p, e, cache))
                        except (P.NumFail, OverflowError):
                            pass
                    a = _asg(c, w)
                    out["valid"].append({"asg": a, "obs": obs})
                    if len(out["samples"]) < 2:
                        out["samples"].append({"path": "".join(str(int(x)) if isinstance(x, bool) else "(%s)" % x for x in c.trace)[:200],
                                               "facts": [("%s %s 0" % (P.show(p, 120), {1: "<", 2: "=", 4: ">", 3: "<=", 6: ">=", 5: "!=", 7: "?"}[m])) for p, m in c.cons[:6]],
                                               "witness": {k: a["reals"][k] for k in list(a["reals"])[:8]}, "choices": dict(list(a["disc"].items())[:12])})
        finally:
            core.CTX[0] = None
    signal.setitimer(signal.ITIMER_REAL, 0)
    out["stats"] = st.as_dict()
    out["wall"] = time.time() - t0
    out["atoms"] = len(P.ATOMS)
    return out
