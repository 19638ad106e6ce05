"""The interface harnesses are written against, in two incarnations: symbolic and concrete."""
import contextlib
import io
import signal
import math
import time
import traceback
from fractions import Fraction

from . import poly as P


LATE_S = 15


class Late(BaseException):
    pass


class Skip(BaseException):
    """An assumption does not hold in a concrete replay."""


class CheckFailed(BaseException):
    pass


def _flat(x):
    return isinstance(x, (list, tuple)) or (hasattr(x, "__len__") and hasattr(x, "__getitem__") and not isinstance(x, (str, dict)))


class Base:
    def check_vec(self, label, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return self.check(label + ":len", False)
        for i, (x, y) in enumerate(zip(a, b)):
            self.check_eq("%s[%d]" % (label, i), x, y)

    def vec(self, name, lo=-4, hi=4, **k):
        return [self.real("%s%s" % (name, c), lo, hi, **k) for c in "xyz"]

    def norm(self, v):
        t = 0
        for x in v:
            t = t + x * x
        return self.sqrt(t)

    def dist(self, a, b):
        return self.norm([x - y for x, y in zip(a, b)])

    def unit(self, v):
        n = self.norm(v)
        return [x / n for x in v]

    def call(self, fn, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            with self.quiet():
                return fn(*a, **k), None
        except Exception as e:  # noqa: BLE001
            if isinstance(e, _unsupported()):
                raise
            return None, e

    @contextlib.contextmanager
    def quiet(self):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            yield buf

    def native(self, on=True):
        """what is calculated from now on is calculated in floats"""

    def grid(self, values, n=3):
        """constants that share an axis with symbolic coordinates"""

    def ints(self, name, lo, hi):
        return self.choose(name, list(range(lo, hi + 1)))

    def perm(self, name, items):
        items = list(items)
        out = []
        k = 0
        while items:
            j = self.choose("%s.%d" % (name, k), list(range(len(items)))) if len(items) > 1 else 0
            out.append(items.pop(j))
            k += 1
        return out


def _unsupported():
    from .core import Unsupported
    return Unsupported


class SymH(Base):
    symbolic = True

    def __init__(self, ctx):
        self.c = ctx

    def real(self, name, lo=-4, hi=4, **k):
        return self.c.real(name, lo, hi, **k)

    def native(self, on=True):
        self.c.native = on

    def grid(self, values, n=3):
        self.c.grid(values, n)

    def choose(self, name, options):
        return self.c.choose(name, options)

    def lazy(self, name, options):
        return self.c.lazy(name, options)

    def sqrt(self, x):
        from .core import lift
        return lift(x).sqrt()

    def assume(self, cond):
        from .core import SymBool
        if isinstance(cond, SymBool):
            self.c.assume(cond.p, cond.mask)
        elif not cond:
            from .core import PathEnd
            raise PathEnd("infeasible")

    def assume_z3(self, f):
        """f(z3, var) -> z3 formula over the lazies, var(name) the index variable"""
        import z3
        self.c.dassume(f(z3, lambda n: self.c.lazies[n].var))

    def dcheck(self, label, f, detail=""):
        """the formula f(z3, var) over the lazies follows on this path"""
        import z3
        return self.c.dgoal(label, f(z3, lambda n: self.c.lazies[n].var), detail)

    def dpossible(self, f):
        """f(z3, var) is satisfiable on this path"""
        import z3
        return self.c.dfeasible(f(z3, lambda n: self.c.lazies[n].var))

    def _cand(self, label, env, detail, dm=None):
        c = self.c
        c.cands.append((label, env, detail) if dm is None else (label, env, detail, dm))

    def check(self, label, cond, detail=""):
        from .core import SymBool
        c = self.c
        if isinstance(cond, SymBool):
            return c.goal(label, cond.p, cond.mask, detail)
        c.stats.goals += 1
        if cond is NotImplemented:
            cond = False
        if cond:
            c.stats.goals_proved += 1
            return True
        w = c.witness(tries=80, climb=True)
        if w is None:
            c.stats.goals_inconclusive += 1
            c.incon.append(label)
            return None
        c.cands.append((label, w, detail))
        return False

    def check_eq(self, label, a, b):
        from .core import SymReal, lift
        if _flat(a) or _flat(b):
            return self.check_vec(label, a, b)
        if a is None or b is None:
            return self.check(label, a is b)
        x, y = lift(_item(a)), lift(_item(b))
        if x is None or y is None:
            return self.check(label, a == b, "%r != %r" % (a, b))
        if x.bad or y.bad:
            return self.check(label, x.bad == y.bad and x.bad != "nan", "not finite")
        return self.c.goal(label, P.add(x.p, y.p, Fraction(-1)), 2)

    def check_any_vec(self, label, a, alts):
        """a equals one of the alternative vectors"""
        from .core import lift
        for b in alts:
            if all(self.c.implied(P.add(lift(_item(x)).p, lift(_item(y)).p, Fraction(-1)), 2) for x, y in zip(a, b)):
                self.c.stats.goals += 1
                for x, y in zip(a, b):
                    self.c._confirm(P.add(lift(_item(x)).p, lift(_item(y)).p, Fraction(-1)), 2)
                self.c.stats.goals += len(list(b)) - 1
                return True
        return self.check_vec(label, a, alts[0])

    def observe(self, label, v):
        from .core import lift
        if _flat(v):
            for i, x in enumerate(v):
                self.observe("%s[%d]" % (label, i), x)
            return
        x = lift(_item(v))
        if x is not None:
            self.c.obs.append((label, x))

    def is_nan(self, x):
        from .core import lift
        x = lift(_item(x))
        return x.bad is not None

    def same(self, a, b):
        """a == b follows on this path (by normal form; no fork)"""
        from .core import lift
        x, y = lift(_item(a)), lift(_item(b))
        if x.bad or y.bad:
            return False
        return self.c.implied(P.add(x.p, y.p, Fraction(-1)), 2)

    def implied(self, cond):
        from .core import SymBool
        if isinstance(cond, SymBool):
            return self.c.implied(cond.p, cond.mask)
        return bool(cond)

    def dec(self, x, n=3):
        """the value as a string with n decimals: equal strings iff equal rounded values"""
        from .core import lift
        s = str(format(lift(_item(x)), ".%df" % n))
        return s[1:] if s == "%.*f" % (n, -0.0) else s

    def json(self, obj):
        """what compas' JSON functions make of an object: its own encoder and decoder hooks around JSON's data model"""
        from compas.data.encoders import DataEncoder, DataDecoder
        enc, dec = DataEncoder(), DataDecoder()

        def key(k):
            from .core import SymReal
            if isinstance(k, str):
                return k
            if isinstance(k, SymReal) or not (k is None or isinstance(k, (bool, int, float))):
                raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)
            return "null" if k is None else {True: "true", False: "false"}[k] if isinstance(k, bool) else repr(k)

        def go(o):
            from .core import SymReal
            if isinstance(o, SymReal):
                return SymReal(o.p, False, o.bad)
            if o is None or isinstance(o, (bool, int, float, str)):
                return o
            if isinstance(o, dict):
                d = {}
                for k, v in o.items():
                    d[key(k)] = go(v)
                return dec.object_hook(d)
            if isinstance(o, (list, tuple)):
                return [go(v) for v in o]
            return go(enc.default(o))
        return go(obj)

    def check_grad(self, label, got, value, xs, i, f):
        """got is the derivative of value with respect to the i-th of the variables xs"""
        from .core import lift
        x, v = lift(_item(got)), lift(_item(value))
        if x is None or v is None:
            return self.check(label, False, "%r is not a number" % (got,))
        if x.bad or v.bad:
            return self.check(label, False, "not finite")
        (m, c), = xs[i].p.items()
        (a, e), = m
        assert P.ATOMS[a].kind == "var" and e == 1
        d = P.scale(P.diff(v.p, a), 1 / c) if c != 1 else P.diff(v.p, a)
        return self.c.goal(label, P.add(x.p, d, Fraction(-1)), 2)

    def naming(self, flag):
        P.NAMING[0] = flag

    def uf(self, name, args):
        from .core import SymReal, lift
        return SymReal(P.atom_poly(P.uf(name, [lift(a).p for a in args])))

    def decide(self, cond):
        return bool(cond)


def _item(x):
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return x.item()
    return x


class ConH(Base):
    """Replays an assignment on the unpatched code."""
    symbolic = False

    def __init__(self, asg, tol=1e-6):
        self.reals = asg["reals"]
        self.disc = asg["disc"]
        self.failed = []
        self.obs = {}
        self.tol = tol
        self.used = {}

    def real(self, name, lo=-4, hi=4, nonzero=False, positive=False, negative=False, hint=None):
        v = self.reals.get(name)
        if v is None:
            v = self.used.setdefault("?" + name, 1.25 + 0.5 * len(self.used))
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if (nonzero and v == 0) or (positive and v <= 0) or (negative and v >= 0):
            raise Skip("domain of " + name)
        return v

    def choose(self, name, options):
        options = list(options)
        i = self.disc.get(name, 0)
        if i >= len(options):
            raise Skip("choice " + name)
        return options[i]

    lazy = choose

    def sqrt(self, x):
        return math.sqrt(x)

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def assume_z3(self, f):
        if not self.dpossible(f):
            raise Skip("assumption")

    def dcheck(self, label, f, detail=""):
        return self.check(label, not self.dpossible(lambda z3, var: z3.Not(f(z3, var))), detail)

    def dpossible(self, f):
        import sys
        p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        if p not in sys.path:
            sys.path.append(p)
        import z3
        vs = {}

        def var(n):
            vs[n] = z3.Int("d!" + n)
            return vs[n]
        fm = f(z3, var)
        s = z3.Solver()
        s.add(fm)
        for n, v in vs.items():
            s.add(v == self.disc.get(n, 0))
        return s.check() == z3.sat

    def check(self, label, cond, detail=""):
        if not cond:
            self.failed.append((label, detail))
            return False
        return True

    def check_eq(self, label, a, b):
        if _flat(a) or _flat(b):
            return self.check_vec(label, a, b)
        if a is None or b is None:
            return self.check(label, a is b, "%r != %r" % (a, b))
        try:
            x, y = float(a), float(b)
        except (TypeError, ValueError):
            return self.check(label, a == b, "%r != %r" % (a, b))
        if math.isinf(x) or math.isinf(y):
            ok = x == y
        else:
            ok = abs(x - y) <= self.tol * (1.0 + abs(x) + abs(y))
        return self.check(label, ok, "%r != %r" % (x, y))

    def check_any_vec(self, label, a, alts):
        for b in alts:
            if all(abs(float(x) - float(y)) <= self.tol * (1 + abs(float(x)) + abs(float(y))) for x, y in zip(a, b)):
                return True
        return self.check_vec(label, a, alts[0])

    def observe(self, label, v):
        if _flat(v):
            for i, x in enumerate(v):
                self.observe("%s[%d]" % (label, i), x)
            return
        try:
            self.obs[label] = float(v)
        except (TypeError, ValueError):
            pass

    def is_nan(self, x):
        return not math.isfinite(float(x))

    def same(self, a, b):
        x, y = float(a), float(b)
        return abs(x - y) <= self.tol * (1 + abs(x) + abs(y))

    def implied(self, cond):
        return bool(cond)

    def dec(self, x, n=3):
        s = format(float(x), ".%df" % n)
        return s[1:] if s[0] == "-" and not s.strip("-0.") else s

    def json(self, obj):
        import compas
        return compas.json_loads(compas.json_dumps(obj))

    def check_grad(self, label, got, value, xs, i, f):
        def at(d):
            ys = [float(x) for x in xs]
            ys[i] += d
            return float(f(ys))
        got = float(_item(got))
        ds = []
        for e in (1e-3, 1e-4):
            ds.append((8 * (at(e) - at(-e)) - (at(2 * e) - at(-2 * e))) / (12 * e))
        err = abs(ds[0] - ds[1])
        if not err <= 1e-3 * (1 + abs(ds[1])):
            return None     # too close to a kink for a numerical derivative
        return self.check(label, abs(got - ds[1]) <= 1e-4 * (1 + abs(ds[1])) + 10 * err, "%r, numerically %r" % (got, ds[1]))

    def naming(self, flag):
        pass

    def uf(self, name, args):
        # any fixed function will do in a replay: a smooth polynomial without symmetries
        t = 0.7
        for i, a in enumerate(args):
            t = t + (0.3 + 0.21 * i) * float(a) + (0.11 + 0.05 * i) * float(a) ** 2 + 0.017 * float(a) ** 3
        for i in range(len(args) - 1):
            t = t + 0.13 * float(args[i]) * float(args[i + 1])
        return t

    def decide(self, cond):
        return bool(cond)


def run_concrete(fn, cfg, asg):
    """-> dict(status, failed, obs)"""
    h = ConH(asg)
    t = time.time()

    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LATE_S)
    try:
        with h.quiet():
            fn(h, cfg)
        status = "ran"
    except Late:
        status = "late"
        h.failed.append(("does not end", "still running after %d s" % LATE_S))
    except Skip as e:
        return {"status": "skip", "why": str(e), "failed": h.failed, "obs": {}}
    except Exception as e:  # noqa: BLE001
        status = "exception"
        tb = traceback.extract_tb(e.__traceback__)
        h.failed.append(("exception", "%s: %s at %s" % (type(e).__name__, str(e)[:200], "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:]))))
    finally:
        signal.alarm(0)
    return {"status": status, "failed": h.failed, "obs": h.obs, "t": time.time() - t}
