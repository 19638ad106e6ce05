"""Symbolic values, path context and exploration.

The real code runs in CPython on SymReal/Lazy proxies.  Every truth value that depends on
them is decided by the path context: by the facts of the path, by z3, or by forking the
path (depth-first re-execution over decision prefixes).  Checks become goals that must
follow from the path's facts; a goal that does not is handed out as a concrete assignment
which the runner replays on the unpatched code.
"""
import random
import sys
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import poly as P  # noqa: E402

NEG, ZERO, POS = 1, 2, 4
ANY = 7
_FLIP = {0: 0, 1: 4, 2: 2, 3: 6, 4: 1, 5: 5, 6: 3, 7: 7}


def _mulset(a, b):
    r = 0
    for x in (1, 2, 4):
        if a & x:
            for y in (1, 2, 4):
                if b & y:
                    if x == 2 or y == 2:
                        r |= 2
                    elif x == y:
                        r |= 4
                    else:
                        r |= 1
    return r


class PathEnd(BaseException):
    """Steers exploration; never caught by code that catches Exception."""

    def __init__(self, why):
        BaseException.__init__(self, why)
        self.why = why


class Unsupported(Exception):
    pass


CTX = [None]


def ctx():
    return CTX[0]


# ------------------------------------------------------------------ values

class SymBool:
    __slots__ = ("p", "mask")

    def __init__(self, p, mask):
        self.p, self.mask = p, mask

    def __bool__(self):
        return ctx().decide(self.p, self.mask)

    def __invert__(self):
        return SymBool(self.p, ANY & ~self.mask)

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return "SymBool(%s,%d)" % (P.show(self.p), self.mask)

    # truth values count as 0 and 1
    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + _asint(o)

    def __radd__(self, o):
        return _asint(o) + int(self)

    def __sub__(self, o):
        return int(self) - _asint(o)

    def __rsub__(self, o):
        return _asint(o) - int(self)

    def __mul__(self, o):
        return int(self) * _asint(o)

    def __rmul__(self, o):
        return _asint(o) * int(self)

    def __neg__(self):
        return -int(self)

    def __xor__(self, o):
        return bool(self) != bool(o)

    __rxor__ = __xor__

    def any(self, *a, **k):
        return bool(self)

    all = any

    def item(self):
        return bool(self)


def _asint(x):
    return int(x) if isinstance(x, SymBool) else x


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or (hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "fiub")


def lift(x):
    """number -> SymReal, or None"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool, SymBool)):
        x = bool(x)
        return SymReal({(): Fraction(int(x))} if x else {})
    if _isnum(x):
        np_ = hasattr(x, "dtype")
        xf = x if isinstance(x, (int, Fraction)) else float(x)
        if isinstance(xf, float):
            if xf != xf:
                return SymReal({}, np_, "nan")
            if xf in (float("inf"), float("-inf")):
                return SymReal({}, np_, "inf" if xf > 0 else "-inf")
        return SymReal(P.const(xf), np_)
    return None


class SymReal:
    __slots__ = ("p", "npf", "bad")

    def __init__(self, p, npf=False, bad=None):
        self.p, self.npf, self.bad = p, npf, bad

    # numpy conveniences
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SymReal({}, self.npf)

    def conjugate(self):
        return self

    def item(self):
        return SymReal(self.p, False, self.bad)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        c = ctx()
        if c is not None:
            c.concretise(self)
        raise Unsupported("pickling a symbolic value")

    def _bin(self, o):
        r = lift(o)
        return r

    def _np(self, o):
        return self.npf or o.npf

    def __add__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if self.bad or r.bad:
            return _bad(self, r, "+")
        return ctx().mk(P.add(self.p, r.p), self.npf or r.npf)

    __radd__ = __add__

    def __sub__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if self.bad or r.bad:
            return _bad(self, r, "-")
        return ctx().mk(P.add(self.p, r.p, Fraction(-1)), self.npf or r.npf)

    def __rsub__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return r.__sub__(self)

    def __mul__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if self.bad or r.bad:
            return _bad(self, r, "*")
        return ctx().mk(P.mul(self.p, r.p), self.npf or r.npf)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if self.bad or r.bad:
            return _bad(self, r, "/")
        npf = self.npf or r.npf
        c = ctx()
        if c.decide(r.p, ZERO):
            if not npf:
                raise ZeroDivisionError("float division by zero")
            if c.decide(self.p, ZERO):
                return SymReal({}, True, "nan")
            return SymReal({}, True, "inf" if c.decide(self.p, POS) else "-inf")
        a, b = c.simp(self.p), c.simp(r.p)
        if P.is_const(b):
            return c.mk(P.scale(a, 1 / P.const_value(b)), npf)
        if not a:
            return SymReal({}, npf)
        ca, ma, pa = P.canon(a)
        cb, mb, pb = P.canon(b)
        if len(pa) > 1 and pa == pb:
            return c.mk({P._renorm(P.mmul(ma, tuple((i, -e) for i, e in mb))): ca / cb}, npf)
        return c.mk(P.mul(a, P.power(b, -1)), npf)

    def __rtruediv__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return r.__truediv__(self)

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic real")

    def __mod__(self, o):
        raise Unsupported("modulo of a symbolic real")

    def __neg__(self):
        if self.bad:
            return _bad(self, self, "neg")
        return SymReal(P.scale(self.p, Fraction(-1)), self.npf)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.bad:
            return SymReal({}, self.npf, "nan" if self.bad == "nan" else "inf")
        c = ctx()
        s = c.signset(self.p)
        if not s & NEG:
            return self
        if not s & POS:
            return -self
        q = P.name_poly(self.p)
        (m, k), = q.items()
        return c.mk(P.sqrt_poly({P.mmul(m, m): k * k}, c.atom_sign), self.npf)

    def __pow__(self, o):
        if self.bad:
            return _bad(self, self, "pow")
        r = lift(o)
        if r is None:
            return NotImplemented
        if not P.is_const(r.p):
            raise Unsupported("symbolic exponent")
        e = P.const_value(r.p)
        if e.denominator == 1:
            e = int(e)
            if e < 0:
                return SymReal(P.const(1), self.npf) / (self ** (-e))
            out = SymReal(P.const(1), self.npf)
            for _ in range(e):
                out = out * self
            return out
        if e.denominator == 2:
            return self.sqrt() ** int(2 * e)
        raise Unsupported("exponent %s" % e)

    def __rpow__(self, o):
        if P.is_const(self.p) and not self.bad:
            return o ** float(P.const_value(self.p))
        raise Unsupported("symbolic exponent")

    def sqrt(self):
        if self.bad:
            return SymReal({}, self.npf, "nan" if self.bad == "nan" else "inf")
        c = ctx()
        p = c.simp(self.p)
        s = c.signset(p)
        if s == ZERO:
            return SymReal({}, self.npf)
        if s & NEG:
            if c.decide(p, NEG):
                if self.npf:
                    return SymReal({}, True, "nan")
                raise ValueError("math domain error")
        return c.mk(P.sqrt_poly(p, c.atom_sign), self.npf)

    def hypot(self, o):
        return (self * self + lift(o) * lift(o)).sqrt()

    def square(self):
        return self * self

    def isnan(self):
        return self.bad == "nan"

    def fabs(self):
        return abs(self)

    def _cmp(self, o, mask):
        r = lift(o)
        if r is None:
            return NotImplemented
        if self.bad or r.bad:
            v = {None: 0.0, "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}
            a, b = v[self.bad], v[r.bad]
            if a != a or b != b:
                return mask == (NEG | POS)
            s = NEG if a < b else POS if a > b else ZERO
            return bool(s & mask)
        return SymBool(P.add(self.p, r.p, Fraction(-1)), mask)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZERO)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZERO)

    def __eq__(self, o):
        r = self._cmp(o, ZERO)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, NEG | POS)
        return True if r is NotImplemented else r

    def __hash__(self):
        if P.is_const(self.p) and not self.bad:
            return hash(float(P.const_value(self.p)))
        return 7    # two values may be equal: dictionaries have to compare them

    def __bool__(self):
        if self.bad:
            return True
        return ctx().decide(self.p, NEG | POS)

    def __float__(self):
        if self.bad:
            return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}[self.bad]
        if P.is_const(self.p):
            return float(P.const_value(self.p))
        return ctx().concretise(self)

    def __int__(self):
        return int(float(self))

    def __trunc__(self):
        return int(float(self))

    def __round__(self, n=None):
        if P.is_const(self.p) and not self.bad:
            return round(float(self), n) if n is not None else round(float(self))
        c = ctx()
        if c is not None and not self.bad and c.fmt.startswith("fork") and n is not None and n >= 0:
            return SymReal(c.round_class(self.p, n))
        if c is not None and not self.bad and (n or 0) >= 0:
            n = n or 0
            return SymReal(P.scale(P.atom_poly(P.uf("round%d" % n, (self.p,))), Fraction(1, 10 ** n)))
        return self

    def __complex__(self):
        return complex(float(self))

    def is_integer(self):
        return float(self).is_integer()

    def __repr__(self):
        if P.is_const(self.p) and not self.bad:
            return repr(float(P.const_value(self.p)))
        if self.bad:
            return self.bad
        c = ctx()
        return c.token(self) if c is not None else "Sym(%s)" % P.show(self.p)

    __str__ = __repr__

    def __format__(self, spec):
        c = ctx()
        if self.bad:
            return format(float(self), spec)
        if spec and spec[-1] in "f" and spec[0] == "." and spec[1:-1].isdigit():
            return c.round_token(self, int(spec[1:-1]))
        if P.is_const(self.p):
            return format(float(P.const_value(self.p)), spec)
        return repr(self)


def _bad(a, b, op):
    npf = a.npf or b.npf
    if a.bad == "nan" or b.bad == "nan":
        return SymReal({}, npf, "nan")
    v = {"inf": 1, "-inf": -1}
    if op == "neg":
        return SymReal({}, npf, "-inf" if a.bad == "inf" else "inf")
    if op in "+-":
        x = v.get(a.bad, 0)
        y = v.get(b.bad, 0) * (1 if op == "+" else -1)
        if x and y and x != y:
            return SymReal({}, npf, "nan")
        return SymReal({}, npf, "inf" if (x or y) > 0 else "-inf")
    c = ctx()

    def sg(z):
        if z.bad:
            return v[z.bad]
        if c.decide(z.p, ZERO):
            return 0
        return 1 if c.decide(z.p, POS) else -1
    x, y = sg(a), sg(b)
    if op == "*":
        if not x or not y:
            return SymReal({}, npf, "nan")
        return SymReal({}, npf, "inf" if x * y > 0 else "-inf")
    if op == "/":
        if a.bad and b.bad:
            return SymReal({}, npf, "nan")
        if b.bad:
            return SymReal({}, npf)
        if y == 0 and not npf:
            raise ZeroDivisionError
        return SymReal({}, npf, "inf" if x * (y or 1) > 0 else "-inf")
    return SymReal({}, npf, "nan")


class Lazy:
    """A value from a finite set, decided by the solver when the code first looks at it."""
    __slots__ = ("name", "options", "var")

    def __init__(self, name, options, var):
        self.name, self.options, self.var = name, options, var

    def force(self):
        return ctx().force(self)

    def __eq__(self, o):
        if isinstance(o, Lazy):
            o = o.force()
        return ctx().lazy_is(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self.force())

    def __bool__(self):
        return bool(self.force())

    def __str__(self):
        return str(self.force())

    def __repr__(self):
        return repr(self.force())

    def __format__(self, s):
        return format(self.force(), s)

    def __index__(self):
        return self.force().__index__()

    def __int__(self):
        return int(self.force())

    def __lt__(self, o):
        return self.force() < (o.force() if isinstance(o, Lazy) else o)

    def __gt__(self, o):
        return self.force() > (o.force() if isinstance(o, Lazy) else o)

    def __le__(self, o):
        return self.force() <= (o.force() if isinstance(o, Lazy) else o)

    def __ge__(self, o):
        return self.force() >= (o.force() if isinstance(o, Lazy) else o)

    def __add__(self, o):
        return self.force() + o

    def __radd__(self, o):
        return o + self.force()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)


class Token(str):
    pass


# ------------------------------------------------------------------ statistics

class Stats:
    FIELDS = ("paths", "complete", "cut_generic", "infeasible", "aborted", "decisions", "forks",
              "queries", "unsat", "sat", "unknown", "goals", "goals_proved", "goals_rewrite",
              "goals_z3", "goals_inconclusive", "concretised", "witnesses")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_time = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_time"] = self.solver_time
        return d


# ------------------------------------------------------------------ path context

class Ctx:
    native = False      # arrays made now hold floats: nothing symbolic will be stored in them

    def __init__(self, prefix, stats, seed=1, policy="lazy", generic=False, z3_ms=2000, cand=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []          # (choice, number of options)
        self.alternatives = []   # prefixes discovered on this path
        self.stats = stats
        self.policy = policy
        self.generic = generic
        self.z3_ms = z3_ms
        self.facts = {}          # canonical key -> mask
        self.pfacts = {}         # product of the factors of unknown sign -> mask
        self.cons = []           # (poly, mask)
        self.zero_atoms = set()
        self.subst = {}          # atom id -> poly, from equalities
        self.disc = z3.Solver()
        self.disc.set("timeout", 20000)
        self.lazies = {}
        self.lazy_val = {}
        self.inputs = {}         # name -> atom (real inputs)
        self.choices = {}        # name -> value (discrete inputs)
        self.rng = random.Random(seed * 7919)
        self.hints = {}
        self.cands = []          # candidate violations
        self.incon = []
        self.obs = []
        self.tokens = {}
        self.rounds = {}
        self.incomplete = []
        self.last_witness = None
        self.samples = {}

    # ---------------------------------------------------------- construction
    def mk(self, p, npf=False):
        return SymReal(self.simp(p), npf)

    def simp(self, p):
        z = self.zero_atoms
        if z and p:
            for m in p:
                for i, e in m:
                    if i in z and e > 0:
                        return {m: c for m, c in p.items() if not any(j in z and f > 0 for j, f in m)}
        return p

    def real(self, name, lo=-4, hi=4, nonzero=False, positive=False, negative=False, hint=None):
        a = P.var(name, lo, hi)
        self.inputs[name] = a
        self.hints[name] = (lo, hi, hint)
        p = P.atom_poly(a)
        if positive:
            self.assume(p, POS, True)
        elif negative:
            self.assume(p, NEG, True)
        elif nonzero:
            self.assume(p, NEG | POS, True)
        return SymReal(p)

    # ---------------------------------------------------------- signs
    def atom_sign(self, i):
        a = P.ATOMS[i]
        s = self.facts.get((((i, 1),), ()), ANY)
        if a.kind == "name":
            s &= self._prim_sign(tuple(sorted(a.arg.items())))
        elif a.kind == "sqrt":
            s &= ZERO | POS
            if s != POS and not self.signset(a.arg) & ZERO:
                s &= POS
        if i in self.zero_atoms:
            s &= ZERO
        return s

    def _mono_sign(self, m):
        s = POS
        for i, e in m:
            t = self.atom_sign(i)
            if e % 2 == 0:
                t = (POS if t & (NEG | POS) else 0) | (t & ZERO)
            if e < 0:
                t &= ~ZERO
            s = _mulset(s, t)
        if len(m) > 1:
            k = self._mono_key(m)
            f = self.facts.get((k, ()))
            if f is not None:
                s &= f
        return s

    @staticmethod
    def _mono_key(m):
        # parity class; zero information is kept apart by the caller
        return tuple((i, e) for i, e in m)

    def _prim_sign(self, prim):
        f = self.facts.get(((), prim), ANY)
        s = 0
        for m, c in prim:
            t = self._mono_sign(m)
            s |= t if c > 0 else _FLIP[t]
        # all terms of one sign
        lo = hi = True
        strict_pos = strict_neg = False
        for m, c in prim:
            t = self._mono_sign(m)
            if c < 0:
                t = _FLIP[t]
            if t & NEG:
                lo = False
            if t & POS:
                hi = False
            if t == POS:
                strict_pos = True
            if t == NEG:
                strict_neg = True
        if lo:
            f &= POS if strict_pos else (ZERO | POS)
        if hi:
            f &= NEG if strict_neg else (ZERO | NEG)
        return f

    def _core(self, m, prim):
        """the factors of unknown sign (odd powers), and the sign of the dropped ones; None where one may vanish"""
        sg = 1
        keep = []
        for i, e in m:
            t = self.atom_sign(i)
            if t == POS or (e % 2 == 0 and not t & ZERO):
                continue
            if t == NEG:
                if e % 2:
                    sg = -sg
                continue
            if e % 2 == 0:
                return None, 0
            keep.append(i)
        if len(prim) > 1:
            t = self._prim_sign(prim)
            if t in (NEG, POS):
                if t == NEG:
                    sg = -sg
                prim = ()
        else:
            prim = ()
        return (tuple(keep), prim), sg

    def signset(self, p):
        p = self.simp(p)
        if not p:
            return ZERO
        c, m, prim = P.canon(p)
        s = self._mono_sign(m)
        if len(prim) > 1:
            s = _mulset(s, self._prim_sign(prim))
        s &= ANY
        if len(p) == 1 or True:
            k = self.facts.get((m, prim))
            if k is not None:
                s &= k
        if s not in (NEG, ZERO, POS) and self.pfacts:
            key, sg = self._core(m, prim)
            k = self.pfacts.get(key)
            if k is not None:
                s &= k if sg > 0 else _FLIP[k]
        if c < 0:
            s = _FLIP[s]
        # negative exponents: nonzero
        return s

    def assume(self, p, mask, record=True):
        """Add the fact sign(p) in mask."""
        p = self.simp(p)
        s = self.signset(p) & mask
        if s == 0:
            raise PathEnd("infeasible")
        if record:
            self.cons.append((p, mask))
        if not p:
            return
        c, m, prim = P.canon(p)
        if c < 0:
            s = _FLIP[s]
        self._fact(m, prim, s)

    def _fact(self, m, prim, s):
        key = (m, prim)
        self.facts[key] = self.facts.get(key, ANY) & s
        multi = len(prim) > 1
        if not s & ZERO:
            # every factor with positive exponent is nonzero
            for i, e in m:
                self._atom_fact(i, NEG | POS)
            if multi:
                self._pfact(prim, NEG | POS)
        # exactly one factor of unknown sign: deduce it
        parts = [("a", i, e, self.atom_sign(i)) for i, e in m]
        if multi:
            parts.append(("p", prim, 1, self._prim_sign(prim)))
        unknown = [t for t in parts if not (t[2] % 2 == 0 and not t[3] & ZERO) and t[3] not in (NEG, POS)]
        if len(unknown) == 1:
            sg = 1
            for t in parts:
                if t is unknown[0] or t[2] % 2 == 0:
                    continue
                if t[3] == NEG:
                    sg = -sg
            u = unknown[0]
            want = s if sg > 0 else _FLIP[s]
            if u[2] % 2 == 0:
                want = ((NEG | POS) if want & POS else 0) | (want & ZERO)
            if u[0] == "a":
                self._atom_fact(u[1], want)
            else:
                self._pfact(u[1], want)
        elif unknown and s != ZERO:
            ck, sg = self._core(m, prim)
            if ck is not None:
                self.pfacts[ck] = self.pfacts.get(ck, ANY) & (s if sg > 0 else _FLIP[s])
        elif s == ZERO:
            nz = [t for t in parts if t[3] & ZERO]
            if len(nz) == 1:
                if nz[0][0] == "a":
                    self._atom_fact(nz[0][1], ZERO)
                else:
                    self._pfact(nz[0][1], ZERO)

    def _atom_fact(self, i, s):
        key = (((i, 1),), ())
        old = self.atom_sign(i)
        new = old & s
        if new == 0:
            raise PathEnd("infeasible")
        self.facts[key] = new
        a = P.ATOMS[i]
        if new == old and not (new == ZERO and i not in self.zero_atoms):
            return
        if a.kind == "name":
            self._pfact(tuple(sorted(a.arg.items())), new)
        elif a.kind == "sqrt":
            # sign of the argument
            if new == ZERO:
                self._zero_poly(a.arg)
            elif not new & ZERO:
                try:
                    self.assume(a.arg, POS, False)
                except RecursionError:
                    pass
        if new == ZERO:
            self.zero_atoms.add(i)
            if a.kind == "var":
                self.subst[i] = {}

    def _pfact(self, prim, s):
        key = ((), prim)
        old = self._prim_sign(prim)
        new = old & s
        if new == 0:
            raise PathEnd("infeasible")
        if self.facts.get(key) == new:
            return
        self.facts[key] = new
        a = P._NAMES.get(prim)
        self._split_sum(prim, new)
        if a is not None and new == ZERO:
            self.zero_atoms.add(a.id)
        if new == ZERO:
            self._zero_poly(dict(prim))

    def _split_sum(self, prim, s):
        """sum of terms of sign s: where all terms but one have the opposite sign, that one's sign follows"""
        if not 2 <= len(prim) <= 4 or s in (ANY, NEG | POS):
            return
        sg = []
        for m, c in prim:
            t = self._mono_sign(m) if m else POS
            sg.append(_FLIP[t] if c < 0 else t)
        for k, (m, c) in enumerate(prim):
            if not m:
                continue
            rest = [t for j, t in enumerate(sg) if j != k]
            want = ANY
            if not s & NEG and not any(t & POS for t in rest):
                want = POS if (s == POS or NEG in rest) else ZERO | POS
            elif not s & POS and not any(t & NEG for t in rest):
                want = NEG if (s == NEG or POS in rest) else ZERO | NEG
            if c < 0:
                want = _FLIP[want]
            if want != ANY and self._mono_sign(m) & ~want:
                if not self._mono_sign(m) & want:
                    raise PathEnd("infeasible")
                self._fact(m, (((), Fraction(1)),), want)

    def _zero_poly(self, p):
        """p == 0: a sum of squares makes every square zero; a linear variable is solved for."""
        p = self.simp(p)
        if not p:
            return
        if len(p) == 1:
            (m, c), = p.items()
            self._fact(m, (((), Fraction(1)),), ZERO)
            return
        signs = [(m, (_FLIP[self._mono_sign(m)] if c < 0 else self._mono_sign(m))) for m, c in p.items()]
        if all(not s & NEG for _, s in signs) or all(not s & POS for _, s in signs):
            for m, s in signs:
                if not s & ZERO:
                    raise PathEnd("infeasible")
                self.cons.append(({m: Fraction(1)}, ZERO))
                self._fact(m, (((), Fraction(1)),), ZERO)
            return
        # solve for a variable that occurs once, linearly, with constant coefficient
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and P.ATOMS[m[0][0]].kind == "var":
                i = m[0][0]
                if i in self.subst:
                    continue
                rest = {n: d for n, d in p.items() if n != m}
                if i in P.atoms_of(rest):
                    continue
                q = P.scale(rest, Fraction(-1) / c)
                # keep the substitution triangular
                if any(i in P.atoms_of(x) for x in self.subst.values()):
                    self.subst = {k: P.rewrite(v, {i: q}, self.atom_sign) for k, v in self.subst.items()}
                self.subst[i] = q
                return

    # ---------------------------------------------------------- decisions
    def _next(self, options):
        """Take the next decision among the given options; register the others as alternatives."""
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(ch)
            return ch
        self.pos += 1
        ch = options[0]
        base = list(self.trace)
        for o in options[1:]:
            self.alternatives.append(base + [o])
            self.stats.forks += 1
        self.trace.append(ch)
        return ch

    def decide(self, p, mask):
        p = self.simp(p)
        s = self.signset(p)
        if not s & ~mask:
            return True
        if not s & mask:
            return False
        if self.subst:
            q = self.reduce(p)
            if q is not p:
                s &= self.signset(q)
                if not s & ~mask:
                    return True
                if not s & mask:
                    return False
        if self.generic and s & ZERO and (s & (NEG | POS)) and not P.has_round(p):
            # the zero set of a non-constant quantity is outside this configuration's bound
            self.assume(p, NEG | POS)
            self.stats.cut_generic += 1
            s = self.signset(p)
            if not s & ~mask:
                return True
            if not s & mask:
                return False
        self.stats.decisions += 1
        self._deadline()
        if self.pos < len(self.prefix):
            ch = self._next(None)
        else:
            opts = [True, False]
            if self.policy == "full":
                opts = [o for o in opts if self._feasible(p, mask if o else ANY & ~mask)]
                if not opts:
                    raise PathEnd("infeasible")
            ch = self._next(opts)
        self.assume(p, s & (mask if ch else ANY & ~mask))
        return ch

    def _deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise PathEnd("timeout")

    deadline = None
    fmt = "opaque"

    def reduce(self, p):
        """Apply the equalities of the path to p."""
        if not p:
            return p
        sub = {i: {} for i in self.zero_atoms}
        sub.update(self.subst)
        ats = P.atoms_of(p)
        for i in ats:
            a = P.ATOMS[i]
            if a.kind == "sqrt" and a.extra == "abs" and i not in sub:
                (m2, _), = a.arg.items()
                (j, _), = m2
                s = self.atom_sign(j)
                if not s & NEG:
                    sub[i] = {((j, 1),): Fraction(1)}
                elif not s & POS:
                    sub[i] = {((j, 1),): Fraction(-1)}
        if not (ats & sub.keys()):
            return p
        q = p
        for _ in range(6):
            try:
                n = P.rewrite(q, sub, self.atom_sign)
            except (ZeroDivisionError, RecursionError):
                return q
            if n == q:
                break
            q = n
            if not (P.atoms_of(q) & sub.keys()):
                break
        return q

    # discrete ---------------------------------------------------------------
    def choose(self, name, options):
        """A discrete input: an index into options, decided by forking (all of them are explored)."""
        v = self.lazy(name, options)
        return self.force(v)

    def lazy(self, name, options):
        options = list(options)
        var = z3.Int("d!" + name)
        self.disc.add(var >= 0, var < len(options))
        L = Lazy(name, options, var)
        self.lazies[name] = L
        return L

    def dfeasible(self, *conds):
        self.stats.queries += 1
        t = time.time()
        r = self.disc.check(*conds)
        self.stats.solver_time += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
        else:
            self.stats.unknown += 1
        return r != z3.unsat

    def force(self, L):
        if L.name in self.lazy_val:
            return L.options[self.lazy_val[L.name]]
        self._deadline()
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            i = self._next(None)
        else:
            opts = [k for k in range(len(L.options)) if self.dfeasible(L.var == k)]
            if not opts:
                raise PathEnd("infeasible")
            i = self._next(opts)
        self.disc.add(L.var == i)
        self.lazy_val[L.name] = i
        return L.options[i]

    def lazy_is(self, L, value):
        if L.name in self.lazy_val:
            return L.options[self.lazy_val[L.name]] == value
        idx = [k for k, o in enumerate(L.options) if o == value]
        if not idx:
            return False
        yes = z3.Or([L.var == k for k in idx])
        return self.ddecide(yes, L)

    def ddecide(self, cond, L=None):
        """Decide a discrete z3 condition by fork."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self._deadline()
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            ch = self._next(None)
        else:
            opts = []
            if self.dfeasible(cond):
                opts.append(True)
            if self.dfeasible(z3.Not(cond)):
                opts.append(False)
            if not opts:
                raise PathEnd("infeasible")
            ch = self._next(opts)
        self.disc.add(cond if ch else z3.Not(cond))
        if L is not None and len(L.options) == 2:
            self.disc.check()
        return ch

    def dassume(self, cond):
        self.disc.add(cond)
        if not self.dfeasible():
            raise PathEnd("infeasible")

    def disc_model(self):
        """A value for every discrete input (decided ones as decided)."""
        if self.disc.check() != z3.sat:
            return None
        m = self.disc.model()
        out = {}
        for n, L in self.lazies.items():
            v = m.eval(L.var, model_completion=True).as_long()
            out[n] = v
        return out

    # ---------------------------------------------------------- z3 for reals
    def zvar(self, i):
        a = P.ATOMS[i]
        if a.kind == "uf" and a.extra.startswith("round"):
            return z3.ToReal(z3.Int("k%d" % i))
        return z3.Real("a%d" % i)

    def zpoly(self, p):
        """z3 term of a polynomial without negative exponents."""
        ts = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for i, e in m:
                v = self.zvar(i)
                for _ in range(e):
                    t = t * v
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zsign(self, p, mask):
        if mask == ANY:
            return z3.BoolVal(True)
        p = self.simp(p)
        # multiply by even powers of denominators: sign preserved (denominators are nonzero)
        neg = {}
        for m in p:
            for i, e in m:
                if e < 0:
                    neg[i] = max(neg.get(i, 0), -e)
        nz = []
        if neg:
            mm = tuple(sorted((i, e + (e % 2)) for i, e in neg.items()))
            q = {}
            for m, c in p.items():
                d = dict(m)
                for i, e in mm:
                    d[i] = d.get(i, 0) + e
                q[tuple(sorted((i, e) for i, e in d.items() if e))] = c
            p = q
            nz = [self.zvar(i) != 0 for i in neg]
        t = self.zpoly(p)
        c = {NEG: t < 0, ZERO: t == 0, POS: t > 0, NEG | ZERO: t <= 0, POS | ZERO: t >= 0, NEG | POS: t != 0, 0: z3.BoolVal(False)}[mask]
        return z3.And([c] + nz) if nz else c

    def zdefs(self, ids):
        out = []
        for i in ids:
            a = P.ATOMS[i]
            if a.kind == "name":
                d = P.add(P.atom_poly(a), a.arg, Fraction(-1))
                out.append(self.zsign(d, ZERO))
            elif a.kind == "sqrt":
                out.append(self.zvar(i) >= 0)
                d = P.add({((i, 2),): Fraction(1)}, a.arg, Fraction(-1))
                out.append(self.zsign(d, ZERO))
            elif a.kind == "uf" and a.extra.startswith("round"):
                n = int(a.extra[5:])
                x = P.scale(a.arg[0], Fraction(10 ** n))
                up = P.add(x, P.add(P.atom_poly(a), P.const(Fraction(1, 2))), Fraction(-1))
                lo = P.add(x, P.add(P.atom_poly(a), P.const(Fraction(-1, 2))), Fraction(-1))
                out.append(self.zsign(up, NEG))
                out.append(self.zsign(lo, POS))
        return out

    def _zcheck(self, assertions, ms=None):
        s = z3.Solver()
        s.set("timeout", ms or self.z3_ms)
        s.add(assertions)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
            return "sat", s.model()
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        self.stats.unknown += 1
        return "unknown", None

    def _system(self, extra, cone=None):
        """Path constraints (all, or those sharing atoms with the goal) plus definitions."""
        cons = list(self.cons)
        if cone is not None:
            ats = set()
            for p, _ in extra:
                P.atoms_of(p, True, ats)
            keep = []
            for p, mk in cons:
                a = P.atoms_of(p)
                if cone == 0:
                    if a <= ats:
                        keep.append((p, mk))
                elif a & ats:
                    keep.append((p, mk))
            cons = keep
        ids = set()
        for p, _ in cons + list(extra):
            P.atoms_of(p, True, ids)
        zs = [self.zsign(p, mk) for p, mk in cons + list(extra)] + self.zdefs(ids)
        return zs, ids

    def _feasible(self, p, mask):
        zs, _ = self._system([(p, mask)])
        r, _ = self._zcheck(zs, min(self.z3_ms, 1000))
        return r != "unsat"

    # ---------------------------------------------------------- witnesses
    def sample_env(self, rng, pins=None):
        env = {}
        for n, a in self.inputs.items():
            if pins and n in pins:
                env[n] = pins[n]
                continue
            lo, hi, hint = self.hints[n]
            s = self.atom_sign(a.id)
            if hint is not None and rng.random() < 0.5:
                v = Fraction(repr(float(hint)))
            else:
                v = Fraction(rng.randint(int(lo * 4), int(hi * 4)), 4)
            if not s & ZERO and v == 0:
                v = Fraction(1, 2)
            if not s & NEG and v < 0:
                v = -v
            if not s & POS and v > 0:
                v = -v
            if s == ZERO:
                v = Fraction(0)
            env[n] = v
        return env

    ufs = {}

    def eval_env(self, env):
        e = dict(env)
        e["__uf__"] = self.uf_impl()
        return e

    def uf_impl(self):
        d = {"round%d" % k: (lambda x, k=k: _roundhalf(x, k)) for k in range(0, 13)}
        d.update(self.ufs)
        return d

    def satisfies(self, env, cons, margin=1e-9):
        cache = {}
        e = self.eval_env(env)
        for p, mask in cons:
            try:
                v = P.eval_poly(p, e, cache)
            except (P.NumFail, OverflowError, ZeroDivisionError):
                return False
            if isinstance(v, (Fraction, int)):
                s = ZERO if v == 0 else POS if v > 0 else NEG
            else:
                s = ZERO if abs(v) < margin else POS if v > 0 else NEG
            if not s & mask:
                return False
        return True

    def thin(self, cons):
        """|c| below a small bound: sampling aims at c close to zero"""
        out = []
        for p, mask in cons:
            if mask in (ZERO, NEG | POS, ANY) or not p:
                continue
            c, m, prim = P.canon(p)
            if len(prim) != 2:
                continue
            if not mask & POS:
                sg = 1 if c > 0 else -1
            elif not mask & NEG:
                sg = -1 if c > 0 else 1
            else:
                continue
            for mm, cc in prim:
                for i, e in mm:
                    a = P.ATOMS[i]
                    if cc * sg > 0 and a.kind == "sqrt" and a.extra == "abs":
                        (m2, _), = a.arg.items()
                        (j, _), = m2
                        b = P.ATOMS[j]
                        out.append(P.add(dict(b.arg) if b.kind == "name" else {((j, 1),): Fraction(1)}, {(): Fraction(1, 10 ** 9)}, Fraction(-1)))
        return out

    def solve_equalities(self, env, cons):
        """Adjust linear variables so that the equalities of the path hold at env."""
        eqs = [p for p, m in cons if m == ZERO] + self.thin(cons)
        used = set()
        for p in eqs:
            ats = [P.ATOMS[i] for i in P.atoms_of(p) if P.ATOMS[i].kind == "var"]
            try:
                v0 = P.eval_poly(p, self.eval_env(env), {})
            except (P.NumFail, OverflowError):
                return None
            if abs(v0) < 1e-12:
                continue
            ok = False
            self.rng.shuffle(ats)
            for a in ats:
                if a.name in used or a.name not in env:
                    continue
                try:
                    es = []
                    for t in (0, 1, 2):
                        e2 = dict(env)
                        e2[a.name] = Fraction(t)
                        es.append(P.eval_poly(p, self.eval_env(e2), {}))
                except (P.NumFail, OverflowError):
                    continue
                d1, d2 = es[1] - es[0], es[2] - es[1]
                if abs(d1 - d2) > 1e-12 or abs(d1) < 1e-12:
                    continue
                x = -es[0] / d1
                env[a.name] = x if isinstance(x, Fraction) else Fraction(x).limit_denominator(10 ** 12)
                used.add(a.name)
                ok = True
                break
            if not ok:
                for a in ats[:6]:
                    if a.name in used or a.name not in env:
                        continue
                    x = self._secant(p, env, a.name)
                    if x is not None:
                        env[a.name] = x
                        used.add(a.name)
                        ok = True
                        break
            if not ok:
                return None
        return env

    def _secant(self, p, env, name):
        def f(x):
            e2 = dict(env)
            e2[name] = Fraction(x)
            return float(P.eval_poly(p, self.eval_env(e2), {}))
        try:
            x0 = float(env[name])
            x1 = x0 + 0.5
            f0, f1 = f(x0), f(x1)
            for _ in range(40):
                if abs(f1) < 1e-13:
                    return Fraction(x1)
                if f1 == f0:
                    return None
                x0, x1, f0 = x1, x1 - f1 * (x1 - x0) / (f1 - f0), f1
                if abs(x1) > 1e3:
                    return None
                f1 = f(x1)
        except (P.NumFail, OverflowError, ZeroDivisionError):
            return None
        return Fraction(x1) if abs(f1) < 1e-11 else None

    climb_left = [12.0]

    def _climb(self, cons, evals=600):
        """Local search for inputs on which all constraints hold; equalities are left to solve_equalities."""
        t0 = time.time()
        haseq = any(m == ZERO for _, m in cons) or bool(self.thin(cons))
        names = list(self.inputs)
        rng = self.rng

        def cost(env):
            cache, e = {}, self.eval_env(env)
            t = 0.0
            n = 0
            for p, mask in cons:
                try:
                    v = float(P.eval_poly(p, e, cache))
                except (P.NumFail, OverflowError, ZeroDivisionError):
                    return (10 ** 6, 0.0)
                s = ZERO if abs(v) < 1e-9 else POS if v > 0 else NEG
                if not s & mask:
                    n += 1
                    t += min(abs(v), 1e6) if mask != NEG | POS else 1.0
            return (n, t)
        done = 0
        while done < evals and Ctx.climb_left[0] - (time.time() - t0) > 0:
            env = self.sample_env(rng)
            if rng.random() < 0.6:
                k = Fraction(1, 10 ** rng.randint(1, 8))
                some = set(names) if rng.random() < 0.5 else set(rng.sample(names, max(1, len(names) // 2)))
                env = {n: v * k if n in some else v for n, v in env.items()}
            if haseq:
                env = self.solve_equalities(env, cons)
                if env is None:
                    done += 5
                    continue
            c = cost(env)
            stall = 0
            while c[0] and done < evals and stall < 60 and c[0] < 10 ** 6:
                done += 1
                e2 = dict(env)
                how = rng.random()
                for n in rng.sample(names, 1 if how < 0.7 else min(3, len(names))):
                    v = e2[n]
                    u = rng.random()
                    if u < 0.3:
                        v = v * rng.choice([Fraction(1, 10), Fraction(1, 2), Fraction(9, 10), Fraction(11, 10), 2, 10])
                    elif u < 0.5:
                        v = -v
                    else:
                        v = v + Fraction(rng.randint(-16, 16), 4 ** rng.randint(1, 6))
                    sg = self.atom_sign(self.inputs[n].id)
                    if (v == 0 and not sg & ZERO) or (v < 0 and not sg & NEG) or (v > 0 and not sg & POS):
                        continue
                    e2[n] = Fraction(v).limit_denominator(10 ** 12)
                if haseq:
                    e2 = self.solve_equalities(e2, cons)
                    if e2 is None:
                        stall += 1
                        continue
                c2 = cost(e2)
                if c2 <= c:
                    stall = 0 if c2 < c else stall + 1
                    env, c = e2, c2
                else:
                    stall += 1
            done += 1
            if not c[0] and self.satisfies(env, cons):
                Ctx.climb_left[0] -= time.time() - t0
                return env
        Ctx.climb_left[0] -= time.time() - t0
        return None

    def witness(self, extra=(), tries=60, score=None, z3_ms=None, climb=False):
        """Concrete inputs on which the path (and extra constraints) hold, or None."""
        cons = self.cons + list(extra)
        best, bests = None, -1.0
        haseq = any(m == ZERO for _, m in cons) or bool(self.thin(cons))
        for k in range(tries):
            env = self.sample_env(self.rng)
            if haseq:
                env = self.solve_equalities(env, cons)
                if env is None:
                    continue
            if self.satisfies(env, cons):
                if score is None:
                    return env
                try:
                    v = abs(float(P.eval_poly(score, self.eval_env(env), {})))
                except (P.NumFail, OverflowError):
                    continue
                if v > bests:
                    best, bests = env, v
                if bests > 1e-3 and k > 5:
                    break
        if best is not None:
            return best
        if climb and self.inputs:
            env = self._climb(cons)
            if env is not None:
                return env
        if z3_ms == 0:
            return None
        # ask z3, pinning a random subset of the inputs to keep the query small
        zs, ids = self._system(list(extra))
        names = list(self.inputs)
        for attempt in range(3):
            if attempt < 2 and len(names) > 3:
                env = self.sample_env(self.rng)
                eqv = set()
                for p, m in cons:
                    if m == ZERO or attempt == 1:
                        eqv |= {P.ATOMS[i].name for i in P.atoms_of(p) if P.ATOMS[i].kind == "var"}
                free = set(self.rng.sample(sorted(eqv), min(len(eqv), 3))) if eqv else set()
                pins = [z3.Real("a%d" % a.id) == z3.RealVal(str(env[n])) for n, a in self.inputs.items() if n not in free]
            else:
                pins = []
            r, m = self._zcheck(zs + pins, z3_ms or self.z3_ms)
            if r == "sat":
                return self._model_env(m)
            if r == "unsat" and not pins:
                return None
        return None

    def _model_env(self, m):
        env = {}
        for n, a in self.inputs.items():
            v = m.eval(z3.Real("a%d" % a.id), model_completion=True)
            if z3.is_rational_value(v):
                env[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            else:
                v = v.approx(20)
                env[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return env

    def concretise(self, x):
        """A symbolic value reaches code that needs a machine float: pin its inputs to a witness."""
        self.stats.concretised += 1
        self.incomplete.append("concretised at a C boundary")
        env = self.last_witness
        if env is None or any(n not in env for n in self.inputs) or not self.satisfies(env, self.cons):
            env = self.witness()
        if env is None:
            raise PathEnd("no witness to concretise")
        self.last_witness = env
        for i in P.atoms_of(x.p):
            a = P.ATOMS[i]
            if a.kind == "var" and i not in self.subst:
                self.cons.append((P.add(P.atom_poly(a), P.const(env[a.name]), Fraction(-1)), ZERO))
                self.subst[i] = P.const(env[a.name])
                if not env[a.name]:
                    self.zero_atoms.add(i)
        return float(P.eval_poly(x.p, self.eval_env(env), {}))

    # ---------------------------------------------------------- tokens
    def token(self, x):
        k = "SYM%dX" % len(self.tokens)
        for kk, v in self.tokens.items():
            if v.p == x.p:
                return kk
        self.tokens[k] = x
        return k

    def round_token(self, x, n):
        """Formatting with n decimals: equal strings iff equal rounded values."""
        classes = self.rounds.setdefault(n, [])
        p = x.p
        if self.fmt == "opaque":
            # distinct expressions get distinct strings (the harness does not look nodes up by coordinates)
            if P.is_const(p):
                return "%.*f" % (n, float(P.const_value(p)))
            for kk, ss in classes:
                if kk == p:
                    return ss
            s = Token("r%dc%d" % (n, len(classes)))
            classes.append((p, s))
            return s
        if P.is_const(p):
            # harnesses never mix constants and symbolic values on one axis
            return "%.*f" % (n, float(P.const_value(p)))
        for kk, ss in classes:
            if P.scale(kk, Fraction(1, 10 ** n)) == p:
                return ss
        k = P.atom_poly(P.uf("round%d" % n, (p,)))
        if self.fmt == "fork0" and self.decide(k, ZERO):
            # values that round to zero keep their sign
            return "%.*f" % (n, -0.0 if self.decide(p, NEG) else 0.0)
        return self._round_class(k, n)[1]

    def _round_class(self, k, n):
        classes = self.rounds.setdefault(n, [])
        for kk, ss in classes:
            if kk == k:
                return kk, ss
        for kk, ss in classes:
            if self.decide(P.add(k, kk, Fraction(-1)), ZERO):
                return kk, ss
        s = Token("r%dc%d" % (n, len(classes)))
        classes.append((k, s))
        return k, s

    def round_class(self, p, n):
        """The rounded value, represented alike for all values found to round alike."""
        for kk, ss in self.rounds.get(n, ()):
            if P.scale(kk, Fraction(1, 10 ** n)) == p:
                return p
        kk, _ = self._round_class(P.atom_poly(P.uf("round%d" % n, (p,))), n)
        return P.scale(kk, Fraction(1, 10 ** n))

    def grid(self, values, n):
        """Constants that rounded values are to be compared with."""
        for v in values:
            v = Fraction(v)
            e = (P.const(v * 10 ** n), "%.*f" % (n, float(v)))
            if e not in self.rounds.setdefault(n, []):
                self.rounds[n].append(e)

    # ---------------------------------------------------------- goals
    confirm_left = [20.0]

    def _confirm(self, p, mask):
        """A goal the normal form has decided is put to z3 as well, while the task's budget for it lasts."""
        st = self.stats
        st.goals_proved += 1
        if Ctx.confirm_left[0] > 0:
            t = time.time()
            zs, _ = self._system([(p, ANY & ~mask)], 0)
            r, _ = self._zcheck(zs, 150)
            Ctx.confirm_left[0] -= time.time() - t
            if r == "unsat":
                st.goals_z3 += 1
                return True
        st.goals_rewrite += 1
        return True

    def goal(self, label, p, mask, detail=""):
        """The path must imply sign(p) in mask."""
        st = self.stats
        st.goals += 1
        p = self.simp(p)
        s = self.signset(p)
        if not s & ~mask:
            return self._confirm(p, mask)
        q = self.reduce(p)
        s &= self.signset(q)
        if not s & ~mask:
            return self._confirm(q, mask)
        if mask & ZERO:
            if P.expand_zero(q, 4000) or self._split_zero(q):
                return self._confirm(q, mask)
        bad = ANY & ~mask
        extra = [(p, bad)]
        # refutation first: a concrete point on the path
        env = self.witness(extra, tries=40, score=p, z3_ms=0)
        if env is not None:
            try:
                v = float(P.eval_poly(p, self.eval_env(env), {}))
            except P.NumFail:
                v = 0.0
            if abs(v) > 1e-7:
                self.cands.append((label, env, detail + " value=%.6g" % v))
                st.sat += 1
                st.queries += 1
                return False
        for cone in (0, 1, None):
            zs, ids = self._system([(q, bad)] if q is not p else extra, cone)
            r, m = self._zcheck(zs)
            if r == "unsat":
                st.goals_proved += 1
                st.goals_z3 += 1
                return True
            if r == "sat" and cone is None:
                env = self._model_env(m)
                self.cands.append((label, env, detail + " (z3 model)"))
                return False
        env = self.witness(extra, tries=200, score=p)
        if env is not None and self.satisfies(env, self.cons):
            self.cands.append((label, env, detail))
            return False
        st.goals_inconclusive += 1
        self.incon.append(label)
        return None

    def _split_zero(self, q):
        """q == 0 in every case of the signs of the quantities it takes absolute values of"""
        ab = []
        for i in P.atoms_of(q):
            a = P.ATOMS[i]
            if a.kind == "sqrt" and a.extra == "abs":
                (m2, _), = a.arg.items()
                (j, _), = m2
                if self.atom_sign(j) & NEG and self.atom_sign(j) & POS:
                    ab.append((i, j))
        if not ab or len(ab) > 3:
            return False
        for k in range(1 << len(ab)):
            sub = {}
            sg = {}
            for b, (i, j) in enumerate(ab):
                neg = k >> b & 1
                sub[i] = {((j, 1),): Fraction(-1 if neg else 1)}
                sg[j] = NEG if neg else POS
            sign = lambda x: self.atom_sign(x) & sg.get(x, ANY)  # noqa: E731
            try:
                r = P.rewrite(q, sub, sign)
            except (ZeroDivisionError, RecursionError):
                return False
            if r and not P.expand_zero(r, 4000):
                return False
        return True

    def implied(self, p, mask):
        """Does the path imply sign(p) in mask, by normal form alone?"""
        q = self.reduce(self.simp(p))
        if not self.signset(q) & ~mask:
            return True
        return bool(mask == ZERO and (P.expand_zero(q, 4000) or self._split_zero(q)))

    def dgoal(self, label, cond, detail=""):
        self.stats.goals += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.goals_proved += 1
            return True
        self.stats.queries += 1
        self.disc.push()
        self.disc.add(z3.Not(cond))
        t = time.time()
        r = self.disc.check()
        self.stats.solver_time += time.time() - t
        if r == z3.unsat:
            self.disc.pop()
            self.stats.unsat += 1
            self.stats.goals_proved += 1
            self.stats.goals_z3 += 1
            return True
        if r == z3.sat:
            self.stats.sat += 1
            dm = self.disc_model()
            self.disc.pop()
            self.cands.append((label, self.witness(), detail, dm))
            return False
        self.disc.pop()
        self.stats.unknown += 1
        self.stats.goals_inconclusive += 1
        self.incon.append(label)
        return None


def _roundhalf(x, n):
    return Fraction(round(Fraction(x) * 10 ** n))
