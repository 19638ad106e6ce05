"""Laurent polynomials over interned atoms: the symbolic real numbers of the engine.

A polynomial is an immutable dict {monomial: Fraction}, a monomial a sorted tuple of
(atom id, exponent).  Atoms are input variables, names of polynomials (let-bindings that
keep products small), square roots, and uninterpreted applications.  Atoms are interned
per process; path facts (signs) live in the path context, never here.
"""
from fractions import Fraction
from math import gcd, isqrt

F0 = Fraction(0)
F1 = Fraction(1)


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "lo", "hi", "extra")

    def __init__(self, id, kind, name, arg=None, lo=None, hi=None, extra=None):
        self.id, self.kind, self.name, self.arg = id, kind, name, arg
        self.lo, self.hi, self.extra = lo, hi, extra

    def __repr__(self):
        return self.name


ATOMS = []
_VARS = {}
_NAMES = {}
_SQRTS = {}
_UFS = {}
NAMING = [True]
MAXTERMS = 20000


class TooBig(Exception):
    pass


def reset():
    ATOMS.clear()
    _VARS.clear()
    _NAMES.clear()
    _SQRTS.clear()
    _UFS.clear()


def var(name, lo=None, hi=None):
    a = _VARS.get(name)
    if a is None:
        a = Atom(len(ATOMS), "var", name, None, lo, hi)
        ATOMS.append(a)
        _VARS[name] = a
    return a


def uf(name, args):
    key = (name, tuple(tuple(sorted(p.items())) for p in args))
    a = _UFS.get(key)
    if a is None:
        if name.startswith("round"):
            _ROUNDS[0] = True
        a = Atom(len(ATOMS), "uf", "%s#%d" % (name, len(ATOMS)), tuple(args), extra=name)
        ATOMS.append(a)
        _UFS[key] = a
    return a


def const(c):
    c = tofrac(c)
    return {(): c} if c else {}


def tofrac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, int):
        return Fraction(c)
    return Fraction(repr(float(c)))


def atom_poly(a):
    return {((a.id, 1),): F1}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def const_value(p):
    return p.get((), F0)


def add(a, b, k=F1):
    if not b or not k:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c * k
        else:
            v = v + c * k
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        s = d.get(i, 0) + e
        if s:
            d[i] = s
        else:
            d.pop(i, None)
    # |v| atoms: keep the exponent in {0, 1} (|v|^2 = v^2)
    fix = [i for i, e in d.items() if not (0 <= e <= 1) and ATOMS[i].kind == "sqrt" and ATOMS[i].extra == "abs"]
    for i in fix:
        e = d.pop(i)
        h, r = divmod(e, 2)
        if r:
            d[i] = 1
        (m2, c2), = ATOMS[i].arg.items()
        for j, f in m2:
            s = d.get(j, 0) + f * h
            if s:
                d[j] = s
            else:
                d.pop(j, None)
    return tuple(sorted(d.items()))


def _renorm(m):
    """Sorted monomial with the exponents of |v| atoms normalised."""
    r = ()
    for i, e in m:
        r = mmul(r, _one(i, e)) if r else _one(i, e)
    return r


def _one(i, e):
    if ATOMS[i].extra != "abs" or 0 <= e <= 1:
        return ((i, e),)
    h, r = divmod(e, 2)
    (m2, c2), = ATOMS[i].arg.items()
    out = tuple(sorted((j, f * h) for j, f in m2 if f * h))
    return mmul(out, ((i, 1),)) if r else out


def mul1(p, m, c):
    """p times the single term c*m"""
    r = {}
    for n, d in p.items():
        q = mmul(n, m)
        v = r.get(q, F0) + d * c
        if v:
            r[q] = v
        else:
            r.pop(q, None)
    return r


def mul_expand(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = mmul(m, n)
            v = r.get(q, F0) + c * d
            if v:
                r[q] = v
            else:
                r.pop(q, None)
        if len(r) > MAXTERMS:
            raise TooBig()
    return r


def canon(p):
    """p = c * m * prim, prim a tuple of sorted items with leading coefficient 1-content."""
    ms = list(p)
    if len(ms) == 1:
        return p[ms[0]], ms[0], (((), F1),)
    # monomial content: minimal exponents
    mins = dict(ms[0])
    seen = set(mins)
    for m in ms[1:]:
        d = dict(m)
        for i in list(mins):
            e = d.get(i, 0)
            if e < mins[i]:
                mins[i] = e
        for i, e in d.items():
            if i not in mins and e < 0:
                mins[i] = e
    # atoms absent from earlier terms but negative later handled with min(0,e)
    for i in list(mins):
        lo = min(dict(m).get(i, 0) for m in ms)
        mins[i] = lo
    cont = tuple(sorted((i, e) for i, e in mins.items() if e and ATOMS[i].extra != "abs"))
    inv = tuple((i, -e) for i, e in cont)
    q = {}
    for m, c in p.items():
        q[mmul(m, inv)] = c
    num = 0
    den = 1
    for c in q.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    g = Fraction(num, den)
    items = sorted(q.items())
    if items[-1][1] < 0:
        g = -g
    prim = tuple((m, c / g) for m, c in items)
    return g, cont, prim


def name_poly(p):
    """A single-term polynomial equal to p (p is let-bound when it has several terms)."""
    if len(p) <= 1:
        return p
    c, m, prim = canon(p)
    a = name_atom(prim)
    return {mmul(m, ((a.id, 1),)): c}


def name_atom(prim):
    a = _NAMES.get(prim)
    if a is None:
        a = Atom(len(ATOMS), "name", "n%d" % len(ATOMS), dict(prim))
        ATOMS.append(a)
        _NAMES[prim] = a
    return a


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if m and len(b) > 1 and any(e < 0 for _, e in m):
            b = try_cancel(b, m)
        return mul1(b, m, c)
    if len(b) == 1:
        return mul(b, a)
    if NAMING[0]:
        a, b = name_poly(a), name_poly(b)
        (m, c), = a.items()
        return mul1(b, m, c)
    return mul_expand(a, b)


def try_cancel(p, m):
    """If m divides by a name or by the square of a root whose definition is p's primitive part, name p."""
    for i, e in m:
        if e >= 0:
            continue
        at = ATOMS[i]
        if at.kind == "name":
            c, mm, prim = canon(p)
            if _NAMES.get(prim) is at:
                return {mmul(mm, ((i, 1),)): c}
        elif at.kind == "sqrt" and e <= -2 and at.extra != "abs":
            c, mm, prim = canon(p)
            c2, mm2, prim2 = canon(at.arg)
            if prim == prim2:
                mi = tuple((j, -f) for j, f in mm2)
                return {mmul(mmul(mm, mi), ((i, 2),)): c / c2}
    return p


def _sqfree(n):
    """n = s*s*r, trial division by small primes"""
    s = 1
    r = isqrt(n)
    if r * r == n:
        return r, 1
    d = 2
    while d * d <= n and d < 400:
        while n % (d * d) == 0:
            n //= d * d
            s *= d
        d += 1
    r = isqrt(n)
    if r * r == n:
        return s * r, 1
    return s, n


def sqrt_poly(p, sign_of):
    """sqrt(p); sign_of(atom id) -> known sign set of the atom."""
    if not p:
        return {}
    c, m, prim = canon(p)
    if c < 0:
        # keep the sign inside
        inner_c = c
        outer_c = F1
    else:
        # c = (n/d) -> n*d / d^2
        s, r = _sqfree(c.numerator * c.denominator)
        outer_c = Fraction(s, c.denominator)
        inner_c = Fraction(r)
    outer = []
    inner = []
    for i, e in m:
        h, r = divmod(e, 2)
        if h:
            outer.append((i, h))
        if r:
            inner.append((i, 1))
    om = ()
    for i, h in outer:
        if h % 2 == 0:
            om = mmul(om, ((i, h),))
        else:
            s = sign_of(i)
            if not (s & 1):           # never negative
                om = mmul(om, ((i, h),))
            elif not (s & 4):         # never positive
                om = mmul(om, ((i, h),))
                outer_c = -outer_c
            else:
                ab = abs_atom(i)
                om = mmul(om, ((ab.id, 1),))
                om = mmul(om, ((i, h - 1),)) if h != 1 else om
    q = {mmul(tuple(inner), mm): cc * inner_c for mm, cc in dict(prim).items()}
    if is_const(q):
        v = const_value(q)
        if v == 1:
            return {om: outer_c}
    key = tuple(sorted(q.items()))
    a = _SQRTS.get(key)
    if a is None:
        # an even power of one name atom only: (n^2 arises from name*name) -> abs handled above
        a = Atom(len(ATOMS), "sqrt", "s%d" % len(ATOMS), q)
        ATOMS.append(a)
        _SQRTS[key] = a
    return {mmul(om, ((a.id, 1),)): outer_c}


def abs_atom(i):
    q = {((i, 2),): F1}
    key = tuple(sorted(q.items()))
    a = _SQRTS.get(key)
    if a is None:
        a = Atom(len(ATOMS), "sqrt", "abs_%s" % ATOMS[i].name, q, extra="abs")
        ATOMS.append(a)
        _SQRTS[key] = a
    return a


def atoms_of(p, deep=True, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for i, _ in m:
            if i in acc:
                continue
            acc.add(i)
            at = ATOMS[i]
            if deep and at.kind in ("name", "sqrt"):
                atoms_of(at.arg, True, acc)
            elif deep and at.kind == "uf":
                for q in at.arg:
                    atoms_of(q, True, acc)
    return acc


_ROUNDS = [False]    # whether any rounded value exists yet


def has_round(p):
    """Does p depend on a rounded value directly?  Its zero set then has an interior."""
    return _ROUNDS[0] and any(ATOMS[i].kind == "uf" and ATOMS[i].extra.startswith("round") for m in p for i, _ in m)


# ---------------------------------------------------------------- evaluation

class NumFail(Exception):
    pass


def eval_atom(i, env, cache):
    v = cache.get(i)
    if v is not None:
        return v
    a = ATOMS[i]
    if a.kind == "var":
        if a.name not in env:
            raise NumFail("no value for " + a.name)
        v = env[a.name]
    elif a.kind == "name":
        v = eval_poly(a.arg, env, cache)
    elif a.kind == "sqrt":
        x = eval_poly(a.arg, env, cache)
        if x < 0:
            if x > -1e-9:
                x = 0.0
            else:
                raise NumFail("sqrt of negative")
        if isinstance(x, Fraction):
            r, q = isqrt(x.numerator), isqrt(x.denominator)
            if r * r == x.numerator and q * q == x.denominator:
                v = Fraction(r, q)
            else:
                v = float(x) ** 0.5
        else:
            v = x ** 0.5
    else:
        f = env.get("__uf__", {}).get(a.extra)
        if f is None:
            raise NumFail("uninterpreted " + a.name)
        v = f(*[eval_poly(q, env, cache) for q in a.arg])
    cache[i] = v
    return v


def eval_poly(p, env, cache):
    t = 0
    for m, c in p.items():
        x = c
        for i, e in m:
            v = eval_atom(i, env, cache)
            if e < 0 and v == 0:
                raise NumFail("division by zero")
            if isinstance(x, Fraction) and not isinstance(v, Fraction) and not isinstance(v, int):
                x = float(x)
            if isinstance(v, Fraction) and isinstance(x, float):
                v = float(v)
            try:
                x = x * v ** e
            except OverflowError:
                raise NumFail("overflow")
        if isinstance(t, float) and isinstance(x, Fraction):
            x = float(x)
        elif isinstance(x, float) and isinstance(t, Fraction):
            t = float(t)
        t = t + x
    return t


# ---------------------------------------------------------------- rewriting

def rewrite(p, sub, sign_of, cache=None):
    """Substitute atoms (id -> poly), rebuilding names and roots that depend on them."""
    cache = {} if cache is None else cache
    r = {}
    for m, c in p.items():
        t = {(): c}
        for i, e in m:
            q = rewrite_atom(i, sub, sign_of, cache)
            if q is None:
                t = mul1(t, _one(i, e), F1)
            else:
                t = mul(t, power(q, e))
            if not t:
                break
        r = add(r, t)
    return r


def rewrite_atom(i, sub, sign_of, cache):
    if i in sub:
        return sub[i]
    if i in cache:
        return cache[i]
    a = ATOMS[i]
    out = None
    if a.kind in ("name", "sqrt"):
        if atoms_of(a.arg) & sub.keys():
            q = rewrite(a.arg, sub, sign_of, cache)
            if a.kind == "sqrt":
                q = sqrt_poly(q, sign_of)
            out = q
    cache[i] = out
    return out


def power(q, e):
    if e == 0:
        return {(): F1}
    if not q:
        if e < 0:
            raise ZeroDivisionError
        return {}
    if e < 0:
        q = name_poly(q)
        (m, c), = q.items()
        return {_renorm(tuple((i, x * e) for i, x in m)): c ** e}
    r = q
    for _ in range(e - 1):
        r = mul(r, q)
    return r


def expand_zero(p, limit=20000, sub=None, sign_of=None):
    """Is p identically zero modulo the definitions of its names and roots?  True, or None (not decided)."""
    global MAXTERMS
    old, oldm = NAMING[0], MAXTERMS
    NAMING[0] = False
    MAXTERMS = limit
    try:
        q = full_expand(p, limit)
        return True if not q else None
    except TooBig:
        return None
    finally:
        NAMING[0] = old
        MAXTERMS = oldm


def _clear(p):
    neg = {}
    for m in p:
        for i, e in m:
            if e < 0 and -e > neg.get(i, 0):
                neg[i] = -e
    if not neg:
        return p
    mm = tuple(sorted(neg.items()))
    out = {}
    for m, c in p.items():
        d = dict(m)
        for i, e in mm:
            d[i] = d.get(i, 0) + e
        out[tuple(sorted((i, e) for i, e in d.items() if e))] = c
    return out


def _raw_mul(a, b, limit):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            dd = dict(m)
            for i, e in n:
                s = dd.get(i, 0) + e
                if s:
                    dd[i] = s
                else:
                    dd.pop(i, None)
            q = tuple(sorted(dd.items()))
            v = r.get(q, F0) + c * d
            if v:
                r[q] = v
            else:
                r.pop(q, None)
        if len(r) > limit:
            raise TooBig()
    return r


def full_expand(p, limit):
    """Clear denominators, replace names by definitions and even powers of roots by their arguments,
    innermost last (atoms of highest id first, so definitions only mention lower ids)."""
    p = _clear(p)
    done = set()
    guard = 0
    while True:
        guard += 1
        cand = set()
        for m in p:
            for i, e in m:
                at = ATOMS[i]
                if at.kind == "name" or (at.kind == "sqrt" and abs(e) >= 2):
                    cand.add(i)
        if not cand:
            return p
        i = max(cand)
        at = ATOMS[i]
        # group by power of i
        groups = {}
        for m, c in p.items():
            e = 0
            rest = []
            for j, f in m:
                if j == i:
                    e = f
                else:
                    rest.append((j, f))
            groups.setdefault(e, {})[tuple(rest)] = c
        out = {}
        pw = {0: {(): F1}}

        def pwr(k):
            if k not in pw:
                pw[k] = _raw_mul(pwr(k - 1), at.arg, limit)
            return pw[k]
        for e, g in groups.items():
            if at.kind == "name":
                t = _raw_mul(g, pwr(e), limit)
            else:
                h, r = divmod(e, 2)
                t = _raw_mul(g, pwr(h), limit)
                if r:
                    t = _raw_mul(t, {((i, 1),): F1}, limit)
            out = add(out, t)
            if len(out) > limit:
                raise TooBig()
        p = _clear(out)
        if guard > 400:
            raise TooBig()


def diff(p, vid, cache=None):
    """Derivative of p with respect to the variable atom vid (through names and roots)."""
    cache = {} if cache is None else cache
    r = {}
    for m, c in p.items():
        for k, (i, e) in enumerate(m):
            da = diff_atom(i, vid, cache)
            if not da:
                continue
            rest = m[:k] + (((i, e - 1),) if e != 1 else ()) + m[k + 1:]
            r = add(r, mul({_renorm(rest): c * e}, da))
    return r


def diff_atom(i, vid, cache):
    if i in cache:
        return cache[i]
    a = ATOMS[i]
    if i == vid:
        d = {(): F1}
    elif a.kind == "var":
        d = {}
    elif a.kind == "name":
        d = diff(a.arg, vid, cache)
    elif a.kind == "sqrt":
        da = diff(a.arg, vid, cache)
        if not da:
            d = {}
        elif a.extra == "abs":
            (m2, _), = a.arg.items()
            (j, _), = m2
            d = mul(diff_atom(j, vid, cache), {mmul(((a.id, 1),), ((j, -1),)): F1})
        else:
            d = mul(da, {((i, -1),): Fraction(1, 2)})
    else:
        d = {}
    cache[i] = d
    return d


def show(p, maxlen=200):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        out.append("%s%s" % (c if not m or c != 1 else "", "*".join(ATOMS[i].name + ("^%d" % e if e != 1 else "") for i, e in m)))
    s = " + ".join(out)
    return s if len(s) < maxlen else s[:maxlen] + "..."
