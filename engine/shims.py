"""Make the C boundaries the code crosses (math, numpy, scipy, float(), literal_eval) accept symbolic
values.  Every shim falls through to the original for ordinary numbers.  Installed before compas and
autograd are imported, in the symbolic process only: replays run without any of this.
"""
import ast
import builtins
import math
import re
import sys
import types

from . import core
from .core import SymReal, lift

_installed = [False]
_real_float = float


def _has(x):
    if isinstance(x, SymReal):
        return True
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has(y) for y in x)
    return False


def _prod(xs, r):
    for x in xs:
        r = r * x
    return r


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([a-zA-Z%])")


def mod(a, b):
    """a % b, also for the formatting of strings with symbolic values"""
    if not isinstance(a, str):
        return a % b
    vals = list(b) if isinstance(b, tuple) else [b]
    pool = list(b.values()) if isinstance(b, dict) else vals
    if not any(isinstance(x, (SymReal, core.Lazy)) or _has(x) for x in pool):
        return a % b
    vals = iter(vals)

    def one(m):
        name, flags, width, prec, conv = m.groups()
        if conv == "%":
            return "%"
        width = next(vals) if width == "*" else width
        prec = next(vals) if prec == "*" else prec
        v = b[name] if name else next(vals)
        if isinstance(v, SymReal) and conv in "fFeEgG":
            return format(v, ".%s%s" % (6 if prec is None else prec, conv))
        if conv in "sr":
            v = str(v) if conv == "s" else repr(v)
        return ("%" + flags + (str(width) if width is not None else "") + ("." + str(prec) if prec is not None else "") + conv) % (v,)
    return _PCT.sub(one, a)


class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and not isinstance(node.right, ast.Constant):
            return ast.copy_location(ast.Call(ast.Name("__symbolic_mod__", ast.Load()), [node.left, node.right], []), node)
        return node


def hook_source():
    """String formatting with % needs machine floats: in the modules of compas_cem it goes through mod()."""
    from importlib.machinery import SourceFileLoader, PathFinder
    builtins.__symbolic_mod__ = mod

    class Loader(SourceFileLoader):
        def get_code(self, name):
            return self.source_to_code(self.get_data(self.path), self.path)

        def source_to_code(self, data, path, *, _optimize=-1):
            tree = _Mod().visit(ast.parse(data, path))
            return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True, optimize=_optimize)

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "compas_cem" and not name.startswith("compas_cem."):
                return None
            spec = PathFinder.find_spec(name, path, target)
            if spec is not None and type(spec.loader) is SourceFileLoader:
                spec.loader = Loader(spec.loader.name, spec.loader.path)
            return spec
    sys.meta_path.insert(0, Finder)


def _hasdeep(x, d=0):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, (int, _real_float, str)) or x is None:
        return False
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return any(isinstance(y, SymReal) for y in x.flat)
    if d > 6:
        return False
    if isinstance(x, (list, tuple)) or (hasattr(x, "__getitem__") and hasattr(x, "__len__") and type(x).__module__.startswith("compas")):
        try:
            return any(_hasdeep(y, d + 1) for y in x)
        except Exception:
            return False
    return False


def _np1(x):
    r = lift(x)
    if r is None:
        return x
    return r if r.npf else SymReal(r.p, True, r.bad)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _real_float) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, (_real_float, SymReal))

    def __eq__(cls, o):
        return o is cls or o is _real_float

    def __hash__(cls):
        return hash(_real_float)

    def __getattr__(cls, n):
        return getattr(_real_float, n)


class symfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return SymReal(x.p, False, x.bad)
        if getattr(x, "dtype", None) == object and getattr(x, "shape", None) == ():
            return symfloat(x.item())
        if isinstance(x, str) and core.CTX[0] is not None and x in core.CTX[0].tokens:
            return core.CTX[0].tokens[x]
        return _real_float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


def install():
    if _installed[0]:
        return
    _installed[0] = True
    hook_source()

    def unary(name, f):
        orig = getattr(math, name)

        def g(x, *a):
            if isinstance(x, SymReal):
                return f(x, *a)
            if getattr(x, "dtype", None) == object and getattr(x, "shape", None) == ():
                return g(x.item(), *a)
            return orig(x, *a)
        g.__name__ = name
        setattr(math, name, g)

    def plain(x):
        return SymReal(x.p, False, x.bad)

    unary("sqrt", lambda x: plain(plain(x).sqrt()))
    unary("fabs", lambda x: plain(abs(x)))
    unary("isnan", lambda x: x.bad == "nan")
    unary("isinf", lambda x: x.bad in ("inf", "-inf"))
    unary("isfinite", lambda x: x.bad is None)

    def wrap(name, f):
        orig = getattr(math, name)

        def g(*a, **k):
            a = [x if isinstance(x, (list, tuple, SymReal)) or not hasattr(x, "__next__") else list(x) for x in a]
            if any(_hasdeep(x) for x in a):
                return f(*a, **k)
            return orig(*a, **k)
        g.__name__ = name
        setattr(math, name, g)

    def copysign(a, b):
        a, b = lift(a), lift(b)
        if b.bad or a.bad:
            return SymReal({}, False, "nan")
        c = core.ctx()
        if c.decide(b.p, core.POS | core.ZERO):
            return plain(abs(a))
        return -plain(abs(a))
    wrap("copysign", copysign)
    wrap("pow", lambda a, b: lift(a) ** b)
    wrap("hypot", lambda *a: plain(sum((lift(x) * lift(x) for x in a), lift(0)).sqrt()))
    wrap("dist", lambda p, q: plain(sum(((lift(x) - lift(y)) ** 2 for x, y in zip(p, q)), lift(0)).sqrt()))
    wrap("fsum", lambda xs: sum(xs, lift(0)))
    wrap("prod", lambda xs, start=1: _prod(xs, lift(start)))
    wrap("sumprod", lambda p, q: sum((lift(x) * lift(y) for x, y in zip(p, q)), lift(0)))
    wrap("isclose", lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(lift(a) - lift(b)) <= max(rel_tol * max(abs(lift(a)), abs(lift(b))), lift(abs_tol)))

    # numpy -----------------------------------------------------------------
    import numpy as np
    o_array, o_asarray = np.array, np.asarray

    def conv(r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            if r.shape == ():
                v = r.item()
                n = np.empty((), dtype=object)
                n[()] = _np1(v) if not isinstance(v, np.ndarray) else v
                return n
            out = np.empty(r.shape, dtype=object)
            for ix in np.ndindex(r.shape):
                out[ix] = _np1(r[ix])
            return out
        return r

    def array(obj, *a, **k):
        if _hasdeep(obj):
            k.pop("dtype", None)
            a = a[1:]
            if hasattr(obj, "__getitem__") and not isinstance(obj, (list, tuple, np.ndarray, SymReal)):
                obj = [list(x) if hasattr(x, "__len__") else x for x in obj]
            if isinstance(obj, SymReal):
                n = np.empty((), dtype=object)
                n[()] = _np1(obj)
                return n
            return conv(o_array(_listify(obj), dtype=object, **{q: v for q, v in k.items() if q in ("ndmin",)}))
        return o_array(obj, *a, **k)

    def _listify(x):
        if isinstance(x, np.ndarray):
            return x.item() if x.shape == () else x
        if isinstance(x, SymReal) or not hasattr(x, "__len__"):
            return x
        return [_listify(y) for y in x]

    def asarray(obj, *a, **k):
        if isinstance(obj, np.ndarray) and obj.dtype == object:
            return obj
        if _hasdeep(obj):
            return array(obj)
        return o_asarray(obj, *a, **k)
    np.array, np.asarray = array, asarray

    def filler(name, val):
        orig = getattr(np, name)

        def g(shape, *a, **k):
            r = orig(shape, *a, **k)
            if core.CTX[0] is not None and not core.CTX[0].native and r.dtype.kind == "f":
                v = val(r, a)
                out = np.empty(r.shape, dtype=object) if name != "empty" else orig(r.shape, dtype=object)
                s = lift(v)
                for ix in np.ndindex(r.shape):
                    out[ix] = SymReal(s.p, True, s.bad)
                return out
            return r
        g.__name__ = name
        return g
    z, o, f, e = filler("zeros", lambda r, a: 0.0), filler("ones", lambda r, a: 1.0), None, filler("empty", lambda r, a: 0.0)

    o_full = np.full

    def full(shape, val, *a, **k):
        if core.CTX[0] is not None and not core.CTX[0].native and isinstance(val, (SymReal, _real_float)):
            out = o_full(shape, None, dtype=object)
            for ix in np.ndindex(out.shape):
                out[ix] = _np1(val)
            return out
        return o_full(shape, val, *a, **k)

    o_like = {n: getattr(np, n) for n in ("zeros_like", "ones_like")}

    def like(n, v):
        def g(x, *a, **k):
            if core.CTX[0] is not None and _hasdeep(x):
                x = asarray(x)
                out = o_empty(x.shape, dtype=object)
                for ix in np.ndindex(out.shape):
                    out[ix] = SymReal(lift(v).p, True)
                return out
            return o_like[n](x, *a, **k)
        g.__name__ = n
        return g
    o_empty = np.empty
    np.zeros, np.ones, np.full, np.empty = z, o, full, e
    np.zeros_like, np.ones_like = like("zeros_like", 0.0), like("ones_like", 1.0)

    def elementwise(name, f1, out_bool=False):
        orig = getattr(np, name)

        def g(x, *a, **k):
            if isinstance(x, SymReal):
                return f1(x)
            if isinstance(x, np.ndarray) and x.dtype == object:
                if x.shape == ():
                    return f1(lift(x.item()))
                r = o_empty(x.shape, dtype=bool if out_bool else object)
                for ix in np.ndindex(x.shape):
                    r[ix] = f1(lift(x[ix]))
                return r
            return orig(x, *a, **k)
        g.__name__ = name
        setattr(np, name, g)
    elementwise("isnan", lambda x: x.bad == "nan", True)
    elementwise("isinf", lambda x: x.bad in ("inf", "-inf"), True)
    elementwise("isfinite", lambda x: x.bad is None, True)
    elementwise("fabs", abs)
    elementwise("sign", lambda x: SymReal(lift(-1 if core.ctx().decide(x.p, core.NEG) else 0 if core.ctx().decide(x.p, core.ZERO) else 1).p, True))
    elementwise("nan_to_num", lambda x: SymReal({}, True) if x.bad == "nan" else x)

    o_copysign = np.copysign

    def npcopysign(a, b, *r, **k):
        if _has(a) or _has(b):
            if isinstance(a, np.ndarray) and a.shape == ():
                a = a.item()
            if isinstance(b, np.ndarray) and b.shape == ():
                b = b.item()
            return _np1(copysign(a, b))
        return o_copysign(a, b, *r, **k)
    np.copysign = npcopysign

    o_norm = np.linalg.norm

    def norm(x, ord=None, axis=None, keepdims=False):
        if _hasdeep(x):
            x = array(x)
            if ord not in (None, 2, "fro"):
                raise core.Unsupported("norm order")
            sq = x * x
            if axis is None:
                t = lift(0)
                for v in sq.flat:
                    t = t + v
                return _np1(t).sqrt()
            s = np.sum(sq, axis=axis, keepdims=keepdims)
            if isinstance(s, SymReal):
                return _np1(s).sqrt()
            r = o_empty(s.shape, dtype=object)
            for ix in np.ndindex(s.shape):
                r[ix] = _np1(s[ix]).sqrt()
            return r
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(_real_float)
        return o_norm(x, ord, axis, keepdims)
    np.linalg.norm = norm

    o_allclose = np.allclose

    def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if _hasdeep(a) or _hasdeep(b):
            a, b = np.broadcast_arrays(array(a), array(b))
            return all(bool(abs(lift(x) - lift(y)) <= atol + rtol * abs(lift(y))) for x, y in zip(a.flat, b.flat))
        return o_allclose(a, b, rtol, atol, **k)
    np.allclose = allclose
    o_isclose = np.isclose

    def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
        if _has(a) or _has(b):
            if isinstance(a, np.ndarray) and a.shape == ():
                a = a.item()
            if isinstance(b, np.ndarray) and b.shape == ():
                b = b.item()
            if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
                return abs(lift(a) - lift(b)) <= atol + rtol * abs(lift(b))
        return o_isclose(a, b, rtol, atol, **k)
    np.isclose = isclose

    import scipy.spatial
    o_dm = scipy.spatial.distance_matrix

    def distance_matrix(x, y, p=2, threshold=1000000):
        if _hasdeep(x) or _hasdeep(y):
            out = o_empty((len(x), len(y)), dtype=object)
            for i, a in enumerate(x):
                for j, b in enumerate(y):
                    t = lift(0)
                    for u, v in zip(a, b):
                        d = lift(u) - lift(v)
                        t = t + d * d
                    out[i, j] = _np1(t).sqrt()
            return out
        return o_dm(x, y, p, threshold)
    scipy.spatial.distance_matrix = distance_matrix

    o_lit = ast.literal_eval

    def literal_eval(s):
        c = core.CTX[0]
        if c is not None and isinstance(s, str) and c.tokens:
            t = ast.parse(s.strip(), mode="eval")
            if any(isinstance(n, ast.Name) for n in ast.walk(t)):
                return _lit(t.body, c)
        return o_lit(s)

    def _lit(n, c):
        if isinstance(n, ast.Name):
            return c.tokens[n.id]
        if isinstance(n, ast.Tuple):
            return tuple(_lit(x, c) for x in n.elts)
        if isinstance(n, ast.List):
            return [_lit(x, c) for x in n.elts]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -_lit(n.operand, c)
        if isinstance(n, ast.Dict):
            return {_lit(k, c): _lit(v, c) for k, v in zip(n.keys, n.values)}
        return o_lit(n)
    ast.literal_eval = literal_eval


def install_autograd():
    """Teach autograd that a symbolic real is a differentiable scalar."""
    import numpy as np
    from autograd.extend import Box, VSpace, register_notrace  # noqa: F401
    from autograd.numpy.numpy_boxes import ArrayBox
    from autograd.numpy.numpy_vspaces import ArrayVSpace

    class SymVSpace(ArrayVSpace):
        def __init__(self, value):
            self.shape, self.dtype = (), np.dtype(object)

        def zeros(self):
            return SymReal({}, True)

        def ones(self):
            return SymReal(lift(1).p, True)

        def _inner_prod(self, x, y):
            return x * y

    real_rt = np.result_type

    def result_type(*a):
        if any(isinstance(x, SymReal) for x in a):
            return np.dtype(object)
        return real_rt(*a)
    np.result_type = result_type
    ArrayBox.register(SymReal)
    VSpace.register(SymReal, lambda x: SymVSpace(x))


def inject():
    """float() in the modules of compas and compas_cem must keep symbolic values symbolic."""
    for name, mod in list(sys.modules.items()):
        if (name == "compas" or name.startswith(("compas.", "compas_cem", "compas_plotters"))) and isinstance(mod, types.ModuleType):
            d = mod.__dict__
            if "float" not in d:
                d["float"] = symfloat


assert builtins.float is _real_float
