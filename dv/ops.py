"""Operators usable in contracts, with two meanings: symbolic (z3) and concrete (numpy)."""
from fractions import Fraction
import z3
from . import terms as T
from .terms import And, Or, Not, Implies, Iff, FV, Poly, OV, is_sym

try:
    import numpy as np
    NP = {'f16': np.float16, 'f32': np.float32, 'f64': np.float64, 'f80': np.longdouble}
    np.seterr(all='ignore')
except ImportError:      # pragma: no cover
    np = None
    NP = {}

_lib = None


def libm():
    global _lib
    if _lib is None:
        import ctypes
        _lib = ctypes.CDLL("libm.so.6")
    return _lib


def _erfcx(x):
    """scaled complementary error function of a long double x >= 0"""
    x = np.longdouble(x)
    ispi = 1 / np.sqrt(np.longdouble('3.14159265358979323846264338327950288'))
    if not x < 2:
        t = x
        for k in range(160, 0, -1):
            t = x + np.longdouble(k) / 2 / t
        return ispi / t
    s = t = x
    for n in range(1, 80):
        t = t * 2 * x * x / (2 * n + 1)
        s = s + t
    return np.exp(x * x) - 2 * ispi * s


def _debye1(x):
    """(1/x) * integral of t/(exp(t)-1) from 0 to x, for a long double x > 0"""
    x = np.longdouble(x)
    if x > 1:
        s = np.longdouble('3.14159265358979323846264338327950288') ** 2 / 6 / x
        for k in range(1, 60):
            s = s - np.exp(-k * x) * (1 / np.longdouble(k) + 1 / (x * k * k))
        return s
    B, s, f = [Fraction(1)], 1 - x / 4, 1
    for n in range(1, 31):
        B.append(-sum(Fraction(_comb(n + 1, k)) * B[k] for k in range(n)) / (n + 1))
        f *= n
        if n % 2 == 0:
            q = B[n] / ((n + 1) * f)
            s = s + np.longdouble(q.numerator) / np.longdouble(q.denominator) * x ** n
    return s


def _comb(n, k):
    import math as m
    return m.comb(n, k)


def _cplx(name, ty, args):
    import ctypes
    ct = ctypes.c_float if ty == 'f32' else ctypes.c_double
    C2 = type('C2', (ctypes.Structure,), {'_fields_': [('re', ct), ('im', ct)]})
    a = [float(v) for v in args]
    if name.startswith(('cmul', 'cdiv')):
        f = getattr(ctypes.CDLL('libgcc_s.so.1'), f"__{name[1:4]}{'s' if ty == 'f32' else 'd'}c3")
        f.argtypes = [ct] * 4
    else:
        f = getattr(libm(), name[:-3] + ('f' if ty == 'f32' else ''))
        f.argtypes = [C2] if ty == 'f32' else [ct, ct]
        a = [C2(*a)] if ty == 'f32' else a
    f.restype = C2
    r = f(*a)
    return NP[ty](r.re if name.endswith('_re') else r.im)


def cmath(name, ty, *args):
    """call the C library's function of the right precision"""
    import ctypes
    if name.endswith(('_re', '_im')):
        return _cplx(name, ty, args)
    if name == 'erfcx_y100':
        y = np.longdouble(args[0])
        return NP[ty](_erfcx(400 / y - 4) if 0 < y <= 100 else 1 if y > 100 else np.nan)
    if name == 'debye1':
        return NP[ty](_debye1(args[0]) if args[0] > 0 else np.nan)
    if name == 'erfc' and ty == 'f80':
        x = np.longdouble(args[0])
        return x if np.isnan(x) else np.exp(-x * x) * _erfcx(x) if x >= 0 else 2 - np.exp(-x * x) * _erfcx(-x)
    if name == 'sqrt':
        return np.sqrt(NP[ty](args[0]))
    if ty == 'f80':
        f = getattr(libm(), name + 'l')
        f.restype = ctypes.c_longdouble
        f.argtypes = [ctypes.c_longdouble] * len(args)
        # ctypes converts long double through double: use numpy where it has the function
        nf = {'exp': np.exp, 'log': np.log, 'log1p': np.log1p, 'expm1': np.expm1, 'pow': np.power, 'sin': np.sin, 'asin': np.arcsin,
              'nextafter': np.nextafter, 'copysign': np.copysign, 'fabs': np.abs, 'floor': np.floor, 'hypot': np.hypot,
              'trunc': np.trunc}.get(name)
        if nf is not None:
            return nf(*[np.longdouble(a) for a in args])
        return np.longdouble(f(*[float(a) for a in args]))
    f = getattr(libm(), name + ('f' if ty == 'f32' else ''))
    ct = ctypes.c_float if ty == 'f32' else ctypes.c_double
    f.restype = ct
    f.argtypes = [ct] * len(args)
    return NP[ty](f(*[float(a) for a in args]))


def fty(x):
    if isinstance(x, FV):
        return x.ty
    return {4: 'f32', 8: 'f64', 16: 'f80', 2: 'f16'}[np.dtype(type(x)).itemsize]


def isf(x):
    return isinstance(x, FV) or (np is not None and isinstance(x, np.floating))


def ite(c, a, b):
    if is_sym(c) or isinstance(a, FV) or isinstance(b, FV):
        return T.ite(c, a, b)
    return a if bool(c) else b


def ites(c, a, b):
    """tuple version"""
    return tuple(ite(c, x, y) for x, y in zip(a, b))


def eq(a, b):
    if isinstance(a, FV) or isinstance(b, FV):
        like = a if isinstance(a, FV) else b
        return T.fcmp('oeq', T.fcoerce(like, a), T.fcoerce(like, b))
    if isinstance(a, Poly) or isinstance(b, Poly):
        return T.P(a).eq(T.P(b))
    if isinstance(a, OV):
        return a.t == b.t
    if is_sym(a) or is_sym(b):
        return T.Iff(a, b)
    return bool(a == b)


def ne(a, b):
    return Not(eq(a, b))


def isnan(a):
    if isinstance(a, FV):
        return a.nan()
    if isf(a):
        return bool(a != a)
    return False


def isinf(a):
    if isinstance(a, FV):
        return z3.And(z3.Not(a.nan()), z3.Or(a.rk() == T.INF, a.rk() == -T.INF))
    return bool(np.isinf(a))


def isfinite(a):
    if isinstance(a, FV):
        return T.finite(a)
    return bool(np.isfinite(a))


def fabs(a):
    if isinstance(a, FV):
        return T.fabs(a)
    return abs(a)


def const(ty, v):
    """value of the float type ty nearest to v (Fraction, int, float, 'nan', 'inf', '-inf')"""
    if T.C is not None:
        if isinstance(v, str):
            return T.fconst(ty, v)
        return T.fcoerce(T.FVlike(ty), v)
    if isinstance(v, Fraction):
        return NP[ty](v.numerator) / NP[ty](v.denominator)
    if isinstance(v, str):
        return NP[ty](v)
    return NP[ty](v)


def tofloat(ty, k):
    if isinstance(k, Poly) or (T.C is not None and isinstance(k, int)):
        return T.itof(k, ty)
    if ty == 'f80':
        return np.longdouble(int(k))
    return NP[ty](int(k))


def cast(ty, x):
    """float to float conversion"""
    if isinstance(x, FV):
        if x.ty == ty:
            return x
        if T.MANT[x.ty] < T.MANT[ty]:
            return T.fpext(x, ty)
        return T.fptrunc(x, ty)
    return NP[ty](x)


def toint(x):
    """truncation toward zero"""
    if isinstance(x, FV):
        return T.ftoi(x)
    return int(x)


def math(name, x, *more):
    if isinstance(x, FV):
        return T.math(name, x.ty, x, *more)
    return cmath(name, fty(x), x, *more)


def sqrt(x):
    return math('sqrt', x)


def exp(x):
    return math('exp', x)


def log(x):
    return math('log', x)


def cdiv(a, b):
    """C integer division (toward zero), b != 0"""
    if isinstance(a, Poly) or isinstance(b, Poly):
        from .sx import tdivmod
        return tdivmod(T.P(a), T.P(b))[0]
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    if isinstance(a, Poly) or isinstance(b, Poly):
        from .sx import tdivmod
        return tdivmod(T.P(a), T.P(b))[1]
    return a - b * cdiv(a, b)


def fmax(a, b):
    return ite(a < b, b, a)


def all_(xs):
    return And(*xs)


def same(a, b):
    """the same value, as a term (used in invariants only)"""
    if not isinstance(a, (Poly, FV)) and not isinstance(b, (Poly, FV)):
        return bool(a == b) or bool(a != a and b != b)
    return T.same_strict(a, b)
