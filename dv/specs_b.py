"""Contracts: elementwise functions."""
from .ops import *
from .registry import spec


def wide(ty):
    """type of an expression mixing a value of type ty with a double"""
    return 'f64' if ty == 'f32' else ty


class K:
    """constants and conversions at the element type and at the type it is widened to"""

    def __init__(self, S, k=0):
        self.t = S.ty(k)
        self.W = wide(self.t)

    def c(self, v):
        return const(self.t, v)

    def w(self, x):
        return cast(self.W, x) if isf(x) else const(self.W, x)

    def n(self, x):
        return cast(self.t, x)


def args(S, n):
    return [S.x(i)() for i in range(n)]


def out(S, fn, when=None, tol=None):
    S.out(0, lambda: fn(*args(S, S.u['nin'])), (lambda: when(*args(S, S.u['nin']))) if when else None, tol)


@spec('step')
def step(S):
    out(S, lambda x, a, lo, fa, hi: ite(x < a, lo, ite(a < x, hi, fa)))


def between(S, poly):
    k = K(S)
    nan = k.c('nan')

    def f(x, a, b, fa, fb):
        u = (x - a) / (b - a)
        return ite(b < a, nan, ite(x <= a, fa, ite(b <= x, fb, poly(k, u, fa, fb))))
    # a == b == x is left open by the documentation; a == b with x NaN likewise
    out(S, f, when=lambda x, a, b, fa, fb: Or(b < a, a < b, isnan(a), isnan(b), x < a, a < x))


@spec('linearstep')
def linearstep(S):
    between(S, lambda k, u, fa, fb: fa * (k.c(1) - u) + fb * u)


@spec('smoothstep3')
def smoothstep3(S):
    between(S, lambda k, u, fa, fb: fa + (fb - fa) * u * u * (k.c(3) - k.c(2) * u))


@spec('smoothstep5')
def smoothstep5(S):
    between(S, lambda k, u, fa, fb: fa + (fb - fa) * u * u * u * (u * (k.c(6) * u - k.c(15)) + k.c(10)))


@spec('invsmoothstep3')
def invsmoothstep3(S):
    k = K(S)
    nan = k.c('nan')

    def f(y, a, b, fa, fb):
        up, lo = ite(fa < fb, fb, fa), ite(fa < fb, fa, fb)
        t = (y - fa) / (fb - fa)
        s = k.n(k.w(Fraction(1, 2)) - k.w(math('sin', math('asin', k.c(1) - k.c(2) * t) / k.c(3))))
        return ite(eq(fa, fb), nan, ite(eq(y, fa), a, ite(eq(y, fb), b, ite(Or(up < y, y < lo), nan, a + (b - a) * s))))
    out(S, f)


@spec('deadzone')
def deadzone(S):
    k = K(S)
    out(S, lambda x, lo, hi: ite(x < lo, x - lo, ite(hi < x, x - hi, k.c(0))), when=lambda x, lo, hi: Not(isnan(x)))


@spec('trapezoid_pulse')
def trapezoid_pulse(S):
    k = K(S)

    def f(x, a, b, c, d, amp):
        return ite(Not(And(a <= b, b <= c, c <= d)), k.c('nan'),
                   ite(Or(x <= a, d <= x), k.c(0), ite(And(b <= x, x <= c), amp,
                       ite(x < b, amp * ((x - a) / (b - a)), amp * ((d - x) / (d - c))))))
    out(S, f)
    for i in range(1, 5):
        S.gen(i, values=[i, i, i + 1, i + .5])
    S.gen(0, values=[0, 1, 1.25, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 6, 'nan'])


@spec('hyperbolic_ramp')
def hyperbolic_ramp(S):
    k = K(S)
    one = k.w(1)

    def std(x):
        z = x / k.c(2)
        zz = k.w(z * z)
        r = sqrt(one + one / zz)
        s = sqrt(z * z + k.c(1))
        return ite(eq(x, 0), k.c(1),
                   ite(k.c(1) <= z, k.n(k.w(z) * (one + r)),
                       ite(k.c(0) < z, z + s, ite(k.c(-1) < z, k.n(one / k.w(s - z)), k.n(-one / k.w(z) / (r + one))))))
    out(S, lambda x, a: ite(eq(a, 0), ite(x < 0, k.c(0), x), ite(a < 0, k.c('nan'), a * std(x / a))))


@spec('exponential_ramp')
def exponential_ramp(S):
    k = K(S)
    ln2 = const('f80', LN2)
    L = lambda v: cast('f80', v)
    two = const('f80', 2)

    def std(x):
        p = L(x) + math('log1p', math('pow', two, L(-x))) / ln2
        q = math('log1p', math('pow', two, L(x))) / ln2
        return ite(eq(x, 0), k.c(1), ite(k.c(0) < x, k.n(p), k.n(q)))
    out(S, lambda x, a: ite(eq(a, 0), ite(x < 0, k.c(0), x), ite(a < 0, k.c('nan'), a * std(x / a))))


LN2 = Fraction(6931471805599453094172321214581765681, 10**37)


@spec('semivar.exponential')
def sv_exponential(S):
    k = K(S)
    out(S, lambda h, nug, sill, rng: nug + (sill - nug) * (k.c(1) - math('exp', k.c(-3) * h / rng)))


@spec('semivar.linear')
def sv_linear(S):
    out(S, lambda h, nug, sill, rng: ite(rng < h, sill, nug + (sill - nug) / rng * h))


@spec('semivar.spherical')
def sv_spherical(S):
    k = K(S)

    def f(h, nug, sill, rng):
        r = h / rng
        return ite(rng < h, sill, k.n(k.w(nug) + k.w(sill - nug) * (k.w(r) / k.w(2)) * (k.w(3) - k.w(r * r))))
    out(S, f)


@spec('semivar.parabolic')
def sv_parabolic(S):
    k = K(S)

    def f(h, nug, sill, rng):
        r = h / rng
        return ite(rng < h, sill, k.n(k.w(nug) + k.w((sill - nug) * r) * (k.w(2) - k.w(r))))
    out(S, f)


@spec('nan_to_num')
def nan_to_num(S):
    out(S, lambda x, r: ite(isnan(x), r, x), tol=0)


@spec('next_greater', 'next_less')
def nxt(S):
    inf = const(S.ty(0), 'inf' if S.u['attr'] == 'next_greater' else '-inf')
    out(S, lambda x: math('nextafter', x, inf), tol=0)


@spec('nextn_greater', 'nextn_less')
def nextn(S):
    inf = const(S.ty(0), 'inf' if S.u['attr'] == 'nextn_greater' else '-inf')
    f = S.fold('nx', lambda: S.x(0)(), lambda j, v: math('nextafter', v, inf))
    S.out(0, lambda i: f(i + 1), tol=0)


@spec('abs_squared', 'abssq')
def abs_squared(S):
    if S.info(0).cplx:
        out(S, lambda z: z[0] * z[0] + z[1] * z[1])
    else:
        out(S, lambda x: x * x)


@spec('hypot3')
def hypot3(S):
    k = K(S)

    def f(x, y, z):
        return hyp3(S, k, x, y, z)
    S.out(0, lambda: ite(Or(*[isinf(S.x(i)()) for i in range(3)]), k.c('inf'), f(*args(S, 3))))


def hyp3(S, k, x, y, z):
    """std::hypot(x, y, z): scaled by the largest magnitude (libstdc++)"""
    x, y, z = fabs(x), fabs(y), fabs(z)
    a = ite(x < y, ite(y < z, z, y), ite(x < z, z, x))
    r = a * sqrt((x / a) * (x / a) + (y / a) * (y / a) + (z / a) * (z / a))
    if not S.symbolic:
        return r if a != 0 else k.c(0)
    return ite(eq(a, 0), k.c(0), r)


@spec('logistic')
def logistic(S):
    k = K(S)
    out(S, lambda x: lgst(k, x))


def lgst(k, x):
    return k.c(1) / (k.c(1) + math('exp', -x))


@spec('logistic_deriv')
def logistic_deriv(S):
    k = K(S)
    out(S, lambda x: lgst(k, x) * lgst(k, -x))


@spec('log_logistic')
def log_logistic(S):
    k = K(S)
    out(S, lambda x: ite(x < 0, x - math('log1p', math('exp', x)), -math('log1p', math('exp', -x))))


@spec('swish')
def swish(S):
    k = K(S)
    out(S, lambda x, b: x * lgst(k, b * x))


@spec('pow1pm1')
def pow1pm1(S):
    k = K(S)
    out(S, lambda x, y: ite(And(eq(x, -1), eq(y, 0)), k.c(0), math('expm1', y * math('log1p', x))))


@spec('yeo_johnson')
def yeo_johnson(S):
    k = K(S)
    l1 = lambda v: math('log1p', v)

    def f(x, m):
        q = k.c(2) - m
        return ite(k.c(0) <= x, ite(eq(m, 0), l1(x), math('expm1', m * l1(x)) / m),
                   ite(eq(m, 2), -l1(-x), -math('expm1', q * l1(-x)) / q))
    out(S, f)
    S.gen(1, values=[0, 2, 1, .5, -1, 3, -2.5])


@spec('inv_yeo_johnson')
def inv_yeo_johnson(S):
    k = K(S)
    l1 = lambda v: math('log1p', v)
    em = lambda v: math('expm1', v)

    def f(x, m):
        q = k.c(2) - m
        e1, e2 = k.c(-1) / m, k.c(1) / q
        pos = ite(eq(m, 0), em(x), ite(And(m < 0, e1 <= x), ite(e1 < x, k.c('nan'), k.c('inf')), em(l1(m * x) / m)))
        neg = ite(eq(m, 2), -em(-x), ite(And(k.c(2) < m, x <= e2), ite(x < e2, k.c('nan'), k.c('-inf')), -em(l1(-q * x) / q)))
        return ite(k.c(0) <= x, pos, neg)
    out(S, f)
    S.gen(1, values=[0, 2, 1, .5, -1, 3, -2.5])


@spec('issnan')
def issnan(S):
    S.out(0, lambda: ite(S.issnan(S.x(0)()), 1, 0))
