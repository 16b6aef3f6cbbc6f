"""Contracts: special functions.  The value at the edges of the domain, the branch taken at every argument, and the formula of each branch."""
from fractions import Fraction
from decimal import Decimal, getcontext
from .registry import spec
from .ops import *
from .specs_b import K, out

getcontext().prec = 60


def F(s):
    return Fraction(s)


RSQRT2 = F('0.7071067811865475244008443621048490393')
EULER = F('0.577215664901532860606512090082402431042159')


def logfact_table():
    """log(k!) for k < 126, rounded to double, from exact factorials"""
    t, f = [], 1
    for k in range(126):
        f *= max(k, 1)
        t.append(Fraction(float(Decimal(f).ln())))
    return t


@spec('logfactorial')
def logfactorial(S):
    k, c = S.x(0), lambda v: const('f64', v)
    S.gen(0, values=[-1, 0, 1, 2, 3, 60, 124, 125, 126, 127, 128, 1000, 10 ** 9])
    tab = logfact_table()

    def res():
        n = k()
        kf = tofloat('f64', n)
        stir = (kf + c(Fraction(1, 2))) * math('log', kf) - kf + (c(Fraction(0.9189385332046728)) + (c(1) / kf) * (c(Fraction(1 / 12.0)) - c(1) / (c(360) * kf * kf)))
        v = stir
        for i in range(125, -1, -1):
            v = ite(eq(n, i), c(tab[i]), v)
        return ite(n < 0, c('nan'), v)
    S.out(0, res)


def e1_series(S, k, x):
    """-gamma - log(x) + x*sum of the power series, at most 25 terms"""
    def step(j, e, r, done):
        kk = j + 1
        r1 = -r * tofloat(k.t, kk) * x() / tofloat(k.t, (kk + 1) * (kk + 1))
        stop = eq(e + r1, e)
        return (ite(Or(done, stop), e, e + r1), ite(done, r, r1), Or(done, stop))
    f = S.fold('e1s', lambda: (k.c(1), k.c(1), False), step, stable=lambda e, r, d: d)
    L = lambda v: cast('f80', v)
    return lambda: cast(k.t, const('f80', -rnd(EULER, 64)) - L(math('log', x())) + L(x() * f(25)[0]))


def e1_frac(S, k, x):
    """the continued fraction 5.1.22 with 20 + trunc(80/x) levels"""
    m = lambda: toint(k.c(80) / x()) + 20 if S.symbolic or x() > 1 else 0

    def step(j, t):
        q = tofloat(k.t, m() - j)
        return q / (k.c(1) + q / (x() + t))
    f = S.fold('e1f', lambda: k.c(0), step)
    return lambda: k.c(1) / (x() + f(m()))


@spec('expint1')
def expint1(S):
    k, x = K(S), S.x(0)
    S.opt(peel=0)
    ser, cf = e1_series(S, k, x), e1_frac(S, k, x)
    out(S, lambda v: ite(Or(isnan(v), v < 0), k.c('nan'), ite(eq(v, 0), k.c('inf'), ite(v <= 1, ser(), math('exp', -v) * cf()))))


@spec('logexpint1')
def logexpint1(S):
    k, x = K(S), S.x(0)
    S.opt(peel=0)
    ser, cf = e1_series(S, k, x), e1_frac(S, k, x)

    def asy(v):
        s = (k.c(-1) + (k.c(2) + (k.c(-6) + (k.c(24) - k.c(120) / v) / v) / v) / v) / v
        return -v - math('log', v) + math('log1p', s)
    out(S, lambda v: ite(Or(isnan(v), v < 0), k.c('nan'), ite(eq(v, 0), k.c('inf'),
                     ite(v <= 1, math('log', ser()), ite(v <= 500, -v + math('log', cf()), asy(v))))))


def rs2(k, v):
    return cast(k.t, cast('f80', v) * const('f80', rnd(RSQRT2, 64)))


def cdf(k, v):
    t = rs2(k, v)
    return ite(isnan(v), k.c('nan'), ite(k.c(0) < t, k.c(1) - math('erfc', t) / k.c(2), math('erfc', -t) / k.c(2)))


def rnd(q, bits):
    """q rounded to the given number of significant bits"""
    q = Fraction(q)
    if q == 0:
        return q
    e = 0
    a = abs(q)
    while a >= (1 << bits):
        a, e = a / 2, e + 1
    while a < (1 << (bits - 1)):
        a, e = a * 2, e - 1
    n = round(a)
    return (1 if q > 0 else -1) * n * Fraction(2) ** e


BITS = {'f32': 24, 'f64': 53, 'f80': 64}
BIG = {'f32': 5, 'f64': 50, 'f80': 100}
LOW = {'f32': F('-9.382413'), 'f64': F('-26.628735713751485'), 'f80': F('-106.56373801210984173')}
ISPI = F('0.5641895835477562869480794515607725858')


def erfcx(k, x):
    """scaled complementary error function, in terms of its approximation erfcx_y100 on 0 < y <= 100"""
    c = k.c
    y = lambda v: math('erfcx_y100', v)
    cf = c(rnd(ISPI, BITS[k.t])) / (x + c(Fraction(1, 2)) / (x + c(1) / (x + c(Fraction(3, 2)) / (x + c(2) / x))))
    return ite(isnan(x), c('nan'), ite(x > 0, ite(x > c(BIG[k.t]), cf, y(c(400) / (c(4) + x))),
               ite(x < c(rnd(LOW[k.t], BITS[k.t])), c('inf'), c(2) * math('exp', x * x) - y(c(400) / (c(4) - x)))))


def logcdf(k, v):
    t = rs2(k, v)
    return ite(v < -1, math('log', erfcx(k, -t) / k.c(2)) - t * t, math('log1p', -math('erfc', t) / k.c(2)))


@spec('normal.erfcx')
def nerfcx(S):
    k = K(S)
    out(S, lambda v: erfcx(k, v))


@spec('normal.cdf')
def ncdf(S):
    k = K(S)
    out(S, lambda v: cdf(k, v))


@spec('normal.sf')
def nsf(S):
    k = K(S)
    out(S, lambda v: cdf(k, -v))


@spec('normal.logcdf')
def nlogcdf(S):
    k = K(S)
    out(S, lambda v: logcdf(k, v))


@spec('normal.logsf')
def nlogsf(S):
    k = K(S)
    out(S, lambda v: logcdf(k, -v))


# Lanczos sum, N = 13, g = 6.0246...
LNUM = [23531376880.410759688572007674451636754734846804940, 42919803642.649098768957899047001988850926355848959,
        35711959237.355668049440185451547166705960488635843, 17921034426.037209699919755754458931112671403265390,
        6039542586.3520280050642916443072979210699388420708, 1439720407.3117216736632230727949123939715485786772,
        248874557.86205415651146038641322942321632125127801, 31426415.585400194380614231628318205362874684987640,
        2876370.6289353724412254090516208496135991145378768, 186056.26539522349504029498971604569928220784236328,
        8071.6720023658162106380029022722506138218516325024, 210.82427775157934587250973392071336271166969580291,
        2.5066282746310002701649081771338373386264310793408]
LDEN = [0.0, 39916800.0, 120543840.0, 150917976.0, 105258076.0, 45995730.0, 13339535.0, 2637558.0, 357423.0, 32670.0, 1925.0, 66.0, 1.0]


@spec('loggamma1p')
def loggamma1p(S):
    """float loops compute in double"""
    t = S.ty(0)
    d = lambda v: const('f64', v)
    P = [0.0, -0.5772156649015329, -2.198602239247181, -2.8835804898328345, -0.7093852391116942, 2.054674619926225, 2.5151727627777807,
         1.3458863118876616, 0.38837050891168406, 0.06011155167110235, 0.004451819276845639, 0.00011582239270882403, 2.362492383650223e-07]
    Q = [1.0, 5.23386570457449, 11.759169522860718, 14.820042213972009, 11.488581652651515, 5.650511133519242, 1.754785949617669,
         0.33151383879069596, 0.0351480730651527, 0.0017788484304635968, 2.9167070790354156e-05]

    def horner(x, c):
        v = d(0)
        for q in reversed(c):
            v = v * x + d(Fraction(q))
        return v

    g = d(F('6.024680040776729583740234375'))
    S.opt(peel=16)

    def lgam(x):
        a = fabs(x)
        lo, hi = horner(a, LNUM) / horner(a, LDEN), rhorner(a, LNUM) / rhorner(a, LDEN)
        r = math('log', ite(a < 5, lo, hi)) - g
        r = r + (a - d(Fraction(1, 2))) * (math('log', a + g - d(Fraction(1, 2))) - d(1))
        return ite(Or(eq(x, 0), eq(x, 1)), d(0), ite(a < d(Fraction(1e-20)), -math('log', a), r))

    def rhorner(x, c):
        v = d(0)
        for q in c:
            v = v / x + d(Fraction(q))
        return v

    def f(v):
        x = cast('f64', v)
        small = horner(x, P) / horner(x, Q)
        r = ite(Or(isnan(x), x <= -1), d('nan'), ite(isinf(x), d('inf'), ite(Or(eq(x, 0), eq(x, 1)), d(0),
                ite(And(x > d(Fraction(-1, 4)), x < d(Fraction(0.9))), small, lgam(d(1) + x)))))
        return cast(t, r)
    out(S, f)


def cmul(a, b):
    return (math('cmul_re', *a, *b), math('cmul_im', *a, *b))


@spec('log1p_theorem4')
def log1p_theorem4(S):
    t, x = S.infos[0].kind, S.x(0)
    c = lambda v: const(t, v)

    def f():
        z = x()
        re, im = z
        u = (re + c(1), im)
        log = (math('clog_re', *u), math('clog_im', *u))
        um1 = (u[0] - c(1), u[1])
        q = (math('cdiv_re', re, im, *um1), math('cdiv_im', re, im, *um1))
        p = [complex_product(t, log, q, j) for j in (0, 1)]
        bad = Or(isnan(re), isnan(im))
        return tuple(ite(bad, c('nan'), ite(And(eq(u[0], 1), eq(u[1], 0)), z[j], ite(eq(u[0] - c(1), re), log[j], p[j]))) for j in (0, 1))
    S.out(0, f)


def complex_product(t, a, b, j):
    """C99 multiplication: the plain formula, redone by the library when both parts are NaN"""
    re, im = a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]
    return ite(And(isnan(re), isnan(im)), math(('cmul_re', 'cmul_im')[j], *a, *b), (re, im)[j])


def two_sum(x, y):
    s = x + y
    v = s - x
    return s, (x - (s - v)) + (y - v)


def dd_sum(x, y):
    u, l = two_sum(x[0], y[0])
    l = l + (x[1] + y[1])
    r = u + l
    return r, l - (r - u)


def dd_square(x):
    t = const('f64', (1 << 27) + 1) * x
    hi = t - (t - x)
    lo = x - hi
    u = x * x
    return u, (hi * hi - u) + const('f64', 2) * hi * lo + lo * lo


@spec('log1p_doubledouble')
def log1p_doubledouble(S):
    t, x = S.infos[0].kind, S.x(0)
    c = lambda v: const(t, v)

    def f():
        re, im = x()
        m = lambda s: c(rnd(F(s), BITS[t]))
        box = And(re > m('-2.2'), re < m('0.2'), im > m('-1.2'), im < m('1.2'), fabs(re * (c(2) + re) + im * im) < m('0.4'))
        if t == 'f64':
            s = dd_sum(dd_sum(dd_square(re), (c(2) * re, c(0))), dd_square(im))[0]
            near = c(Fraction(1, 2)) * math('log1p', s)
            far = math('log', math('hypot', re + c(1), im))
        else:
            d = lambda v: cast('f64', v)
            two, half = const('f64', 2), const('f64', Fraction(1, 2))
            near = cast(t, half * math('log1p', d(re) * d(re) + two * d(re) + d(im) * d(im)))
            h = math('hypot', re + c(1), im)
            inner = And(re > m('-2.2'), re < m('0.2'), im > m('-1.2'), im < m('1.2'))
            far = ite(inner, math('log', h), cast(t, math('log', d(h))))
        bad = Or(isnan(re), isnan(im))
        return (ite(bad, c('nan'), ite(box, near, far)), ite(bad, c('nan'), math('atan2', im, re + c(1))))
    S.out(0, f)
