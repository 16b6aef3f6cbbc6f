"""Contracts: signal processing, sums, norms, means, geometry."""
from .ops import *
from .registry import spec


def narrow(S, k, x):
    return cast(S.ty(k), x)


# ------------------------------------------------------------------ nonlinear filters
def play(c, x, y, band):
    """one step of the backlash (play) operator with the given deadband"""
    h = band / c(2)
    return ite(y < x - h, x - h, ite(x + h < y, x + h, y))


@spec('backlash')
def backlash(S):
    x, band, init = S.x(0), S.x(1), S.x(2)
    c = lambda v: const(S.ty(0), v)
    y = S.fold('y', lambda: init(), lambda j, y: play(c, x(j), y, band()))
    S.out(0, lambda i: y(i + 1))


@spec('backlash_sum')
def backlash_sum(S):
    S.opt(xdepth=1)
    n, m = S.dim('n'), S.dim('m')
    x, w, band, init = S.x(0), S.x(1), S.x(2), S.x(3)
    c = lambda v: const(S.ty(0), v)
    y = S.fold('y', lambda i: init(i), lambda j, y, i: play(c, x(j), y, band(i)), params=1)
    t = S.fold('total', lambda k: c(0), lambda i, t, k: t + w(i) * y(k + 1, i), params=1)
    S.state(1, lambda a, i: y(a, i))
    S.out(0, lambda k: t(m, k))
    S.out(1, lambda i: y(n, i))


@spec('hysteresis_relay')
def hysteresis_relay(S):
    x, lo, hi, lv, hv, init = [S.x(k) for k in range(6)]
    r = S.fold('r', lambda: init(), lambda j, r: ite(x(j) < lo(), lv(), ite(hi() < x(j), hv(), r)))
    S.out(0, lambda i: r(i + 1))


@spec('unwrap')
def unwrap(S):
    x, per = S.x(0), S.x(1)
    ty = S.ty(0)
    W = 'f64' if ty == 'f32' else ty
    half = const(W, 0.5)

    def step(j, y):
        d = x(j) - y
        q = math('trunc', cast(W, d / per()) + math('copysign', half, cast(W, d)))
        return ite(And(isfinite(y), isfinite(x(j))), x(j) - cast(ty, q) * per(), const(ty, 'nan'))
    y = S.fold('y', lambda: x(0), step, start=1)
    S.inv('nan', lambda a: same(y(a), const(ty, 'nan')))
    S.out(0, lambda i: y(i + 1))


@spec('fillnan1d')
def fillnan1d(S):
    n, x = S.dim('n'), S.x(0)
    ty = S.ty(0)
    c = lambda v: const(ty, v)
    last = S.fold('last', lambda: -1, lambda j, l: ite(isnan(x(j)), l, j))

    def line(l, r, i):
        a, b = cast('f80', x(l)), cast('f80', x(r))
        return cast(ty, a + tofloat('f80', i - l) * ((b - a) / tofloat('f80', r - l)))

    def step(a, v, i):
        l = last(a)
        new = ite(eq(i, a), x(a), ite(And(i < a, l < i), ite(l < 0, x(a), line(l, a, i)) if S.symbolic else (x(a) if l < 0 else line(l, a, i)), v))
        return ite(isnan(x(a)), v, new)
    F = S.fold('F', lambda i: c(0), step, params=1)
    S.state(0, lambda a, i: F(a, i), lambda a, i: i <= last(a))

    def res(i):
        l = last(n)
        if S.symbolic:
            return ite(l < 0, c('nan'), ite(l < i, x(l), F(n, i)))
        return c('nan') if l < 0 else x(l) if i > l else F(n, i)
    S.out(0, res)


@spec('linear_interp1d')
def linear_interp1d(S):
    n, x, xp, fp = S.dim('n'), S.x(0), S.x(1), S.x(2)
    # xp is strictly increasing as far as comparisons with x can tell:
    # xp[0..l) < x, and xp[0..r) <= x, with at most one element equal to x
    l = S.ghost('l', 0, n, lambda i, p: Iff(xp(i) < x(), i < p), on=1)
    r = S.ghost('r', 0, n, lambda i, p: And(Not(isnan(xp(i))), Iff(xp(i) <= x(), i < p)), on=1)
    S.require(lambda: And(l() <= r(), r() <= l() + 1))
    nan = const(S.ty(0), 'nan')

    def ok(o):
        k = r() - 1
        if not S.symbolic:
            if k < 0 or (k == n - 1 and r() == l()):
                return same(o, nan)
            if r() > l():
                return same(o, fp(k))
        dx, dxp, df = x() - xp(k), xp(k + 1) - xp(k), fp(k + 1) - fp(k)
        mid = Or(same(o, fp(k) + (dx / dxp) * df), same(o, fp(k) + (df / dxp) * dx))
        if not S.symbolic:
            return mid
        return ite(Or(k < 0, And(eq(r(), n), eq(r(), l()))), same(o, nan), ite(r() > l(), same(o, fp(k)), mid))
    S.ensure('linear interpolation between the neighbouring samples', lambda out: ok(out(0)()))
    S.opt(nonempty=True)
    S.gen(1, sort=True, distinct=True)


# ------------------------------------------------------------------ sums, norms
@spec('kbnsum')
def kbnsum(S):
    n, x = S.dim('n'), S.x(0)
    c = lambda v: const(S.ty(0), v)

    # mode 0: accumulating; 1: an infinity was seen; 2: the result is nan
    def step(j, mode, v, acc, comp):
        t = acc + x(j)
        d = ite(fabs(x(j)) <= fabs(acc), (acc - t) + x(j), (x(j) - t) + acc)
        go = eq(mode, 0)
        fin = isfinite(x(j))
        m2 = ite(go, ite(isnan(x(j)), 2, ite(fin, 0, 1)), ite(And(eq(mode, 1), isnan(v + x(j))), 2, mode))
        return (m2, ite(And(go, Not(fin)), x(j), v), ite(And(go, fin), t, acc), ite(And(go, fin), comp + d, comp))
    f = S.fold('kbn', lambda: (0, c(0), c(0), c(0)), step, stable=lambda m, v, a, k: eq(m, 2))

    def res():
        m, v, a, k = f(n)
        return ite(eq(m, 2), c('nan'), ite(eq(m, 1), v, a + k))
    S.out(0, res)


@spec('vdot')
def vdot(S):
    n, x, y = S.dim('n'), S.x(0), S.x(1)
    f = S.fold('sum', lambda: const(S.ty(0), 0), lambda j, s: s + x(j) * y(j))
    S.out(0, lambda: f(n))


@spec('rms')
def rms(S):
    n, x, ty = S.dim('n'), S.x(0), S.ty(1)
    S.require_dim(n >= 1)
    if S.info(0).cplx:
        f = S.fold('sum', lambda: const(ty, 0), lambda j, s: s + (x(j)[0] * x(j)[0] + x(j)[1] * x(j)[1]))
    else:
        f = S.fold('sum', lambda: const(ty, 0), lambda j, s: s + x(j) * x(j))
    S.out(0, lambda: sqrt(f(n) / tofloat(ty, n)))


@spec('vnorm')
def vnorm(S):
    n, x, p, ty = S.dim('n'), S.x(0), S.x(1), S.ty(1)
    c = lambda v: const(ty, v)
    ab = (lambda j: math('hypot', x(j)[0], x(j)[1])) if S.info(0).cplx else (lambda j: fabs(x(j)))
    mx = S.fold('mx', lambda: (False, c(0)), lambda j, bad, m: (Or(bad, isnan(ab(j))), ite(And(Not(bad), m < ab(j)), ab(j), m)), stable=lambda b, m: b)
    sm = S.fold('sum', lambda: c(0), lambda j, s: ite(isinf(p()), ite(s < ab(j), ab(j), s), ite(eq(p(), 1), s + ab(j), s + math('pow', ab(j) / mx(n)[1], p()))))

    def res():
        bad, m = mx(n)
        r = ite(Or(isinf(p()), eq(p(), 1)), sm(n), m * math('pow', sm(n), c(1) / p()))
        return ite(Or(p() < 0, eq(p(), 0)), c('nan'), ite(bad, c('nan'), ite(Or(eq(m, 0), isinf(m)), m, r)))
    S.out(0, res)


@spec('meanvar')
def meanvar(S):
    n, x, dd = S.dim('n'), S.x(0), S.x(1)
    ty = S.ty(2)
    S.require_dim(n >= 1)
    c = lambda v: const(ty, v)
    fx = (lambda j: tofloat(ty, x(j))) if S.info(0).kind == 'i' else x

    def upd(v, inc, comp):
        y = inc - comp
        t = v + y
        return t, (t - v) - y

    def step(j, mean, c1, m2, c2):
        d = fx(j) - mean
        mean2, c1n = upd(mean, d / tofloat(ty, j + 1), c1)
        m2n, c2n = upd(m2, d * (fx(j) - mean2), c2)
        return mean2, c1n, m2n, c2n
    f = S.fold('mv', lambda: (c(0),) * 4, step)
    S.out(0, lambda i: ite(eq(i, 0), f(n)[0], f(n)[2] / tofloat(ty, n - dd())))
    S.gen(1, values=[0, 1, 2, 3, -1, 5, 10, -7, 1000, -100000], p=1)


@spec('wjaccard')
def wjaccard(S):
    n, x, y = S.dim('n'), S.x(0), S.x(1)
    ty = S.ty(2)
    S.require_dim(n >= 1)
    c = lambda v: const(ty, v)
    F = (lambda v: tofloat(ty, v)) if S.info(0).kind == 'i' else (lambda v: v)
    mn = lambda j: F(ite(y(j) < x(j), y(j), x(j)))
    mx = lambda j: F(ite(x(j) < y(j), y(j), x(j)))
    bad = lambda j: Or(isnan(x(j)), isnan(y(j)))
    f = S.fold('wj', lambda: (bad(0), mn(0), mx(0)), lambda j, b, u, v: (Or(b, bad(j)), ite(Or(b, bad(j)), u, u + mn(j)), ite(Or(b, bad(j)), v, v + mx(j))),
               start=1, stable=lambda b, u, v: b)

    def res():
        b, u, v = f(n)
        return ite(b, c('nan'), ite(eq(v, 0), ite(eq(u, 0), c('nan'), c('-inf')), u / v))
    S.out(0, res)


@spec('pearson_corr')
def pearson_corr(S):
    n, ty = S.dim('n'), S.ty(2)
    S.require_dim(n >= 2)
    c = lambda v: const(ty, v)
    isint = S.info(0).kind == 'i'
    xs = [S.x(0), S.x(1)]
    fx = [(lambda j, q=q: tofloat(ty, xs[q](j)) if isint else xs[q](j)) for q in (0, 1)]
    mean, dmax, norm = [], [], []
    for q in (0, 1):
        def mstep(j, m, c1, q=q):
            d = fx[q](j) - m
            y1 = d / tofloat(ty, j + 1) - c1
            t1 = m + y1
            return t1, (t1 - m) - y1
        mean.append(S.fold(f'mean{q}', lambda: (c(0), c(0)), mstep))
        dlt = lambda j, q=q: fabs(fx[q](j) - mean[q](n)[0])
        dmax.append(S.fold(f'dmax{q}', lambda dlt=dlt: dlt(0), lambda j, m, dlt=dlt: ite(m < dlt(j), dlt(j), m), start=1))

        def nstep(j, s, k, q=q):
            z = (fx[q](j) - mean[q](n)[0]) / dmax[q](n)
            z2 = z * z if ty != 'f32' else cast(ty, cast('f64', z) * cast('f64', z))
            y = z2 - k
            t = s + y
            return t, (t - s) - y
        norm.append(S.fold(f'norm{q}', lambda: (c(0), c(0)), nstep))
    nrm = lambda q: dmax[q](n) * sqrt(norm[q](n)[0])
    r = S.fold('r', lambda: c(0), lambda j, s: s + ((fx[0](j) - mean[0](n)[0]) / nrm(0)) * ((fx[1](j) - mean[1](n)[0]) / nrm(1)))

    def two():
        bad = Or(*[Or(eq(x(0), x(1)), *([] if isint else [Not(isfinite(x(0))), Not(isfinite(x(1)))])) for x in xs])
        same = Or(*[And(a(0) < a(1), b(0) < b(1)) if up else And(a(1) < a(0), b(1) < b(0)) for up in (0, 1) for a, b in [xs]])
        return ite(bad, c('nan'), ite(same, c(1), c(-1)))

    def res():
        return ite(eq(n, 2), two(), ite(Or(eq(dmax[0](n), 0), eq(dmax[1](n), 0)), c('nan'), r(n)))
    S.out(0, res)


@spec('multivariate_logbeta')
def multivariate_logbeta(S):
    n, x, ty = S.dim('n'), S.x(0), S.ty(0)
    f = S.fold('s', lambda: (const(ty, 0), const(ty, 0)), lambda j, a, l: (a + x(j), l + math('lgamma', x(j))))
    S.out(0, lambda: ite(eq(n, 0), const(ty, 'nan'), f(n)[1] - math('lgamma', f(n)[0])))
    S.gen(0, lo=0.25, hi=20)


@spec('softmax')
def softmax(S):
    n, x, ty = S.dim('n'), S.x(0), S.ty(0)
    c = lambda v: const(ty, v)
    pinf = lambda j: And(isinf(x(j)), x(j) > 0)
    f = S.fold('scan', lambda: (False, 0, 0, c(0)),
               lambda j, bad, cnt, ix, mx: (Or(bad, isnan(x(j))), ite(Or(bad, isnan(x(j)), Not(pinf(j))), cnt, cnt + 1),
                                            ite(Or(bad, isnan(x(j)), Not(pinf(j))), ix, j),
                                            ite(And(Not(bad), Not(isnan(x(j))), Or(eq(j, 0), mx < x(j))), x(j), mx)),
               stable=lambda bad, cnt, ix, mx: bad)
    e = S.fold('esum', lambda: c(0), lambda j, s: s + math('exp', x(j) - f(n)[3]))
    S.aux(0, lambda i: c(0))

    def res(i):
        bad, cnt, ix, mx = f(n)
        return ite(Or(bad, cnt > 1, eq(mx, c('-inf'))), c('nan'), ite(eq(cnt, 1), ite(eq(i, ix), c(1), c(0)), math('exp', x(i) - mx) / e(n)))
    S.out(0, res)


# ------------------------------------------------------------------ geometry
@spec('cross2', 'cross3')
def cross(S):
    u, v, k = S.x(0), S.x(1), S.chr(0)

    def det(a, b, c, d):
        """a*d - b*c"""
        if k == 'O':
            return S.pyop('PyNumber_Subtract', S.pyop('PyNumber_Multiply', a, d), S.pyop('PyNumber_Multiply', b, c))
        return a * d - b * c
    if S.u['attr'] == 'cross2':
        S.out(0, lambda: det(u(0), u(1), v(0), v(1)))
        return
    comp = [lambda: det(u(1), u(2), v(1), v(2)), lambda: det(u(2), u(0), v(2), v(0)), lambda: det(u(0), u(1), v(0), v(1))]
    if S.symbolic:
        S.out(0, lambda i: ite(eq(i, 0), comp[0](), ite(eq(i, 1), comp[1](), comp[2]())))
    else:
        S.out(0, lambda i: comp[i]())


@spec('tri_area', 'tri_area_indexed')
def tri_area(S):
    p, ty, n = S.x(0), S.ty(0), S.dim('n')
    c = lambda v: const(ty, v)
    idx = S.u['attr'] == 'tri_area_indexed'
    if idx:
        ii, m = S.x(1), S.dim('m')
        norm_ix = lambda q: ite(ii(q) < 0, ii(q) + m, ii(q))
        bad = lambda: Or(*[Or(norm_ix(q) < 0, norm_ix(q) >= m) for q in range(3)])
        ix = [lambda q=q: norm_ix(q) for q in range(3)]
    else:
        bad = lambda: False
        ix = [lambda q=q: q for q in range(3)]
    folds = []
    for nm, (a, b) in zip('abc', ((0, 1), (0, 2), (1, 2))):
        folds.append(S.fold('sq' + nm, lambda: c(0), lambda j, s, a=a, b=b: s + (p(ix[b](), j) - p(ix[a](), j)) * (p(ix[b](), j) - p(ix[a](), j))))

    def area():
        a, b, d = [sqrt(f(n)) for f in folds]
        lo, hi = (lambda x, y: ite(y < x, y, x)), (lambda x, y: ite(x < y, y, x))
        # sorted: a >= b >= d
        a, b = ite(a < b, b, a), ite(a < b, a, b)
        a, b, d = ite(a < d, d, a), ite(a < d, a, ite(b < d, d, b)), ite(a < d, b, ite(b < d, b, d))
        f2 = d - (a - b)
        f2 = ite(f2 < 0, c(0), f2)
        return sqrt((a + (b + d)) * f2 * (d + (a - b)) * (a + (b - d))) / c(4)
    if S.symbolic:
        S.out(0, lambda: ite(bad(), c('nan'), area()))
    else:
        S.out(0, lambda: c('nan') if bad() else area())
    if idx:
        S.gen(1, near=True)
