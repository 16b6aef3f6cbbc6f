"""Contracts: power means, second-order sections, interpolation, special functions."""
from .ops import *
from .registry import spec


# ------------------------------------------------------------------ means
def gfold(S, name, w=None):
    """geometric mean scan: (bad, zero, inf, same, prev, sum of log, sum of weights); stops at a nan or a negative element"""
    n, x, ty = S.dim('n'), S.x(0), S.ty(0)
    c = lambda v: const(ty, v)

    def step(j, bad, zero, inf, same_, prev, s, sw):
        v = x(j)
        pv = ite(eq(j, 0), v, prev)
        b2 = Or(bad, isnan(v), v < 0)
        go = Not(b2)
        lg = math('log', v)
        t = lg if w is None else w(j) * lg
        plain = Not(Or(isinf(v), eq(v, 0)))
        return (b2, ite(go, Or(zero, eq(v, 0)), zero), ite(go, Or(inf, isinf(v)), inf), ite(go, And(same_, eq(pv, v)), same_),
                ite(go, v, prev), ite(And(go, plain), s + t, s), sw if w is None else ite(go, sw + w(j), sw))
    return S.fold(name, lambda: (False, False, False, True, c(0), c(0), c(0)), step, stable=lambda b, *r: b)


def gres(S, f, w=None):
    n, ty = S.dim('n'), S.ty(0)
    c = lambda v: const(ty, v)
    bad, zero, inf, same_, prev, s, sw = f(n)
    den = tofloat(ty, n) if w is None else sw
    r = math('exp', s / den)
    if w is not None:
        r = ite(eq(sw, 0), c('nan'), r)
    return ite(Or(bad, And(zero, inf)), c('nan'), ite(inf, c('inf'), ite(zero, c(0), ite(same_, prev, r))))


@spec('gmean')
def gmean(S):
    S.raises(eq(S.dim('n'), 0))
    f = gfold(S, 'g')
    S.out(0, lambda: gres(S, f))


@spec('gmeanw')
def gmeanw(S):
    S.raises(eq(S.dim('n'), 0))
    f = gfold(S, 'g', S.x(1))
    S.out(0, lambda: gres(S, f, S.x(1)))


def hfold(S, name, w=None):
    n, x, ty = S.dim('n'), S.x(0), S.ty(0)
    c = lambda v: const(ty, v)
    if w is None:
        rec = lambda j, s: cast(ty, cast('f80', s) + const('f80', 1) / cast('f80', x(j)))
        return S.fold(name, lambda: (False, c(0)), lambda j, z, s: (Or(z, eq(x(j), 0)), ite(Or(z, eq(x(j), 0)), s, rec(j, s))), stable=lambda z, s: z)
    return S.fold(name, lambda: (False, c(0), c(0)), lambda j, z, s, sw: (Or(z, eq(x(j), 0)), ite(Or(z, eq(x(j), 0)), s, s + w(j) / x(j)),
                                                                         ite(Or(z, eq(x(j), 0)), sw, sw + w(j))), stable=lambda z, s, sw: z)


def hres(S, f, w=None):
    n, ty = S.dim('n'), S.ty(0)
    inf = const(ty, 'inf')
    if w is None:
        z, s = f(n)
        return tofloat(ty, n) / ite(z, inf, s)
    z, s, sw = f(n)
    return sw / ite(z, inf, s)


@spec('hmean')
def hmean(S):
    S.raises(eq(S.dim('n'), 0))
    f = hfold(S, 'h')
    S.out(0, lambda: hres(S, f))


@spec('hmeanw')
def hmeanw(S):
    S.raises(eq(S.dim('n'), 0))
    f = hfold(S, 'h', S.x(1))
    S.out(0, lambda: hres(S, f, S.x(1)))


@spec('pmean', 'pmeanw')
def pmean(S):
    n, x, ty = S.dim('n'), S.x(0), S.ty(0)
    weighted = S.u['attr'] == 'pmeanw'
    w = S.x(1) if weighted else None
    p = S.x(2) if weighted else S.x(1)
    c = lambda v: const(ty, v)
    W = 'f80' if ty == 'f80' else 'f64'
    wd = lambda v: cast(W, v)
    S.raises(eq(n, 0))
    g, h = gfold(S, 'g', w), hfold(S, 'h', w)
    one = c(1)
    # small p: expansion about the geometric mean
    lg = lambda j: math('log', x(j))
    ww = (lambda j: w(j)) if weighted else None
    if weighted:
        sl = S.fold('sl', lambda: (c(0), c(0), c(0)), lambda j, a, b, s: (a + w(j) * lg(j), b + w(j) * lg(j) * lg(j), s + w(j)))
    else:
        sl = S.fold('sl', lambda: (c(0), c(0)), lambda j, a, b: (a + lg(j), b + lg(j) * lg(j)))
    # general p
    mm = S.fold('mm', lambda: (False, False, False, c(0), c(0)),
                lambda j, bad, inf, zero, mx, mn: (Or(bad, isnan(x(j)), x(j) < 0), ite(Or(bad, isnan(x(j)), x(j) < 0), inf, Or(inf, isinf(x(j)))),
                                                   ite(Or(bad, isnan(x(j)), x(j) < 0), zero, Or(zero, eq(x(j), 0))),
                                                   ite(And(Not(Or(bad, isnan(x(j)), x(j) < 0)), Or(eq(j, 0), mx < x(j))), x(j), mx),
                                                   ite(And(Not(Or(bad, isnan(x(j)), x(j) < 0)), Or(eq(j, 0), x(j) < mn)), x(j), mn)),
                stable=lambda bad, *r: bad)
    scale = lambda: ite(p() > 0, mm(n)[3], mm(n)[4])
    pw = lambda a, b: math('pow', a, b)
    term = lambda j: pw(x(j) / scale(), p())
    if weighted:
        sm = S.fold('sm', lambda: (c(0), c(0)), lambda j, s, sw: (s + w(j) * term(j), sw + w(j)))
    else:
        sm = S.fold('sm', lambda: c(0), lambda j, s: s + term(j))

    def small():
        gm = gres(S, g, w)
        if weighted:
            a, b, sw = sl(n)
            den = sw
        else:
            a, b = sl(n)
            den = tofloat(ty, n)
        mean = a / den
        var = b / den - mean * mean
        half = const(W, 0.5)
        exp_ = cast(ty, wd(gm) * (const(W, 1) + half * wd(p()) * wd(var)))
        return ite(eq(p(), 0), gm, exp_)

    def general():
        bad, inf, zero, mx, mn = mm(n)
        if weighted:
            s, sw = sm(n)
            q = s / sw
        else:
            q = sm(n) / tofloat(ty, n)
        r = scale() * pw(q, one / p())
        return ite(bad, c('nan'), ite(eq(mx, mn), mx, ite(And(inf, p() > 0), c('inf'), ite(And(zero, p() < 0), c(0),
                   ite(isinf(p()), ite(p() < 0, mn, mx), r)))))

    def res():
        lim = const(W, Fraction(2e-6)) if W == 'f64' else const('f80', Fraction(2e-6))
        return ite(isnan(p()), c('nan'), ite(wd(fabs(p())) < lim, small(), ite(eq(p(), -1), hres(S, h, w), general())))
    S.out(0, res)
    S.opt(heavy=True)
    S.gen(2 if weighted else 1, values=[-2, -1, 0, 1, 2, 3, 0.5, -0.5, 1e-7, -1e-7, 2e-6, float('inf'), float('-inf'), float('nan')])
