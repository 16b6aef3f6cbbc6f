"""Contracts: sorting based statistics, second order section filters, special functions."""
from fractions import Fraction
from .registry import spec
from .ops import *


def madfold(S):
    """sum of |x[i]-x[j]| over the pairs i < j, and the sum of x, over the sorted elements"""
    S.require_dim(S.dim('n') >= 1)
    ty, t = S.infos[0].kind, S.sorted(0)
    return S.fold('ms', lambda: (const(ty, 0), t(0)), lambda j, s, tot: (s + (tofloat(ty, j) * t(j) - tot), tot + t(j)), start=1)


@spec('mad')
def mad(S):
    n, ty, u = S.dim('n'), S.infos[0].kind, S.x(1)
    f = madfold(S)

    def res():
        s2 = const(ty, 2) * f(n)[0]
        fn = tofloat(ty, n)
        return ite(ne(u(), 0), s2 / fn / tofloat(ty, n - 1), s2 / (fn * fn))
    S.out(0, res)


def gini_value(S):
    n, ty, u = S.dim('n'), S.infos[0].kind, S.x(1)
    f = madfold(S)

    def res():
        s, tot = f(n)
        d = ite(ne(u(), 0), tofloat(ty, n - 1) * tot, tofloat(ty, n) * tot)
        z = const(ty, 0)
        return ite(And(eq(s, z), eq(d, z)), const(ty, 'nan'), ite(eq(d, z), const(ty, 'inf'), s / d))
    return res


@spec('gini')
def gini(S):
    S.out(0, gini_value(S))


@spec('rmad')
def rmad(S):
    g, ty = gini_value(S), S.infos[0].kind
    S.out(0, lambda: ite(isnan(g()), g(), g() * const(ty, 2)))


def sosfolds(S, zi, contig=False):
    """state of section k before sample i, and the value entering section k at sample i"""
    sos, x, m = S.x(0), S.x(1), S.dim('m')
    V = S.fold('V', lambda j: x(j), lambda k, v, j: sos(k, 0) * v + Z(j, k)[0], params=1)
    Z = S.fold('Z', lambda k: (zi(k, 0), zi(k, 1)),
               lambda i, z0, z1, k: (z1 + sos(k, 1) * V(k, i) - sos(k, 4) * V(k + 1, i), sos(k, 2) * V(k, i) - sos(k, 5) * V(k + 1, i)), params=1)
    return V, Z


@spec('sosfilter')
def sosfilter(S):
    ty, m = S.infos[0].kind, S.dim('m')
    V, Z = sosfolds(S, lambda k, c: const(ty, 0))
    S.out(0, lambda i: V(m, i))
    S.state(None, lambda i, k, c: comp2(Z(i, k), c))


def comp2(z, c):
    return ite(eq(c, 0), z[0], z[1])


@spec('sosfilter_ic')
def sosfilter_ic(S):
    m, n = S.dim('m'), S.dim('n')
    V, Z = sosfolds(S, S.x(2))
    S.out(0, lambda i: V(m, i))
    S.out(1, lambda k, c: comp2(Z(n, k), c))
    S.state(1, lambda i, k, c: comp2(Z(i, k), c))


@spec('sosfilter_ic_contig')
def sosfilter_ic_contig(S):
    sosfilter_ic(S)
    S.require_contiguous()
