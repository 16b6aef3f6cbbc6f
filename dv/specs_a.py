"""Contracts: searching, ordering, counting, integer kernels."""
from .ops import *
from .registry import spec

LT, LE, EQ, NE, GT, GE = range(6)


def isobj(S, k=0):
    return S.chr(k) == 'O'


def rel(S, op, a, b, obj):
    """truth of `a op b` as the loop must decide it (objects: PyObject_RichCompareBool)"""
    if obj:
        return eq(S.cmp(a, b, op), 1)
    return (a < b, a <= b, eq(a, b), ne(a, b), b < a, b <= a)[op] if not S.symbolic else \
        [lambda: a < b, lambda: a <= b, lambda: eq(a, b), lambda: ne(a, b), lambda: b < a, lambda: b <= a][op]()


def relop(S, op, a, b, obj):
    """op is the run-time operator code; an invalid code never matches"""
    if obj:
        return And(op >= 0, op <= 5, eq(S.cmp(a, b, op), 1))
    return Or(*[And(eq(op, k), rel(S, k, a, b, False)) for k in range(6)])


@spec('first')
def first(S):
    n, x, op, t, o = S.dim('n'), S.x(0), S.x(1), S.x(2), S.x(3)
    f = S.fold('hit', lambda: (False, o()), lambda j, d, v: ites(And(Not(d), relop(S, op(), x(j), t(), isobj(S))), (True, x(j)), (d, v)),
               stable=lambda d, v: d)
    S.out(0, lambda: ite(And(op() >= 0, op() <= 5), f(n)[1], o()))
    S.gen(1, values=[-1, 0, 1, 2, 3, 4, 5, 6])


@spec('argfirst')
def argfirst(S):
    n, x, op, t = S.dim('n'), S.x(0), S.x(1), S.x(2)
    f = S.fold('hit', lambda: (False, -1), lambda j, d, v: ites(And(Not(d), relop(S, op(), x(j), t(), isobj(S))), (True, j), (d, v)),
               stable=lambda d, v: d)
    S.out(0, lambda: ite(And(op() >= 0, op() <= 5), f(n)[1], -1))
    S.gen(1, values=[-1, 0, 1, 2, 3, 4, 5, 6])


def mnfold(S):
    S.require_dim(S.dim('n') >= 1)
    n, x, ob = S.dim('n'), S.x(0), isobj(S)
    return S.fold('mn', lambda: (x(0), 0), lambda j, m, i: ites(rel(S, LT, x(j), m, ob), (x(j), j), (m, i)), start=1)


def mxfold(S):
    S.require_dim(S.dim('n') >= 1)
    n, x, ob = S.dim('n'), S.x(0), isobj(S)
    return S.fold('mx', lambda: (x(0), 0), lambda j, m, i: ites(rel(S, GT, x(j), m, ob), (x(j), j), (m, i)), start=1)


def bothfold(S):
    """running (min, argmin, max, argmax); objects are compared with the maximum only when not below the minimum"""
    n, x, ob = S.dim('n'), S.x(0), isobj(S)
    if S.u['pcd']:
        S.require_dim(n >= 1)

    def step(j, a, i, b, k):
        lt = rel(S, LT, x(j), a, ob)
        gt = rel(S, GT, x(j), b, ob)
        if ob:
            gt = And(Not(lt), gt)
        return ites(lt, (x(j), j), (a, i)) + ites(gt, (x(j), j), (b, k))
    f = S.fold('mm', lambda: (x(0), 0, x(0), 0), step, start=1)
    if not ob:
        S.inv('min <= max', lambda a: Or(eq(f(a)[0], f(a)[2]), f(a)[0] < f(a)[2], And(isnan(f(a)[0]), isnan(f(a)[2]))))
    return f


@spec('argmin')
def argmin(S):
    f = mnfold(S)
    S.out(0, lambda: f(S.dim('n'))[1])


@spec('argmax')
def argmax(S):
    f = mxfold(S)
    S.out(0, lambda: f(S.dim('n'))[1])


@spec('min_argmin')
def min_argmin(S):
    f = mnfold(S)
    S.out(0, lambda: f(S.dim('n'))[0])
    S.out(1, lambda: f(S.dim('n'))[1])


@spec('max_argmax')
def max_argmax(S):
    f = mxfold(S)
    S.out(0, lambda: f(S.dim('n'))[0])
    S.out(1, lambda: f(S.dim('n'))[1])


@spec('minmax')
def minmax(S):
    f = bothfold(S)
    S.out(0, lambda i: ite(eq(i, 0), f(S.dim('n'))[0], f(S.dim('n'))[2]))


@spec('argminmax')
def argminmax(S):
    f = bothfold(S)
    S.out(0, lambda i: ite(eq(i, 0), f(S.dim('n'))[1], f(S.dim('n'))[3]))


@spec('peaktopeak')
def peaktopeak(S):
    f = bothfold(S)
    n = S.dim('n')
    S.raises(eq(n, 0))

    def res():
        s = f(n)
        if isobj(S):
            return S.pyop('PyNumber_Subtract', s[2], s[0])
        return s[2] - s[0]
    S.out(0, res)


@spec('all_same')
def all_same(S):
    n, x, ob = S.dim('n'), S.x(0), isobj(S)
    f = S.fold('differs', lambda: False, lambda j, d: Or(d, rel(S, NE, x(j), x(0), ob)), start=1, stable=lambda d: d)
    S.out(0, lambda: ite(f(n), 0, 1))


@spec('ordered')
def ordered(S):
    n, x, op, ob = S.dim('n'), S.x(0), S.x(1), isobj(S)
    code = lambda: ite(And(op() >= 0, op() <= 5), op(), GE)
    if ob:
        bad = lambda j: Not(eq(S.cmp(x(j - 1), x(j), code()), 1))
    else:
        bad = lambda j: Not(relop(S, code(), x(j - 1), x(j), False))
    f = S.fold('broken', lambda: False, lambda j, d: Or(d, bad(j)), start=1, stable=lambda d: d)
    S.out(0, lambda: ite(f(n), 0, 1))
    S.gen(1, values=[0, 1, 2, 3, 4, 5, 6, -1])


@spec('searchsortedl', 'searchsortedr')
def searchsorted(S):
    m, a, v, ob = S.dim('m'), S.x(0), S.x(1), isobj(S)
    left = S.u['attr'].endswith('l')
    # the array is sorted with respect to v: the elements that go before v are exactly a[0..p)
    before = (lambda i: rel(S, LT, a(i), v(), ob)) if left else (lambda i: Not(rel(S, LT, v(), a(i), ob)))
    p = S.ghost('p', 0, m, lambda i, p: Iff(before(i), i < p), on=0)
    S.out(0, lambda: p())
    S.gen(0, sort=True)


@spec('percentileofscore')
def percentileofscore(S):
    n, x, s, kind = S.dim('n'), S.x(0), S.x(1), S.x(2)
    f = S.fold('cnt', lambda: (0, 0), lambda j, l, e: (l + ite(x(j) < s(), 1, 0), e + ite(eq(x(j), s()), 1, 0)))
    S.fold('gt', lambda: 0, lambda j, g: g + ite(Or(x(j) < s(), eq(x(j), s())), 0, 1))

    def res():
        l, e = f(n)
        F = lambda k: tofloat('f64', k)
        c50, c100, fn = const('f64', 50), const('f64', 100), F(n)
        r = F(2*l + e + ite(e > 0, 1, 0)) * c50 / fn
        return ite(eq(kind(), 0), r, ite(eq(kind(), 1), F(l + e) * c100 / fn, ite(eq(kind(), 2), F(l) * c100 / fn,
                   ite(eq(kind(), 3), F(2*l + e) * c50 / fn, const('f64', 'nan')))))
    S.out(0, res)
    S.gen(2, values=[0, 1, 2, 3, -1, 4, 1 << 32])


@spec('bincount')
def bincount(S):
    n, m, x = S.dim('n'), S.dim('m'), S.x(0)
    old = S.old(0)
    c = S.fold('count', lambda i: old(i), lambda j, c, i: ite(eq(x(j), i), S.wrapint(1, c + 1), c), params=1)
    S.state(0, c)
    S.out(0, lambda i: c(n, i))
    S.gen(0, near=True)


@spec('bincountw')
def bincountw(S):
    n, m, x, w = S.dim('n'), S.dim('m'), S.x(0), S.x(1)
    old = S.old(0)
    if S.info(1).cplx:
        f = S.fold('acc', lambda i: old(i), lambda j, re, im, i: ites(eq(x(j), i), (re + w(j)[0], im + w(j)[1]), (re, im)), params=1)
        st = lambda a, i: f(a, i)
    elif S.info(1).kind == 'i':
        f = S.fold('acc', lambda i: old(i), lambda j, c, i: ite(eq(x(j), i), S.wrapint(1, c + w(j)), c), params=1)
        st = lambda a, i: f(a, i)
    else:
        f = S.fold('acc', lambda i: old(i), lambda j, c, i: ite(eq(x(j), i), c + w(j), c), params=1)
        st = lambda a, i: f(a, i)
    S.state(0, st)
    S.out(0, lambda i: st(n, i))
    S.gen(0, near=True)


@spec('convert_to_base')
def convert_to_base(S):
    n, k, b = S.dim('n'), S.x(0), S.x(1)
    q = S.fold('q', lambda: k(), lambda j, q: ite(eq(b(), 0), 0, cdiv(q, nz(b()))))
    S.out(0, lambda i: ite(eq(b(), 0), 0, cmod(q(i), nz(b()))))
    S.gen(1, values=[0, 1, 2, 3, 10, 16, -1, -2, 127])


def nz(b):
    return ite(eq(b, 0), 1, b)


@spec('one_hot')
def one_hot(S):
    x = S.x(0)
    S.aux(0, lambda i: 0)
    S.out(0, lambda i: ite(eq(i, x()), 1, 0))
    S.gen(0, near=True)
