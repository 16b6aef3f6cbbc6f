"""Accuracy contracts of the piecewise approximations (debye1, erfcx):

    ensures  |result - f(x)| <= tol * |f(x)|      for every floating point argument x of the domain

discharged by a back end of its own on the extracted IR of the registered loop: Taylor models with rigorous bounds.  Every float value is enclosed by a
polynomial in s (x = c + r*s, |s| <= 1) plus an error bound that holds truncation and the rounding error of every operation; branches on floats
must be decided on the whole interval (the interval is split otherwise, and in the end both sides are followed).  The
mathematical function is enclosed in the same way, from its differential equation with a checked residual; nothing is sampled."""
import json, os, re, time
from fractions import Fraction
from itertools import accumulate
from operator import mul
from concurrent.futures import ProcessPoolExecutor
import mpmath
from . import ir, extract as X
from .sx import fp_const
from . import terms as T

S = 200
ONE = 1 << S
N = 16
U = {'float': 24, 'double': 53, 'x86_fp80': 64}
TINY = {'float': 1 << (S - 149), 'double': 1, 'x86_fp80': 1}
DEN = {'float': Fraction(1, 1 << 149), 'double': Fraction(1, 1 << 1074), 'x86_fp80': Fraction(1, 1 << 16445)}
mpmath.mp.dps = 120


class Ambiguous(Exception):
    def __init__(self, at=None):
        self.at = at            # a point in (-1, 1) near which the decision changes, if known


class Bad(Exception):
    pass


def precision(bits):
    global S, ONE, TINY
    S, ONE = bits, 1 << bits
    TINY = {'float': 1 << max(S - 149, 0), 'double': 1 << max(S - 1074, 0), 'x86_fp80': 1}
    mpmath.mp.prec = 2 * bits
    _fpc.clear()
    _bern.clear()


def sc(q):
    """scaled integer nearest to a rational or mpf (error at most 1 unit)"""
    if isinstance(q, Fraction):
        return (q.numerator << S) // q.denominator
    return int(mpmath.nint(mpmath.ldexp(q, S)))


def up(a, b):
    """a*b/ONE rounded up, a, b >= 0"""
    return -((-a * b) >> S)


class TM:
    __slots__ = ('c', 'e')

    def __init__(self, c, e=0):
        while len(c) > 1 and c[-1] == 0:
            c = c[:-1]
        self.c, self.e = c, e

    def var(self):
        return sum(map(abs, self.c[1:]))

    def bound(self):
        return abs(self.c[0]) + self.var() + self.e

    def lo(self):
        return self.c[0] - self.var() - self.e

    def hi(self):
        return self.c[0] + self.var() + self.e

    def __add__(a, b):
        n = max(len(a.c), len(b.c))
        p, q = a.c + [0] * (n - len(a.c)), b.c + [0] * (n - len(b.c))
        return TM([x + y for x, y in zip(p, q)], a.e + b.e)

    def __neg__(a):
        return TM([-x for x in a.c], a.e)

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        p, q = a.c, b.c
        la, lb = len(p), len(q)
        if la == 1 or lb == 1:
            if lb == 1:
                v, r = q[0], p
            else:
                v, r = p[0], q
            e = up(a.e, b.bound()) + up(a.bound(), b.e) + len(r) if a.e or b.e else len(r)
            return TM([x * v >> S for x in r], e)
        n = la + lb - 1
        qr = q[::-1]
        r = [sum(map(mul, p[max(0, k - lb + 1):k + 1], qr[max(0, lb - 1 - k):])) for k in range(n)]
        k = min(n, N + 1)
        tail = sum(map(abs, r[k:])) >> S
        e = up(a.e, b.bound()) + up(a.bound(), b.e) + tail + n
        return TM([x >> S for x in r[:k]], e)

    def inv(b):
        b0 = b.c[0]
        m = abs(b0) - b.var() - b.e
        if m <= 0:
            raise Ambiguous()
        q = [(ONE << S) // b0]
        bc = b.c[1:]
        if bc:
            for n in range(1, N + 1):
                k = min(n, len(bc))
                q.append(-(sum(map(mul, bc[:k], q[n - 1::-1])) // b0))
        # 1 - b*q: coefficients up to N are the remainders of the divisions, the rest is b_i*q_j with i + j > N
        tail = 0
        if bc:
            cum = list(accumulate(map(abs, reversed(q))))
            tail = sum(map(mul, map(abs, bc), cum)) >> S
        d = tail + (N + 1) * ((abs(b0) >> S) + 2)
        q = TM(q)
        d += up(b.e, q.bound())
        return TM(q.c, -((-d << S) // m) + 1)

    def __truediv__(a, b):
        return a * b.inv()

    def rnd(a, ty):
        """after a correctly rounded operation"""
        return TM(a.c, a.e + (a.bound() >> U[ty]) + 1 + TINY[ty])


def const(q):
    return TM([sc(q)], 0 if (q.numerator << S) % q.denominator == 0 else 1)


# ------------------------------------------------------------------ the code
class Fork(Exception):
    def __init__(self, *vals):
        self.vals = vals


class Run:
    """one execution of the loop for one element x in the interval; every path that an undecided branch leaves open is followed"""

    def __init__(self, mod, f, x, forks=False):
        self.mod, self.f, self.x, self.forks = mod, f, x, forks
        self.results = []
        self.steps = 0

    def go(self):
        f = self.f
        env = {p[1]: (k,) for p, k in zip(f.params, ('args', 'dims', 'steps', 'data'))}
        work = [(f.order[0], 0, None, env, {}, None)]
        while work:
            self.path(work, *work.pop())
            if len(self.results) > 400:
                raise Bad("too many paths")
        return self.results

    def val(self, ty, v, env):
        k = v[0]
        if k == 'reg':
            return env[v[1]]
        if k == 'int':
            return v[1]
        if k == 'fp':
            return const_value(v[1], ty[1])
        if k in ('undef', 'poison'):
            return None
        if k == 'zero':
            return TM([0]) if ty[0] == 'f' else 0
        if k == 'null':
            return ('null',)
        if k == 'glob':
            return ('glob', v[1])
        if k == 'gep':
            return ('glob', v)
        raise Bad(f"value {v}")

    def path(self, work, b, n, prev, env, mem, out):
        while True:
            blk = self.f.blocks[b]
            nxt = None
            phis = {}
            while n < len(blk) and blk[n].op == 'phi':
                i = blk[n]
                for v, pb in i.a:
                    if pb == prev:
                        phis[i.res] = self.val(i.ty, v, env)
                n += 1
            env.update(phis)
            for k in range(n, len(blk)):
                i = blk[k]
                self.steps += 1
                if self.steps > 400000:
                    raise Bad("does not terminate")
                if i.op == 'br':
                    if not i.a:
                        nxt = i.x[0]
                    else:
                        c = i.a[0] if isinstance(i.a[0], tuple) and i.a[0][0] in ('reg', 'int') else i.a[0][1]
                        c = self.val(('i', 1), c, env)
                        if c is None:
                            raise Bad("branch on an undefined value")
                        nxt = i.x[0] if c else i.x[1]
                elif i.op == 'switch':
                    v = self.val(i.ty, i.a[0], env)
                    if not isinstance(v, int):
                        raise Bad("switch")
                    nxt = {c % (1 << i.ty[1]): t for c, t in i.x[1]}.get(v % (1 << i.ty[1]), i.x[0])
                elif i.op == 'ret':
                    if out is None:
                        raise Bad("no value is stored")
                    self.results.append(out)
                    return
                elif i.op == 'unreachable':
                    raise Bad("unreachable")
                elif i.op == 'store':
                    v = self.val(i.a[0][0], i.a[0][1], env) if isinstance(i.a[0][0], tuple) else self.val(i.ty, i.a[0], env)
                    p = self.val(('ptr',), i.a[1][1] if isinstance(i.a[1][0], tuple) else i.a[1], env)
                    if p == ('elem', 1):
                        out = v
                    elif isinstance(p, tuple) and p[0] == 'loc':
                        mem[p] = v
                    else:
                        raise Bad(f"store to {p}")
                else:
                    try:
                        env[i.res] = self.step(i, env, mem)
                    except Fork as fk:
                        for v in fk.vals:
                            work.append((b, k + 1, prev, {**env, i.res: v}, dict(mem), out))
                        return
            prev, b, n = b, nxt, 0

    def step(self, i, env, mem):
        op = i.op
        g = lambda k: self.val(i.ty, i.a[k], env)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = g(0), g(1)
            if 'nan' in (a, b):
                return 'nan'
            r = a + b if op == 'fadd' else a - b if op == 'fsub' else a * b if op == 'fmul' else a / b
            if op == 'fmul' and any(len(v.c) == 1 and v.e <= 1 and v.c[0] == ONE for v in (a, b)):
                return r
            return r.rnd(i.ty[1])
        if op == 'fneg':
            a = g(0)
            return a if a == 'nan' else -a
        if op == 'alloca':
            return ('loc', i.res)
        if op == 'gep':
            base = self.val(i.a[0][0], i.a[0][1], env)
            idx = [self.val(t, v, env) for t, v in i.a[1:]]
            if base[0] in ('args', 'dims', 'steps') and len(base) == 1:
                return (base[0], idx[0])
            if base[0] == 'elem':
                return base
            if base[0] == 'glob':
                return ('glob', base[1], idx[-1])
            raise Bad("address")
        if op == 'load':
            p = self.val(('ptr',), i.a[0][1] if isinstance(i.a[0][0], tuple) else i.a[0], env)
            if p == ('elem', 0):
                return self.x
            if p[0] in ('args', 'dims', 'steps'):
                k = p[1] if len(p) > 1 else 0
                return ('elem', k) if p[0] == 'args' else 1 if p[0] == 'dims' else 8
            if p in mem:
                return mem[p]
            if p[0] == 'loc' and i.ty == ('i', 8):
                return 0        # clear_floatstatus_barrier reads an uninitialised char
            if p[0] == 'glob':
                return self.table(p, i.ty)
            raise Bad(f"load from {p}")
        if op == 'fcmp':
            return self.fcmp(g(0), g(1), i.x)
        if op == 'icmp':
            return self.icmp(g(0), g(1), i.x, i.ty)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl') and i.ty[0] == 'i':
            a, b = g(0), g(1)
            if op == 'and' and False in (a, b) or op == 'and' and 0 in (a, b):
                return 0
            if op == 'or' and i.ty[1] == 1 and 1 in (a, b):
                return 1
            if not isinstance(a, int) or not isinstance(b, int):
                raise Bad(f"integer {op}")
            return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b, 'shl': a << (b & 63)}[op]
        if op == 'bitcast':
            return ('bits', self.val(i.x if isinstance(i.x, tuple) else i.ty, i.a[0], env))
        if op in ('fpext', 'sext', 'zext', 'trunc'):
            return self.val(i.x if isinstance(i.x, tuple) else i.ty, i.a[0], env)
        if op == 'fptrunc':
            a = self.val(i.x, i.a[0], env)
            return a if a == 'nan' else a.rnd(i.ty[1])
        if op in ('fptosi', 'fptoui'):
            a = self.val(i.x, i.a[0], env)
            lo, hi = a.lo(), a.hi()
            tr = lambda v: v >> S if v >= 0 else -((-v) >> S)
            lo, hi = tr(lo), tr(hi)
            if lo == hi:
                return lo
            if not self.forks or hi - lo > 3:
                m = (lo + hi + 1) // 2
                raise Ambiguous(root(a - TM([m << S])))
            raise Fork(*range(lo, hi + 1))
        if op in ('sitofp', 'uitofp'):
            a = self.val(i.x, i.a[0], env)
            if not isinstance(a, int):
                if isinstance(a, TM):
                    return a.rnd(i.ty[1])
                raise Bad("integer")
            return TM([a << S]) if abs(a) < 1 << U[i.ty[1]] else TM([a << S]).rnd(i.ty[1])
        if op == 'select':
            c = self.val(('i', 1), i.a[0], env)
            if c is None:
                raise Bad("undefined select")
            return self.val(i.ty, i.a[1] if c else i.a[2], env)
        if op == 'freeze':
            return g(0)
        if op == 'call':
            n = i.a[0][1][1:]
            a = [self.val(t, v, env) for t, v in i.a[1:]]
            if n.startswith('llvm.is.fpclass'):
                if a[0] == 'nan':
                    return 1 if a[1] & 3 else 0
                if not a[1] & ~(3 | 4 | 512):
                    return 0
            if n.startswith('llvm.fabs'):
                if a[0].lo() >= 0:
                    return a[0]
                if a[0].hi() <= 0:
                    return -a[0]
                raise Ambiguous(root(a[0]))
            if n.startswith('llvm.fma.') or n in ('fma', 'fmaf', 'fmal'):
                return 'nan' if 'nan' in a else (a[0] * a[1] + a[2]).rnd(i.ty[1])
            if n.startswith('llvm.fmuladd'):
                return (a[0] * a[1] + a[2]).rnd(i.ty[1]) + TM([0], (a[0] * a[1]).rnd(i.ty[1]).e - (a[0] * a[1]).e)
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'fetestexcept', 'feclearexcept', 'npy_')):
                return 0
            m = n[5:].split('.')[0] if n.startswith('llvm.') else n
            if i.ty[0] == 'f' and (m in LIBM or m[:-1] in LIBM and m[-1] in 'fl'):
                if a[0] == 'nan':
                    return 'nan'
                m = m if m in LIBM else m[:-1]
                v = LIBM[m](a[0])
                return TM(v.c, v.e + ULPS.get(m, 2) * (v.bound() >> U[i.ty[1]] - 1) + 2 * TINY[i.ty[1]])
            raise Bad(f"call of {n}")
        raise Bad(f"instruction {op}")

    def table(self, p, ty):
        txt = self.mod.globals.get(p[1], '')
        m = re.search(r'\bconstant\b', txt)
        if m is None or len(p) < 3 or not isinstance(p[2], int):
            raise Bad(f"load from {p}")
        k = (id(self.mod), p[1])
        if k not in _tables:
            c = ir.Cur(ir.tokens(txt[m.end():]), self.mod)
            t = self.mod.resolve(ir.ptype(c))
            _tables[k] = t, ir.pvalue(c, t)
        t, v = _tables[k]
        if t[0] != 'arr' or self.mod.resolve(t[2]) != ty or v[0] in ('zero', 'cstr') or not 0 <= p[2] < t[1]:
            raise Bad(f"load from {p}")
        return self.val(ty, v[1][p[2]][1], {})

    def fcmp(self, a, b, pred):
        if 'nan' in (a, b):
            return pred.startswith('u')
        d = a - b
        lo, hi = d.lo(), d.hi()
        p = pred[1:] if pred[0] in 'ou' else pred
        if pred == 'uno':
            return False
        if pred == 'ord':
            return True
        r = {'gt': (lo > 0, hi <= 0), 'lt': (hi < 0, lo >= 0), 'ge': (lo >= 0, hi < 0), 'le': (hi <= 0, lo > 0),
             'eq': (lo == hi == 0, lo > 0 or hi < 0), 'ne': (lo > 0 or hi < 0, lo == hi == 0)}[p]
        if r[0]:
            return True
        if r[1]:
            return False
        if not self.forks and p not in ('eq', 'ne'):
            raise Ambiguous(root(d))
        raise Fork(True, False)

    def icmp(self, a, b, pred, ty):
        if ('null',) in (a, b) and pred in ('eq', 'ne'):
            return (a == b) == (pred == 'eq')
        if isinstance(a, tuple) and a[0] == 'bits' and b == 0 and pred == 'slt':
            return self.fcmp(a[1], TM([0]), 'olt')      # the sign bit; -0 is covered as 0 (see the property on special values)
        if isinstance(a, TM) or isinstance(b, TM):
            a, b = (v if isinstance(v, TM) else TM([v << S]) for v in (a, b))
            if pred in ('eq', 'ne') or pred[0] == 's':
                return self.fcmp(a, b, {'eq': 'oeq', 'ne': 'one'}.get(pred, 'o' + pred[1:]))
        if not isinstance(a, int) or not isinstance(b, int):
            raise Bad("icmp of unknown")
        m = (1 << ty[1]) - 1
        if pred[0] == 'u':
            a, b, pred = a & m, b & m, 's' + pred[1:]
        elif pred in ('eq', 'ne'):
            a, b = a & m, b & m
        return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred]


_fpc = {}
_tables = {}


def const_value(txt, ty):
    k = (txt, ty)
    if k not in _fpc:
        if T.C is None:
            T.set_ctx(T.Ctx())
        c = fp_const(txt, {'float': 'f32', 'double': 'f64', 'x86_fp80': 'f80'}[ty]).c
        _fpc[k] = 'nan' if c in ('nan', 'inf', '-inf') else const(Fraction(0) if c == '-0' else c)
    return _fpc[k]


def root(d):
    """a point of (-1, 1) where d crosses zero, if one is found"""
    if len(d.c) < 2 or not d.c[1]:
        return None
    ev = lambda s: _horner(d.c, s)
    a, b = -ONE, ONE
    fa, fb = ev(a), ev(b)
    if (fa > 0) == (fb > 0):
        return None
    s = max(min(-(d.c[0] << S) // d.c[1], ONE - 1), 1 - ONE)
    for _ in range(200):
        f = ev(s)
        if abs(f) <= 64:
            break
        if (f > 0) == (fa > 0):
            a = s
        else:
            b = s
        df = _horner([k * c for k, c in enumerate(d.c)][1:], s)
        n = s - (f << S) // df if df else None
        s = n if n is not None and a < n < b else (a + b) // 2
        if b - a < 4:
            break
    return Fraction(s, ONE)


def _horner(c, s):
    v = 0
    for k in reversed(c):
        v = (v * s >> S) + k
    return v


# ------------------------------------------------------------------ the mathematical functions
def xvar(c, r):
    exact = all((q.numerator << S) % q.denominator == 0 for q in (c, r))
    return TM([sc(c), sc(r)], 0 if exact else 2)


def mpq(q):
    return mpmath.mpf(q.numerator) / q.denominator


def exp_tm(c, r):
    """exp(c + r*s)"""
    a, t, e0 = [], mpmath.exp(mpq(c)), 0
    rr = mpq(r)
    for k in range(N + 1):
        a.append(sc(t))
        t = t * rr / (k + 1)
    rest = t * mpmath.exp(rr)
    return TM(a, sc(rest) + N + 3)


# enclosures of f(a) for a Taylor model a: Taylor expansion of f at the midpoint of a, with a bound of the remainder
def compose(a, coef, tail):
    """sum coef[k]*h^k + tail where h = a - midpoint"""
    h = TM([0] + list(a.c[1:]), a.e)
    p = max(0, (h.bound() >> S).bit_length())
    if p:
        h = TM([v >> p for v in h.c], (h.e >> p) + len(h.c) + 1)
        coef = [mpmath.ldexp(v, p * k) for k, v in enumerate(coef)]
    v = TM([sc(coef[N])], 1)
    for k in range(N - 1, -1, -1):
        v = v * h + TM([sc(coef[k])], 1)
    return TM(v.c, v.e + sc(tail) + 2)


def mid(a):
    return mpmath.mpf(a.c[0]) / ONE, mpmath.mpf(a.var() + a.e) / ONE


def exp_of(a):
    c, h = mid(a)
    if h > 2:
        raise Ambiguous()
    e = mpmath.exp(c)
    return compose(a, [e / mpmath.factorial(k) for k in range(N + 1)], e * mpmath.exp(h) * h ** (N + 1) / mpmath.factorial(N + 1))


def log_of(a, one=0):
    c, h = mid(a)
    d = c + one
    if d <= 0 or h / d > 0.5:
        raise Ambiguous()
    q = h / d
    co = [mpmath.log1p(c) if one else mpmath.log(c)] + [-(-1 / d) ** k / k for k in range(1, N + 1)]
    return compose(a, co, q ** (N + 1) / (N + 1) / (1 - q))


def erfc_of(a):
    c, h = mid(a)
    k2 = 2 / mpmath.sqrt(mpmath.pi)
    e = [mpmath.exp(-c * c)]
    for n in range(N):
        e.append(-2 * (c * e[n] + (e[n - 1] if n else 0)) / (n + 1))
    co = [mpmath.erfc(c)] + [-k2 * e[n] / (n + 1) for n in range(N)]
    best = None
    for j in range(1, 12):
        R = h * 2 ** j
        t = k2 * h * e[0] * mpmath.exp(2 * abs(c) * R + R * R) * mpmath.mpf(2) ** (-j * N) * 2
        best = t if best is None else min(best, t)
    if best > abs(co[0]) + k2 * h * e[0]:
        raise Ambiguous()
    return compose(a, co, best)


def sqrt_of(a):
    c, h = mid(a)
    if c <= 0 or h / c > 0.5:
        raise Ambiguous()
    q, r = h / c, mpmath.sqrt(c)
    return compose(a, [r * mpmath.binomial(mpmath.mpf(1) / 2, k) / c ** k for k in range(N + 1)], r * q ** (N + 1) / (1 - q))


LIBM = {'exp': exp_of, 'log': log_of, 'log1p': lambda a: log_of(a, 1), 'erfc': erfc_of, 'sqrt': sqrt_of, 'expm1': lambda a: exp_of(a) - TM([ONE]),
        'erf': lambda a: TM([ONE]) - erfc_of(a), 'exp2': lambda a: exp_of(a * TM([sc(mpmath.log(2))], 1)),
        'log2': lambda a: log_of(a) * TM([sc(1 / mpmath.log(2))], 1), 'log10': lambda a: log_of(a) * TM([sc(1 / mpmath.log(10))], 1)}
ULPS = {'erfc': 6, 'erf': 6}        # assumed error of the C library's functions, in ulp; 2 for the others


_bern = {}


def ref_debye1(c, r):
    lo, hi = c - r, c + r
    if lo >= 200:
        # pi^2/6/x - sum over k of exp(-k x)(1/k + 1/(x k^2))
        v = xvar(c, r).inv() * TM([sc(mpmath.pi ** 2 / 6)], 1)
        return TM(v.c, v.e + 1 + sc(2 * mpmath.exp(-mpq(min(lo, Fraction(5000))))))
    if lo < 0 and hi > 0:
        raise Ambiguous(-c / r)
    if hi <= 0:
        v = ref_debye1(-c, r)
        return TM(flip(v.c), v.e) - xvar(c / 2, r / 2)
    x = xvar(c, r)
    if hi <= Fraction(1, 2):
        if not _bern:
            import math as m
            B = [Fraction(1)]
            for n in range(1, 41):
                B.append(-sum(Fraction(m.comb(n + 1, k)) * B[k] for k in range(n)) / (n + 1))
            f = 1
            for n in range(0, 41):
                f *= max(n, 1)
                if n % 2 == 0:
                    _bern[n // 2] = const(B[n] / ((n + 1) * f))
        x2 = x * x
        v = _bern[20]
        for k in range(19, -1, -1):
            v = v * x2 + _bern[k]
        # |B_2k|/(2k)! <= 4/(2 pi)^(2k): the tail after k = 20 is below 8*(hi/6)^42
        tail = 8 * Fraction(hi, 6) ** 42
        return TM(v.c, v.e + sc(tail) + 1) - x * const(Fraction(1, 4))
    b = x / (exp_tm(c, r) - TM([ONE]))
    # g(x) = integral from 0: g' = b; g(c) from the closed form
    cc = mpq(c)
    z = mpmath.exp(-cc)
    g0 = mpmath.pi ** 2 / 6 + cc * mpmath.log(1 - z) - mpmath.polylog(2, z).real
    R = sc(r)
    co = [sc(g0)] + [(a * R >> S) // (k + 1) for k, a in enumerate(b.c)]
    e = up(b.e, abs(R) + 1) + len(co) * 2 + 2
    tail = sum(abs(v) for v in co[N + 1:])
    return TM(co[:N + 1], e + tail) / x


def flip(c):
    return [-v if k % 2 else v for k, v in enumerate(c)]


def linear_ode(c, r, f, rec, kx, inhom, left):
    """enclosure of the solution f of f' = kx*f + inhom on the interval, kx of one sign: Taylor coefficients a_{n+1} = rec(a, n, c), the error from the
    residual, integrated from the end at which kx makes it decay"""
    cc, rr = mpq(c), mpq(r)
    with mpmath.workprec(3 * S):
        a = [f(cc)]
        for n in range(N):
            a.append(rec(a, n, cc))
        q = [sc(a[n] * rr ** n) for n in range(N + 1)]
        Q = TM(list(q))
        dq = TM([(n * q[n] << S) // sc(r) for n in range(1, N + 1)], 2 * N * ((ONE // sc(r)) + 2))
        res = dq - mul_full(kx, Q) - inhom
        end = f(cc - rr if left else cc + rr)
        e0 = abs(sc(end) - sum(v * (-1) ** k if left else v for k, v in enumerate(q))) + N + 3
    return TM(q, e0 + up(res.bound(), 2 * sc(r) + 2))


def ref_erfcx(c, r):
    """f' = 2 x f - 2/sqrt(pi)"""
    if c - r < 0 < c + r:
        raise Ambiguous(-c / r)
    k2 = 2 / mpmath.sqrt(mpmath.pi)
    x = xvar(c, r)
    if c - r >= 1000:
        # asymptotic series, alternating: the error is at most the first term left out
        y = x.inv()
        y2 = y * y * TM([ONE // 2])
        s, t = TM([ONE]), TM([ONE])
        for k in range(1, 12):
            t = -t * y2 * TM([(2 * k - 1) << S])
            s = s + t
        t = t * y2 * TM([23 << S])
        return TM(s.c, s.e + t.bound()) * y * TM([sc(k2 / 2)], 1)
    return linear_ode(c, r, lambda x: mpmath.exp(x * x) * mpmath.erfc(x), lambda a, n, cc: (2 * cc * a[n] + (2 * a[n - 1] if n else -k2)) / (n + 1),
                      x + x, TM([-sc(k2)], 2), c < 0)


def ref_expe1(c, r):
    """f = exp(x)*E1(x): f' = f - 1/x"""
    if c - r >= 200:
        y = xvar(c, r).inv()
        s, t = TM([ONE]), TM([ONE])
        for k in range(1, 26):
            t = -t * y * TM([k << S])
            s = s + t
        t = t * y * TM([26 << S])
        return TM(s.c, s.e + t.bound()) * y
    return linear_ode(c, r, lambda x: mpmath.exp(x) * mpmath.e1(x), lambda a, n, cc: (a[n] - (-1 / cc) ** n / cc) / (n + 1), TM([ONE]), -xvar(c, r).inv(), False)


def ref_expint1(c, r):
    if c > 1:
        return exp_of(-xvar(c, r)) * ref_expe1(c, r)
    # E1(x) = -gamma - log(x) + sum (-1)^(k+1) x^k/(k k!)
    x, p, s, f = xvar(c, r), TM([ONE]), -log_of(xvar(c, r)) - TM([sc(+mpmath.euler)], 1), 1
    for k in range(1, 80):
        p = p * x
        f *= k
        s = s + p * const(Fraction((-1) ** (k + 1), k * f))
    return TM(s.c, s.e + sc(mpq(c + r) ** 80 / mpmath.factorial(79)) + 1)


def ref_logexpint1(c, r):
    if c > 1:
        return log_of(ref_expe1(c, r)) - xvar(c, r)
    return log_of(ref_expint1(c, r))


def mirror(v):
    """the model of f(-x) as one of x"""
    return TM(flip(v.c), v.e)


def ref_cdf(c, r):
    return erfc_of(-xvar(c, r) * TM([sc(mpmath.sqrt(mpmath.mpf(1) / 2))], 1)) * TM([ONE // 2])


def ref_sf(c, r):
    return mirror(ref_cdf(-c, r))


def ref_logcdf(c, r):
    if c > 0:
        return log_of(-mirror(ref_cdf(-c, r)), 1)
    if c > -1:
        return log_of(ref_cdf(c, r))
    # Mills ratio at y = -x: m' = y m - 1; cdf(x) = m exp(-x^2/2)/sqrt(2 pi)
    y = xvar(-c, r)
    m = linear_ode(-c, r, lambda y: mpmath.sqrt(mpmath.pi / 2) * mpmath.exp(y * y / 2) * mpmath.erfc(y / mpmath.sqrt(2)),
                   lambda a, n, cc: (cc * a[n] + (a[n - 1] if n else -1)) / (n + 1), y, TM([-ONE]), False)
    v = log_of(m) - y * y * TM([ONE // 2]) - TM([sc(mpmath.log(2 * mpmath.pi) / 2)], 1)
    return TM(flip(v.c), v.e)


def ref_logsf(c, r):
    return mirror(ref_logcdf(-c, r))


def ref_logistic(c, r):
    return (TM([ONE]) + exp_of(-xvar(c, r))).inv()


def ref_logistic_deriv(c, r):
    if c > 0:
        return mirror(ref_logistic_deriv(-c, r))
    e = exp_of(xvar(c, r))
    d = TM([ONE]) + e
    return e / (d * d)


def ref_log_logistic(c, r):
    if c > 0:
        return -log_of(exp_of(-xvar(c, r)), 1)
    return xvar(c, r) - log_of(exp_of(xvar(c, r)), 1)


def ref_logfactorial(c, r):
    """Stirling's series: the error is at most the first term left out"""
    x = xvar(c, r)
    y = x.inv()
    y2 = y * y
    v = (x + TM([ONE // 2])) * log_of(x) - x + TM([sc(mpmath.log(2 * mpmath.pi) / 2)], 1)
    p, last = y, None
    for k in range(1, 20):
        t = p * TM([sc(mpmath.bernoulli(2 * k) / (2 * k * (2 * k - 1)))], 1)
        p = p * y2
        if k == 19:
            return TM(v.c, v.e + t.bound())
        v = v + t


def ref_loggamma1p(c, r):
    """log Gamma(1 + x), x > -1: coefficients from the Hurwitz zeta function"""
    d, rr = mpq(1 + c), mpq(r)
    if c - r > 200:
        return ref_logfactorial(c, r)
    if rr > d / 2:
        raise Ambiguous()
    co = [mpmath.loggamma(d), mpmath.digamma(d)] + [(-1) ** n * mpmath.zeta(n, d) / n for n in range(2, N + 1)]
    q = rr / d
    return TM([sc(a * rr ** n) for n, a in enumerate(co)], sc((1 + d) * q ** (N + 1) / (1 - q)) + N + 3)


def mul_full(a, b):
    global N
    n, N = N, 2 * N + 4
    try:
        return a * b
    finally:
        N = n


# ------------------------------------------------------------------ the check
def magnitude(F, kind, c, r):
    """lower bound, over the interval, of what the tolerance is relative to"""
    m = min(abs(F.lo()), abs(F.hi())) if F.lo() * F.hi() > 0 else 0
    if kind == 'quad':
        n = 1 + max(abs(c) - r, Fraction(0)) ** 2
        return m * n.numerator // n.denominator
    if kind == 'mixed':
        return max(m, ONE)
    return m


def cover(mod, f, ref, lo, hi, tol, stat, deadline, worst, FLOOR, kind='rel'):
    """prove the contract on [lo, hi]; returns the intervals where it could not be proved"""
    bad = []
    work = [(lo, hi)]
    split = lambda a, b: [(b, a)]
    while work:
        if time.time() > deadline or len(bad) > 20:
            bad += [(a, b, 'not reached' if len(bad) > 20 else 'out of time') for a, b in work]
            break
        a, b = work.pop()
        c, r = (a + b) / 2, (b - a) / 2
        fl = FLOOR * max(abs(c), 1)
        small = r <= fl
        try:
            res = Run(mod, f, xvar(c, r), forks=small).go()
            F = ref(c, r)
        except Ambiguous as e:
            if r <= fl / (1 << 20):
                bad.append((a, b, 'a branch could not be decided'))
                continue
            if e.at is not None and r > 4 * fl:
                m = dyadic(c + r * e.at)
                d = dyadic(fl / 2)
                parts = [(a, m - d), (max(a, m - d), min(b, m + d)), (m + d, b)]
                work += [(max(a, p), min(b, q)) for p, q in parts if min(b, q) > max(a, p)]
            else:
                work += [(a, c), (c, b)]
            continue
        except Bad as e:
            bad.append((a, b, str(e)))
            continue
        stat['intervals'] += 1
        m = magnitude(F, kind, c, r)
        ok = True
        for v in res:
            if v == 'nan':
                ok = False
                break
            d = (v - F).bound()
            if d > up(m, sc(tol)):
                ok = False
            elif m:
                worst[0] = max(worst[0], float(Fraction(d, m)))
        if ok:
            continue
        if r <= fl / 64 * min(1, abs(c)):
            bad.append((a, b, 'the error bound exceeds the tolerance'))
        else:
            work += [(a, c), (c, b)]
    return bad


def dyadic(q):
    return Fraction(round(q * (1 << 190)), 1 << 190)


Q = Fraction
E_ = {'f': Q(1, 1 << 24), 'd': Q(1, 1 << 53), 'g': Q(1, 1 << 64)}
LO64, HI60 = Q(1, 1 << 64), Q(1 << 60)
# module, attr, type, lower end, upper end, kind, tolerance in units of 2^-p, bits of the fixed point numbers
CONTRACTS = []


def contract(mod, attr, ty, lo, hi, kind, units, bits=200):
    CONTRACTS.append((mod, attr, ty, Q(lo), Q(hi), kind, units, bits))


for t_, d_ in (('f', 6), ('d', 400)):
    contract('_debye1', 'debye1', t_, -HI60, 0, 'rel', d_)
    contract('_debye1', 'debye1', t_, 0, HI60, 'rel', d_)
    top_ = 1 << (124 if t_ == 'f' else 1020)
    contract('_debye1', 'debye1', t_, -top_, -HI60, 'rel', d_, 400 if t_ == 'f' else 1250)
    contract('_debye1', 'debye1', t_, HI60, top_, 'rel', d_, 400 if t_ == 'f' else 1250)
for t_, lo_, u_ in (('f', '-9.38', 50), ('d', '-26.62', 150), ('g', '-106.5', 400)):
    contract('normal', 'erfcx', t_, lo_, 0, 'quad', u_)
    contract('normal', 'erfcx', t_, 0, HI60, 'rel', u_)
for t_, u_, hi_, bits_ in (('f', 100, 85, 200), ('d', 200, 700, 1250), ('g', 4000, 100, 400)):
    contract('_expint1', 'expint1', t_, LO64, 64, 'rel', u_)
    contract('_expint1', 'expint1', t_, 64, hi_, 'rel', u_, bits_)
    contract('_expint1', 'logexpint1', t_, LO64, HI60, 'mixed', u_)
    for n_, s_ in (('cdf', 1), ('sf', -1), ('logcdf', 1), ('logsf', -1)):
        log_ = n_[:3] == 'log'
        for lo_, hi_, bits_ in ((-12, 0, 200), (0, 12, 200), (-100, -12, 200) if log_ else (-37 if t_ == 'd' and n_ == 'cdf' else -16, -12, 1250 if t_ == 'd' and n_ == 'cdf' else 400)):
            if t_ != 'f' or lo_ != -16:
                contract('normal', n_, t_, min(s_ * lo_, s_ * hi_), max(s_ * lo_, s_ * hi_), 'rel' if log_ and lo_ < 0 else 'quad', 50, bits_)
for t_, u_ in (('f', 8), ('d', 400)):
    contract('_loggamma1p', 'loggamma1p', t_, Q(1, 1 << (25 if t_ == 'f' else 50)) - 1, Q(-1, 4), 'mixed', u_)
    contract('_loggamma1p', 'loggamma1p', t_, Q(-1, 4), -LO64, 'rel', u_)
    contract('_loggamma1p', 'loggamma1p', t_, LO64, Q(9, 10), 'rel', u_)
    contract('_loggamma1p', 'loggamma1p', t_, Q(9, 10), HI60, 'mixed', u_)
for t_ in 'fdg':
    for n_ in ('logistic', 'logistic_deriv', 'log_logistic'):
        contract('_logistic', n_, t_, -80, 80, 'rel', 24, 400)
contract('_logfact', 'logfactorial', 'd', 126, 1 << 63, 'rel', 24)


def pieces(lo, hi):
    """geometric subintervals"""
    out = []
    if lo < 0 < hi:
        return pieces(lo, Q(0)) + pieces(Q(0), hi)
    if hi <= 0:
        return [(-b, -a) for a, b in pieces(-hi, -lo)]
    a = lo
    if lo == 0:
        out.append((Q(0), LO64))
        a = LO64
    while a < hi:
        w = Q(1)
        while w * 2 <= a:
            w *= 2
        while w > a:
            w /= 2
        w = w / 4 if Q(1, 8) < a < 128 else w * 2
        b = min(hi, (a // w + 1) * w)
        out.append((a, b))
        a = b
    return out


_m = {}
CHARS = '?bBhHiIlLqQfdgFDGO'


def task(a):
    root, mod, attr, fn, ty, lo, hi, kind, units, bits, deadline = a
    t = time.time()
    if (root, mod) not in _m:
        _m[root, mod] = ir.parse_module(f'{root}/build/{mod}.ll')
    M = _m[root, mod]
    k = (root, mod, fn)
    stat, worst = dict(intervals=0), [0.0]
    try:
        if k not in _m:
            _m[k] = ir.expand(M, ir.get_func(M, '@' + fn))
        if bits != S:
            precision(bits)
        floor = Q(1, {'f': 1 << 24, 'd': 1 << 49, 'g': 1 << 60}[ty])
        bad = cover(M, _m[k], globals()['ref_' + attr], lo, hi, units * E_[ty], stat, min(deadline, time.time() + 400), worst, floor, kind)
    except Exception as e:
        bad = [(lo, hi, f"{type(e).__name__}: {e}")]
    return bad, stat['intervals'], worst[0], time.time() - t


EVAL = """
import sys, importlib.util, numpy as np
so, mod, attr, i, o = sys.argv[1:]
s = importlib.util.spec_from_file_location(mod, so)
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)
np.seterr(all='ignore')
np.save(o, np.asarray(getattr(m, attr)(np.load(i))))
"""


def exact(v):
    import numpy as np
    m, e = np.frexp(np.longdouble(v))
    return Fraction(int(m * np.longdouble(2) ** 64)) * Fraction(2) ** (int(e) - 64)


def confirm(root, mod, attr, ty, kind, units, bits, bad):
    """an argument at which the compiled code misses the tolerance, inside the rejected intervals"""
    import numpy as np
    so = X.build_so(root, mod, native=True, tag='n')
    dt = np.dtype(ty if mod != '_logfact' else 'q')
    rng = np.random.default_rng(1)
    pts = []
    for a, b, _ in bad[:24]:
        fr = [0, 1, .5] + list(rng.random(60 if len(bad) > 4 else 400))
        for t in fr:
            q = a + (b - a) * Fraction(float(t))
            v = np.longdouble(q.numerator >> max(q.numerator.bit_length() - 64, 0)) if False else np.longdouble(float(q)) + np.longdouble(float(q - Fraction(float(q))))
            pts.append(dt.type(v) if dt.kind == 'f' else dt.type(int(q)))
    pts = np.array([p for p in pts if p == p], dt)
    i, o = f'{root}/build/acc_in.npy', f'{root}/build/acc_out.npy'
    np.save(i, pts)
    X.sh([X.PY, '-c', EVAL, so, mod, attr, i, o], env=X.clean_env(), cwd=root)
    out = np.load(o)
    precision(max(bits, 400))
    lo_, hi_ = min(a for a, b, _ in bad), max(b for a, b, _ in bad)
    best = None
    for x, y in zip(pts, out):
        c = exact(x) if dt.kind == 'f' else Fraction(int(x))
        if not lo_ <= c <= hi_ or c == 0:
            continue
        try:
            F = globals()['ref_' + attr](c, abs(c) / (1 << 90))
        except Ambiguous:
            continue
        m = magnitude(F, kind, c, Fraction(0))
        if m == 0:
            continue
        if not np.isfinite(y):
            return dict(what=f"{attr}({x!r}) is {y!r}, not {float(Fraction(F.c[0], ONE))!r}", input=dict(x=repr(x)), function=attr)
        err = abs(exact(y) - Fraction(F.c[0], ONE)) - Fraction(F.bound() - abs(F.c[0]), ONE)
        ratio = float(err * ONE / m / (units * E_[ty]))
        if ratio > 1 and (best is None or ratio > best[0]):
            best = (ratio, x, y, F)
    if best:
        r, x, y, F = best
        return dict(what=f"{attr}({x!r}) returns {y!r}; the value is {mpmath.nstr(mpmath.mpf(F.c[0]) / ONE, 22)}: the error is {r:.3g} times the tolerance",
                    input=dict(x=repr(x), type=ty), function=attr)
    return None


ASSUMED = ["accuracy: the C library's exp, log and log1p are within 2 ulp and erfc is within 6 ulp in all three precisions; IEEE rounding to nearest of every operation",
           "accuracy: mpmath's exp, log, erfc, E1, polylog, zeta, loggamma at single points (twice the working precision)",
           "accuracy: arguments are real intervals; NaN, infinities and the sign of zero belong to the property on special values"]


def accuracy(root, tables, o):
    from .check import Failure
    jobs, own, fails = [], [], []
    r = dict(obligations=0, discharged=0, functions=[], failures=fails, assumed=set(ASSUMED), coverage={}, kinds={})
    stop = min(o.get('deadline', time.time() + 600) - 60, time.time() + (500 if o['tier'] == 'quick' else 2500))
    for ci, (mod, attr, ty, lo, hi, kind, units, bits) in enumerate(CONTRACTS):
        us = [u for u in tables.get(mod, {}).get('ufuncs', ()) if u['attr'] == attr]
        ls = [l for l in us[0]['loops'] if CHARS[l['types'][-1]] == ty] if us else []
        if mod == '_logfact':
            ls = [l for l in ls if CHARS[l['types'][0]] in 'lq']
        if not ls:
            fails.append(Failure(mod, attr, ty, 0, f"no {ty} loop is registered", kind='acc'))
            continue
        for a, b in pieces(lo, hi):
            jobs.append((root, mod, attr, ls[0]['func'], ty, a, b, kind, units, bits, stop))
            own.append(ci)
    # the arguments that are not real numbers, of the function no other property covers: evaluated, all of them
    if '_debye1' in tables:
        import numpy as np
        so = X.build_so(root, '_debye1', native=True, tag='n')
        i, f_ = f'{root}/build/acc_in.npy', f'{root}/build/acc_out.npy'
        for ty in 'fd':
            np.save(i, np.array([np.nan, np.inf, -np.inf, 0.0, -0.0], ty))
            X.sh([X.PY, '-c', EVAL, so, '_debye1', 'debye1', i, f_], env=X.clean_env(), cwd=root)
            y = np.load(f_)
            r['obligations'] += 5
            ok = [bool(np.isnan(y[0])), y[1] == 0, y[2] == np.inf, y[3] == 1, y[4] == 1]
            r['discharged'] += sum(bool(v) for v in ok)
            if not all(ok):
                fl = Failure('_debye1', 'debye1', ty, 0, "debye1 of nan, inf, -inf, 0, -0 is not nan, 0, inf, 1, 1", ["special arguments of debye1"], kind='acc')
                fl.found = dict(what=f"debye1([nan, inf, -inf, 0, -0]) is {y.tolist()}", input=dict(type=ty), function='debye1')
                fails.append(fl)
    # the expensive ones first
    order = sorted(range(len(jobs)), key=lambda k: (-jobs[k][9], jobs[k][1] != '_expint1', k))
    res, n, cpu = {}, 0, 0
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for k, v in zip(order, ex.map(task, [jobs[k] for k in order], chunksize=1)):
            res[k] = v
    byc = {}
    for k, ci in enumerate(own):
        bad, ni, w, s = res[k]
        n, cpu = n + ni, cpu + s
        c = byc.setdefault(ci, [0, 0, 0, []])
        c[0] += 1
        c[1] += not bad
        c[2] = max(c[2], w)
        c[3] += bad
    table, late = [], []
    seen = {}
    for ci, (no, nd, w, bad) in byc.items():
        mod, attr, ty, lo, hi, kind, units, bits = CONTRACTS[ci]
        r['obligations'] += no
        r['discharged'] += nd
        f = f"{mod}.{attr}[{ty}]"
        if f not in r['functions']:
            r['functions'].append(f)
        table.append(dict(function=f, domain=[float(lo), float(hi)], relative_to={'rel': '|f|', 'quad': '(1+x^2)|f|', 'mixed': 'max(1,|f|)'}[kind],
                          tolerance=float(units * E_[ty]), bound_proved=w, pieces=no, discharged=nd))
        if bad:
            fl = Failure(mod, attr, ty, 0, f"accuracy: {attr}[{ty}] on [{float(bad[0][0])!r}, {float(bad[0][1])!r}]: {bad[0][2]}",
                         [f"accuracy {attr}[{ty}] [{float(a)!r}, {float(b)!r}]" for a, b, _ in bad[:10]],
                         '\n'.join(f"[{float(a)!r}, {float(b)!r}]: {w}" for a, b, w in bad[:40]), kind='acc')
            if seen.get(f, 0) < 2 and len(seen) < 6:
                seen[f] = seen.get(f, 0) + 1
                try:
                    fl.found = confirm(root, mod, attr, ty, kind, units, bits, bad)
                except Exception as e:
                    fl.output += f"\nno input searched: {type(e).__name__}: {e}"
            if all(w == 'out of time' for _, _, w in bad) and not getattr(fl, 'found', None):
                # the machine was too slow for the time a run is given: undischarged, not refuted
                late.append(f"{attr}[{ty}] on [{float(bad[0][0])!r}, {float(bad[-1][1])!r}]: out of time")
                continue
            fails.append(fl)
    r['kinds'] = dict(accuracy=r['obligations'])
    r['coverage']['accuracy'] = dict(contracts=table, undischarged_out_of_time=late, taylor_models=n, cpu_seconds=round(cpu, 1), back_end="Taylor models, degree 16, 200 to 1250 bit fixed point, rigorous remainders")
    return r
