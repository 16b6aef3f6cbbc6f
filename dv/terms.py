"""Value domain of the verifier: polynomial integers over z3 atoms, floating-point values as an
uninterpreted sort with an exact order (rank) and NaN predicate, pointers, objects."""
import time
from fractions import Fraction
import z3

Z = z3


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ context
MISSING = object()


class Ctx:
    """One verification context: a z3 solver, path assumptions (scoped) and axiom instances (global)."""

    def __init__(self, timeout_ms=4000, light=False):
        self.light = light
        self.s = z3.SolverFor("AUFLIRA") if False else z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.s.set("random_seed", 1)
        self.timeout = timeout_ms
        self.ax = []
        self.ptr = 0
        self.stack = []
        self.nq = 0
        self.tq = 0.0
        self.unknowns = 0
        self.fresh = 0
        self.seen = set()
        self.trail = []
        self.keep = []
        self.path = []          # python mirror of path assumptions (for smt2 dumps)
        self.hooks = []
        self.dry = False        # inside an abstract pass: no axiom instances are needed

    def push(self):
        self.stack.append((self.ptr, len(self.path), len(self.ax), len(self.trail)))
        self.s.push()

    def pop(self):
        self.s.pop()
        self.ptr, n, na, nt = self.stack.pop()
        del self.path[n:]
        # axiom instances made inside the scope go with it (they are made again when needed)
        del self.ax[na:]
        while len(self.trail) > nt:
            d, k, old = self.trail.pop()
            if old is MISSING:
                if isinstance(d, set):
                    d.discard(k)
                else:
                    d.pop(k, None)
            else:
                d[k] = old

    def mark(self, key):
        if key in self.seen:
            return False
        self.seen.add(key)
        self.trail.append((self.seen, key, MISSING))
        return True

    def setitem(self, d, k, v):
        self.trail.append((d, k, d.get(k, MISSING)))
        d[k] = v

    def axiom(self, e, key=None):
        """universally valid instance"""
        if key is not None:
            if not self.mark(key):
                return
        if e is True:
            return
        self.ax.append(e)

    def heavy(self, e, key=None):
        """an instance of the floating-point axioms; left out in the light theory (uninterpreted arithmetic)"""
        if not self.light:
            self.axiom(e, key)

    def assume(self, e):
        if e is True or e is None:
            return
        if e is False:
            e = z3.BoolVal(False)
        self.path.append(e)
        self.s.add(e)

    def flush(self):
        while self.ptr < len(self.ax):
            self.s.add(self.ax[self.ptr])
            self.ptr += 1

    def check(self, *extra):
        self.flush()
        t = time.time()
        r = self.s.check(*extra)
        self.tq += time.time() - t
        self.nq += 1
        return r

    def feasible(self, e=None):
        if e is True:
            e = None
        if e is False:
            return False
        if e is None:
            return self.check() != z3.unsat
        return self.check(e) != z3.unsat

    def prove(self, g, timeout=None):
        """True / False(refuted or unknown); self.last holds the solver answer"""
        if g is True:
            self.last = 'trivial'
            return True
        if g is False:
            g = z3.BoolVal(False)
        if timeout:
            self.s.set("timeout", timeout)
        self.s.push()
        self.flush_local(z3.Not(g))
        t = time.time()
        r = self.s.check()
        self.tq += time.time() - t
        self.nq += 1
        self.last = str(r)
        if r == z3.unknown:
            self.unknowns += 1
            self.last = 'unknown: ' + self.s.reason_unknown()
        self.s.pop()
        if timeout:
            self.s.set("timeout", self.timeout)
        return r == z3.unsat

    def flush_local(self, g):
        self.flush_outer()
        self.s.add(g)

    def flush_outer(self):
        # inside a temporary push: assert pending axioms here too, pointer untouched
        for i in range(self.ptr, len(self.ax)):
            self.s.add(self.ax[i])

    def int(self, name):
        self.fresh += 1
        return Poly.atom(z3.Int(f"{name}!{self.fresh}"))

    def name(self, n):
        self.fresh += 1
        return f"{n}!{self.fresh}"

    def bool(self, name):
        self.fresh += 1
        return z3.Bool(f"{name}!{self.fresh}")


C = None  # current context


def set_ctx(c):
    global C
    C = c


# ------------------------------------------------------------------ booleans
def is_sym(b):
    return isinstance(b, z3.ExprRef)


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        if not is_sym(x):
            if not bool(x):
                return False
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        if not is_sym(x):
            if bool(x):
                return True
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(a):
    if not is_sym(a):
        return not bool(a)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not is_sym(a):
        return b if bool(a) else Not(b)
    if not is_sym(b):
        return a if bool(b) else Not(a)
    return a == b


def zb(b):
    return b if is_sym(b) else z3.BoolVal(bool(b))


# ------------------------------------------------------------------ polynomials
_atoms = []
_atom_ix = {}


def _atom(e):
    i = _atom_ix.get(e.get_id())
    if i is None:
        i = len(_atoms)
        _atoms.append(e)
        _atom_ix[e.get_id()] = i
    return i


def reset_atoms():
    _atoms.clear()
    _atom_ix.clear()


class Poly:
    __slots__ = ('d', '_z', '_k')

    def __init__(self, d):
        self.d = d
        self._z = None
        self._k = None

    @staticmethod
    def const(c):
        return Poly({(): int(c)} if c else {})

    @staticmethod
    def atom(e):
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        return Poly({(_atom(e),): 1})

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, (int,)):
            return Poly.const(x)
        if is_sym(x):
            return Poly.atom(x)
        raise TypeError(x)

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def __add__(self, o):
        o = Poly.of(o)
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        o = Poly.of(o)
        d = {}
        for m, c in self.d.items():
            for m2, c2 in o.d.items():
                k = tuple(sorted(m + m2))
                v = d.get(k, 0) + c * c2
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
        return Poly(d)
    __rmul__ = __mul__

    def z(self):
        if self._z is None:
            ts = []
            for m, c in sorted(self.d.items()):
                if not m:
                    ts.append(z3.IntVal(c))
                    continue
                t = _atoms[m[0]]
                for i in m[1:]:
                    t = t * _atoms[i]
                ts.append(t if c == 1 else z3.IntVal(c) * t)
            self._z = z3.IntVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)
        return self._z

    def atoms(self):
        return {i for m in self.d for i in m}

    def _cmp(self, o, f):
        df = self - o
        if df.isconst():
            return f(df.cval(), 0)
        # move negative part right for readability
        return f(self.z(), Poly.of(o).z())

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def eq(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def same(self, o):
        return (self - o).d == {}

    def subst(self, pairs):
        """pairs: list of (z3 int const, Poly)"""
        ids = {e.get_id(): p for e, p in pairs}
        r = Poly({})
        z3pairs = [(e, p.z()) for e, p in pairs]
        for m, c in self.d.items():
            t = Poly.const(c)
            for i in m:
                a = _atoms[i]
                if a.get_id() in ids:
                    t = t * ids[a.get_id()]
                elif a.num_args() > 0:
                    t = t * Poly.atom(z3.substitute(a, *z3pairs))
                else:
                    t = t * Poly.atom(a)
            r = r + t
        return r

    def __repr__(self):
        return str(self.z())

    def __bool__(self):
        raise TypeError("symbolic int used as bool")


def P(x):
    return Poly.of(x)


class IV:
    """machine integer: signed view s and/or unsigned view u (mathematical integers), or a bit-vector"""
    __slots__ = ('bits', '_s', '_u', 'bv', 'alt')

    def __init__(self, bits, s=None, u=None, bv=None):
        self.bits, self._s, self._u, self.bv = bits, s, u, bv
        self.alt = {}           # the other view: valid on the current path only

    def s(self):
        if self._s is None:
            if self._u is None:
                self._u = self.frombv()
            v = self.alt.get('s')
            if v is None:
                v = view(self._u, self.bits, True)
                C.setitem(self.alt, 's', v)
            return v
        return self._s

    def u(self):
        if self._u is None:
            if self._s is None:
                self._u = self.frombv()
            else:
                v = self.alt.get('u')
                if v is None:
                    v = view(self._s, self.bits, False)
                    C.setitem(self.alt, 'u', v)
                return v
        return self._u

    def frombv(self):
        return Poly.atom(z3.BV2Int(self.bv, False))

    def tobv(self):
        if self.bv is None:
            x = self._s if self._s is not None else self._u
            if x.isconst():
                self.bv = z3.BitVecVal(x.cval(), self.bits)
            else:
                self.bv = z3.Int2BV(x.z(), self.bits)
        return self.bv

    def __repr__(self):
        return f"i{self.bits}:{self._s if self._s is not None else ('u', self._u) if self._u is not None else self.bv}"


def view(x, bits, signed):
    """other view of x (signed from unsigned, or unsigned from signed)"""
    half, full = 1 << (bits - 1), 1 << bits
    if x.isconst():
        v = x.cval() % full
        return Poly.const(v - full if signed and v >= half else v)
    if signed:
        c = x < half
    else:
        c = x >= 0
    if c is True or C.prove(c):
        return x
    if C.prove(Not(c)):
        return x - full if signed else x + full
    return Poly.atom(z3.If(zb(c), x.z(), (x - full if signed else x + full).z()))


def wrap(x, bits, signed=True):
    """x reduced modulo 2^bits into the signed/unsigned range"""
    half, full = 1 << (bits - 1), 1 << bits
    lo, hi = (-half, half) if signed else (0, full)
    if x.isconst():
        v = (x.cval() - lo) % full + lo
        return Poly.const(v)
    inr = And(x >= lo, x < hi)
    if inr is True or C.prove(inr):
        return x
    for k in (1, -1):
        y = x - k * full
        if C.prove(And(y >= lo, y < hi)):
            return y
    r = C.int('wrap')
    q = C.int('wq')
    C.axiom(And(r >= lo, r < hi, x.eq(r + q * full)))
    return r


# ------------------------------------------------------------------ floats
FT = {'half': 'f16', 'float': 'f32', 'double': 'f64', 'x86_fp80': 'f80'}
SORT = {k: z3.DeclareSort(k.upper()) for k in ('f16', 'f32', 'f64', 'f80')}
NANF = {k: z3.Function('nan_' + k, s, z3.BoolSort()) for k, s in SORT.items()}
RKF = {k: z3.Function('rk_' + k, s, z3.RealSort()) for k, s in SORT.items()}
INF = z3.Real('INF')
MANT = {'f16': 11, 'f32': 24, 'f64': 53, 'f80': 64}
FMAX = {'f16': Fraction(65504), 'f32': Fraction((2**24 - 1) * 2**104), 'f64': Fraction((2**53 - 1) * 2**971),
        'f80': Fraction((2**64 - 1) * 2**16320)}
FMINSUB = {'f16': Fraction(1, 2**24), 'f32': Fraction(1, 2**149), 'f64': Fraction(1, 2**1074), 'f80': Fraction(1, 2**16445)}
_ufs = {}


def uf(name, *sorts):
    k = (name, tuple(s.name() for s in sorts))
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


def realval(fr):
    return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def rq(fr):
    return z3.Q(fr.numerator, fr.denominator)


_tv = None
_tmpl = {}


def tmpl(name, build, r, a, b):
    """the axiom instance build(nan r, nan a, nan b, rk r, rk a, rk b), made by substitution into a template"""
    global _tv
    if _tv is None:
        _tv = [z3.Bool(f'tm!n{i}') for i in range(3)] + [z3.Real(f'tm!r{i}') for i in range(3)]
    e = _tmpl.get(name)
    if e is None:
        e = _tmpl[name] = build(*_tv)
    return z3.substitute(e, *zip(_tv, (r.nan(), a.nan(), b.nan(), r.rk(), a.rk(), b.rk())))


class FV:
    __slots__ = ('ty', 't', 'c', 'op')

    def __init__(self, ty, t, c=None, op=None):
        self.ty, self.t, self.c, self.op = ty, t, c, op   # c: ('v',Fraction)|'nan'|'inf'|'-inf'|'-0'; op: structural info
        k = ('fv', t.get_id())
        if C.mark(k):
            C.keep.append(t)
            if c is None:
                C.ax.append(z3.Or(self.nan(), z3.And(self.rk() <= INF, self.rk() >= -INF)))

    def nan(self):
        if self.c is not None:
            return z3.BoolVal(self.c == 'nan')
        return NANF[self.ty](self.t)

    def rk(self):
        return RKF[self.ty](self.t)

    def __repr__(self):
        return f"{self.ty}:{self.t}"

    def __lt__(self, o):
        return fcmp('olt', self, fcoerce(self, o))

    def __le__(self, o):
        return fcmp('ole', self, fcoerce(self, o))

    def __gt__(self, o):
        return fcmp('ogt', self, fcoerce(self, o))

    def __ge__(self, o):
        return fcmp('oge', self, fcoerce(self, o))

    def __add__(self, o):
        return fadd(self, fcoerce(self, o))

    def __radd__(self, o):
        return fadd(fcoerce(self, o), self)

    def __sub__(self, o):
        return fsub(self, fcoerce(self, o))

    def __rsub__(self, o):
        return fsub(fcoerce(self, o), self)

    def __mul__(self, o):
        return fmul(self, fcoerce(self, o))

    def __rmul__(self, o):
        return fmul(fcoerce(self, o), self)

    def __truediv__(self, o):
        return fdiv(self, fcoerce(self, o))

    def __rtruediv__(self, o):
        return fdiv(fcoerce(self, o), self)

    def __neg__(self):
        return fneg(self)

    def __bool__(self):
        raise TypeError("symbolic float used as bool")


def fcoerce(like, o):
    if isinstance(o, FV):
        if o.ty != like.ty:
            raise TypeError(f"mixed float types {like.ty} {o.ty}")
        return o
    if isinstance(o, (int, Fraction)):
        return fconst(like.ty, Fraction(o))
    if isinstance(o, float):
        if o != o:
            return fconst(like.ty, 'nan')
        if o in (float('inf'), float('-inf')):
            return fconst(like.ty, 'inf' if o > 0 else '-inf')
        return fconst(like.ty, Fraction(o))
    raise TypeError(o)


def round_to(fr, ty):
    """round-to-nearest-even of an exact rational to format ty -> Fraction | 'inf' | '-inf'"""
    if fr == 0:
        return fr
    s = 1 if fr > 0 else -1
    a = abs(fr)
    p = MANT[ty]
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if a >= Fraction(2) ** (e + 1):
        e += 1
    elif a < Fraction(2) ** e:
        e -= 1
    q = max(e - p + 1, {'f16': -24, 'f32': -149, 'f64': -1074, 'f80': -16445}[ty])
    u = Fraction(2) ** q
    n = a / u
    f = n.numerator // n.denominator
    r = n - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f % 2):
        f += 1
    v = f * u
    if v > FMAX[ty]:
        return 'inf' if s > 0 else '-inf'
    return s * v


def fconst(ty, c):
    """c: Fraction exact value, 'nan','inf','-inf','-0'"""
    if isinstance(c, Fraction):
        c = round_to(c, ty)
    nm = f"c_{ty}_{c}"
    t = z3.Const(nm, SORT[ty])
    k = ('fc', nm)
    if C.mark(k):
        C.keep.append(t)
        if c == 'nan':
            C.ax.append(NANF[ty](t))
        else:
            C.ax.append(z3.Not(NANF[ty](t)))
            r = INF if c == 'inf' else -INF if c == '-inf' else rq(Fraction(0) if c == '-0' else c)
            C.ax.append(RKF[ty](t) == r)
        if isinstance(c, Fraction):
            C.ax.append(z3.And(INF > rq(abs(c)), INF > 0))
    return FV(ty, t, c)


def cfrac(f):
    return Fraction(0) if f.c == '-0' else f.c if isinstance(f.c, Fraction) else None


def fneg(a):
    if a.c is not None:
        if a.c == 'nan':
            return a
        if a.c == 'inf' or a.c == '-inf':
            return fconst(a.ty, '-inf' if a.c == 'inf' else 'inf')
        if a.c == '-0':
            return fconst(a.ty, Fraction(0))
        return fconst(a.ty, '-0' if a.c == 0 else -a.c)
    if a.op and a.op[0] == 'neg':
        return a.op[1]
    t = uf('fneg_' + a.ty, SORT[a.ty], SORT[a.ty])(a.t)
    r = FV(a.ty, t, None, ('neg', a))
    C.axiom(z3.And(r.nan() == a.nan(), r.rk() == -a.rk(), uf('fneg_' + a.ty, SORT[a.ty], SORT[a.ty])(t) == a.t), ('neg', t.get_id()))
    return r


def fabs(a):
    if a.c is not None:
        if a.c in ('nan', 'inf'):
            return a
        if a.c == '-inf':
            return fconst(a.ty, 'inf')
        return fconst(a.ty, abs(cfrac(a)))
    if a.op and a.op[0] == 'neg':
        return fabs(a.op[1])
    if a.op and a.op[0] == 'abs':
        return a
    t = uf('fabs_' + a.ty, SORT[a.ty], SORT[a.ty])(a.t)
    r = FV(a.ty, t, None, ('abs', a))
    C.axiom(z3.And(r.nan() == a.nan(), r.rk() == z3.If(a.rk() >= 0, a.rk(), -a.rk())), ('abs', t.get_id()))
    return r


def _bin(name, a, b, comm=False):
    if comm and b.t.get_id() < a.t.get_id():
        a, b = b, a
    f = uf(f'{name}_{a.ty}', SORT[a.ty], SORT[a.ty], SORT[a.ty])
    t = f(a.t, b.t)
    if comm:
        C.axiom(t == f(b.t, a.t), ('comm', t.get_id()))
    return FV(a.ty, t, None, (name, a, b)), a, b


def fold2(a, b, f):
    x, y = cfrac(a), cfrac(b)
    if x is None or y is None:
        return None
    v = f(x, y)
    if v is None:
        return None
    if v == 0:
        return None
    return fconst(a.ty, v)


def _ax_add(nr, na, nb, rr, ra, rb):
    return z3.And(
        nr == z3.Or(na, nb, z3.And(ra == INF, rb == -INF), z3.And(ra == -INF, rb == INF)),
        z3.Or(nr, z3.And(
            (rr > 0) == (ra + rb > 0), (rr < 0) == (ra + rb < 0),
            z3.Implies(rb >= 0, rr >= ra), z3.Implies(rb <= 0, rr <= ra),
            z3.Implies(ra >= 0, rr >= rb), z3.Implies(ra <= 0, rr <= rb),
            z3.Implies(rb == 0, rr == ra), z3.Implies(ra == 0, rr == rb),
            z3.Implies(z3.Or(ra == INF, rb == INF), rr == INF),
            z3.Implies(z3.Or(ra == -INF, rb == -INF), rr == -INF))))


def fadd(a, b):
    if a.ty != b.ty:
        raise TypeError('fadd')
    if a.c is not None and b.c is not None:
        r = fold2(a, b, lambda x, y: x + y)
        if r is not None:
            return r
    if a.c == 'nan':
        return a
    if b.c == 'nan':
        return b
    if a.t.eq(b.t):
        return fmul(a, fconst(a.ty, Fraction(2)))
    r, a, b = _bin('fadd', a, b, True)
    k = ('fadd', r.t.get_id())
    if not C.light and not C.dry and C.mark(k):
        C.heavy(tmpl('fadd', _ax_add, r, a, b))
    return r


def fsub(a, b):
    return fadd(a, fneg(b))


def _strip(a):
    if a.op and a.op[0] == 'neg':
        return a.op[1], True
    if isinstance(a.c, Fraction) and a.c < 0:
        return fneg(a), True
    if a.c in ('-0', '-inf'):
        return fneg(a), True
    return a, False


def hasneg(x, depth=5):
    """a conditional with a negated branch: products are distributed over it so that signs normalise"""
    return depth > 0 and bool(x.op) and x.op[0] == 'ite' and any((z.op and z.op[0] == 'neg') or hasneg(z, depth - 1) for z in x.op[2:])


def _ax_mul(nr, na, nb, rr, ra, rb):
    return nr == z3.Or(na, nb, z3.And(ra == 0, z3.Or(rb == INF, rb == -INF)), z3.And(rb == 0, z3.Or(ra == INF, ra == -INF)))


def _ax_mul2(nr, na, nb, rr, ra, rb):
    return z3.Or(nr, z3.And(
        z3.Implies(z3.Or(ra == 0, rb == 0), rr == 0),
        z3.Implies(z3.And(ra >= 0, rb >= 0), rr >= 0), z3.Implies(z3.And(ra <= 0, rb <= 0), rr >= 0),
        z3.Implies(z3.And(ra >= 0, rb <= 0), rr <= 0), z3.Implies(z3.And(ra <= 0, rb >= 0), rr <= 0),
        z3.Implies(z3.And(ra > 0, rb == INF), rr == INF), z3.Implies(z3.And(rb > 0, ra == INF), rr == INF),
        z3.Implies(z3.And(ra < 0, rb == INF), rr == -INF), z3.Implies(z3.And(rb < 0, ra == INF), rr == -INF),
        z3.Implies(z3.And(ra > 0, rb == -INF), rr == -INF), z3.Implies(z3.And(rb > 0, ra == -INF), rr == -INF),
        z3.Implies(z3.And(ra < 0, rb == -INF), rr == INF), z3.Implies(z3.And(rb < 0, ra == -INF), rr == INF)))


def fmul(a, b):
    if a.ty != b.ty:
        raise TypeError('fmul')
    if a.c == 'nan':
        return a
    if b.c == 'nan':
        return b
    r = fold2(a, b, lambda x, y: x * y)
    if r is not None:
        return r
    for x, y in ((a, b), (b, a)):
        if hasneg(x) and not (y.op and y.op[0] == 'ite'):
            return ite(x.op[1], fmul(x.op[2], y), fmul(x.op[3], y))
    a, na = _strip(a)
    b, nb = _strip(b)
    if a.c == 1:
        r = b
    elif b.c == 1:
        r = a
    else:
        r, a, b = _bin('fmul', a, b, True)
        k = ('fmul', r.t.get_id())
        if not C.light and not C.dry and C.mark(k):
            ra, rb, rr = a.rk(), b.rk(), r.rk()
            C.heavy(tmpl('fmul', _ax_mul, r, a, b))
            for x, y in ((a, b), (b, a)):
                if x.op and x.op[0] == 'ite':
                    C.heavy(z3.Implies(z3.And(z3.Not(x.nan()), x.rk() == 1), r.t == y.t))
            if a.t.eq(b.t):
                C.heavy(z3.Or(r.nan(), rr >= 0))
                C.heavy(z3.Implies(z3.And(z3.Not(r.nan()), z3.Or(ra == INF, ra == -INF)), rr == INF))
            else:
                C.heavy(tmpl('fmul2', _ax_mul2, r, a, b))
                for x, y in ((a, b), (b, a)):
                    if isinstance(x.c, Fraction) and 0 < abs(x.c) <= 1 << 30 and x.c != 2:
                        # |fl(c*y)| <= fl(p*|y|) = p*|y| for the power of two p >= |c|
                        pw = 1
                        while pw < abs(x.c):
                            pw *= 2
                        ay = z3.If(y.rk() >= 0, y.rk(), -y.rk())
                        C.heavy(z3.Or(r.nan(), z3.Not(ay <= 1 << 60), z3.And(rr <= pw * ay, rr >= -pw * ay)))
                    if isinstance(x.c, Fraction) and x.c == 2:
                        C.heavy(z3.Or(r.nan(), rr == 2 * y.rk(), rr == INF, rr == -INF))
    return fneg(r) if na != nb else r


def ispow2(fr):
    return fr > 0 and (fr.numerator & (fr.numerator - 1)) == 0 and (fr.denominator & (fr.denominator - 1)) == 0


def _ax_div(nr, na, nb, rr, ra, rb):
    ia, ib = z3.Or(ra == INF, ra == -INF), z3.Or(rb == INF, rb == -INF)
    return z3.And(nr == z3.Or(na, nb, z3.And(ra == 0, rb == 0), z3.And(ia, ib)), z3.Or(nr, z3.And(
        z3.Implies(z3.And(ra == 0, rb != 0), rr == 0), z3.Implies(z3.And(ib, z3.Not(ia)), rr == 0),
        z3.Implies(z3.And(rb > 0, ra >= 0), rr >= 0), z3.Implies(z3.And(rb > 0, ra <= 0), rr <= 0),
        z3.Implies(z3.And(rb < 0, ra >= 0), rr <= 0), z3.Implies(z3.And(rb < 0, ra <= 0), rr >= 0),
        z3.Implies(z3.And(rb == 0, ra != 0), z3.Or(rr == INF, rr == -INF)),
        z3.Implies(z3.And(ia, z3.Not(ib)), z3.Or(rr == INF, rr == -INF)),
        # quotient of comparable magnitudes (correct rounding is monotone and 1 is representable)
        z3.Implies(z3.And(rb > 0, ra <= rb, z3.Not(ib)), rr <= 1), z3.Implies(z3.And(rb > 0, ra >= rb), rr >= 1),
        z3.Implies(z3.And(ra == rb, rb != 0), rr == 1),
        # a divisor of at least one does not increase the magnitude (the dividend is representable)
        z3.Implies(z3.And(rb >= 1, ra >= 0, z3.Not(ia)), rr <= ra), z3.Implies(z3.And(rb >= 1, ra <= 0, z3.Not(ia)), rr >= ra))))


def fdiv(a, b):
    if a.ty != b.ty:
        raise TypeError('fdiv')
    if isinstance(b.c, Fraction) and b.c != 0 and ispow2(abs(b.c)) and abs(b.c) < 2**100 and abs(b.c) > Fraction(1, 2**100):
        return fmul(a, fconst(a.ty, 1 / b.c))
    if a.c == 'nan':
        return a
    if b.c == 'nan':
        return b
    r = fold2(a, b, lambda x, y: x / y if y else None)
    if r is not None:
        return r
    a, na = _strip(a)
    b, nb = _strip(b)
    r, a, b = _bin('fdiv', a, b)
    k = ('fdiv', r.t.get_id())
    if not C.light and not C.dry and C.mark(k):
        C.heavy(tmpl('fdiv', _ax_div, r, a, b))
    return fneg(r) if na != nb else r


def fcmp(pred, a, b):
    if a.ty != b.ty:
        raise TypeError('fcmp')
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    an, bn = a.nan(), b.nan()
    same = a.t.eq(b.t)
    if same:
        un = an
    else:
        un = z3.Or(an, bn) if a.c is None and b.c is None else an if b.c is not None and b.c != 'nan' else bn if a.c is not None and a.c != 'nan' else z3.BoolVal(True)
    if pred == 'uno':
        return un
    if pred == 'ord':
        return z3.Not(un)
    x, y = a.rk(), b.rk()
    k = pred[1:]
    if isinstance(b.c, Fraction) or b.c == '-0':
        y = rq(cfrac(b))
    if isinstance(a.c, Fraction) or a.c == '-0':
        x = rq(cfrac(a))
    c = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[k]()
    if pred[0] == 'o':
        return z3.And(z3.Not(un), c)
    return z3.Or(un, c)


def isnan(a):
    if isinstance(a, FV):
        return a.nan()
    if isinstance(a, (Poly, int)):
        return False
    return a != a


def finite(a):
    return z3.And(z3.Not(a.nan()), a.rk() < INF, a.rk() > -INF)


def feqv(a, b):
    """same value: both NaN, or equal (no distinction between +0 and -0)"""
    if a.t.eq(b.t):
        return True
    return z3.Or(a.t == b.t, z3.And(a.nan(), b.nan()), z3.And(z3.Not(a.nan()), z3.Not(b.nan()), a.rk() == b.rk()))


def fpext(a, ty):
    if a.ty == ty:
        return a
    if a.c is not None:
        return fconst(ty, a.c)
    if a.op and a.op[0] == 'ite' and any(x.c is not None for x in a.op[2:]):
        return ite(a.op[1], fpext(a.op[2], ty), fpext(a.op[3], ty))
    t = uf(f'fpext_{a.ty}_{ty}', SORT[a.ty], SORT[ty])(a.t)
    r = FV(ty, t, None, ('ext', a))
    C.axiom(z3.And(r.nan() == a.nan(), r.rk() == a.rk()), ('ext', t.get_id()))
    C.axiom(z3.Or(r.nan(), r.rk() == INF, r.rk() == -INF, z3.And(r.rk() <= rq(FMAX[a.ty]), r.rk() >= -rq(FMAX[a.ty]))), ('ext2', t.get_id()))
    return r


def fptrunc(a, ty):
    if a.ty == ty:
        return a
    if a.c is not None:
        return fconst(ty, a.c)
    if a.op and a.op[0] == 'ext' and a.op[1].ty == ty:
        return a.op[1]
    if a.op and a.op[0] == 'ite' and any(x.c is not None or x.op and x.op[0] == 'ext' for x in a.op[2:]):
        return ite(a.op[1], fptrunc(a.op[2], ty), fptrunc(a.op[3], ty))
    t = uf(f'fptrunc_{a.ty}_{ty}', SORT[a.ty], SORT[ty])(a.t)
    r = FV(ty, t, None, ('trunc', a))
    C.heavy(z3.And(r.nan() == a.nan(), z3.Or(r.nan(), z3.And(
        z3.Implies(a.rk() >= 0, r.rk() >= 0), z3.Implies(a.rk() <= 0, r.rk() <= 0)))), ('ftr', t.get_id()))
    return r


def itof(k, ty):
    """correctly rounded conversion of a mathematical integer"""
    k = P(k)
    if k.isconst():
        return fconst(ty, Fraction(k.cval()))
    z = k.z()
    if z3.is_app_of(z, z3.Z3_OP_ITE) and z3.is_int_value(z.arg(1)) and z3.is_int_value(z.arg(2)):
        return ite(z.arg(0), fconst(ty, Fraction(z.arg(1).as_long())), fconst(ty, Fraction(z.arg(2).as_long())))
    t = uf(f'itof_{ty}', z3.IntSort(), SORT[ty])(k.z())
    r = FV(ty, t, None, ('itof', k))
    lim = 1 << MANT[ty]
    C.heavy(z3.And(z3.Not(r.nan()), z3.Implies(z3.And(k.z() <= lim, k.z() >= -lim), r.rk() == z3.ToReal(k.z())),
                   z3.Implies(k.z() > lim, r.rk() >= lim), z3.Implies(k.z() < -lim, r.rk() <= -lim),
                   r.rk() < INF, r.rk() > -INF), ('itof', t.get_id()))
    return r


def ftoi(a):
    """truncation toward zero; meaningful when in range (the caller has the range obligation)"""
    if isinstance(a.c, Fraction):
        return Poly.const(int(a.c))
    if a.op and a.op[0] == 'itof' and False:
        return a.op[1]
    t = uf(f'ftoi_{a.ty}', SORT[a.ty], z3.IntSort())(a.t)
    C.axiom(z3.Implies(finite(a), z3.And(
        z3.Implies(a.rk() >= 0, z3.And(z3.ToReal(t) <= a.rk(), a.rk() < z3.ToReal(t) + 1)),
        z3.Implies(a.rk() < 0, z3.And(z3.ToReal(t) >= a.rk(), a.rk() > z3.ToReal(t) - 1)))), ('ftoi', t.get_id()))
    return Poly.atom(t)


MATH_ALIAS = {'log1p': 1, 'expm1': 1}


def math(name, ty, *args):
    """libm function as an uninterpreted function with a few exact facts"""
    args = [fcoerce(FVlike(ty), a) if not isinstance(a, FV) else a for a in args]
    if name == 'fabs':
        return fabs(args[0])
    if name == 'pow' and args[1].c is not None and args[1].c == 2:
        return args[0] * args[0]        # exact up to the single rounding
    ss = [SORT[a.ty] for a in args] + [SORT[ty]]
    t = uf(f'{name}_{ty}', *ss)(*[a.t for a in args])
    r = FV(ty, t, None, (name,) + tuple(args))
    k = ('math', t.get_id())
    if C.light or C.dry or not C.mark(k):
        return r
    a = args[0]
    if name == 'sqrt':
        C.heavy(r.nan() == z3.Or(a.nan(), a.rk() < 0))
        C.heavy(z3.Or(r.nan(), z3.And(r.rk() >= 0, (r.rk() == 0) == (a.rk() == 0), (r.rk() == INF) == (a.rk() == INF))))
    elif name == 'exp':
        C.heavy(z3.And(r.nan() == a.nan(), z3.Or(r.nan(), r.rk() >= 0)))
        C.heavy(z3.Implies(z3.And(z3.Not(a.nan()), a.rk() == 0), r.rk() == 1))
        C.heavy(z3.Implies(z3.And(z3.Not(a.nan()), a.rk() == -INF), r.rk() == 0))
    elif name in ('floor', 'ceil', 'trunc', 'round'):
        # |r - x| bounded, infinities kept; (integrality is not needed by any contract)
        x = a.rk()
        lo, hi = {'floor': (x - 1, x), 'ceil': (x, x + 1), 'trunc': (x - 1, x + 1), 'round': (x - rq(Fraction(1, 2)), x + rq(Fraction(1, 2)))}[name]
        C.heavy(r.nan() == a.nan())
        C.heavy(z3.Or(r.nan(), z3.If(z3.Or(x == INF, x == -INF), r.rk() == x, z3.And(r.rk() >= lo, r.rk() <= hi))))
        C.heavy(z3.Or(r.nan(), z3.And(z3.Implies(x >= 0, r.rk() >= 0), z3.Implies(x <= 0, r.rk() <= 0))))
    elif name == 'atan2':
        b = args[1]
        C.heavy(r.nan() == z3.Or(a.nan(), b.nan()))
        C.heavy(z3.Or(r.nan(), z3.And(r.rk() >= -4, r.rk() <= 4, INF > 4)))
    elif name == 'copysign':
        b = args[1]
        sb = uf('signbit_' + ty, SORT[ty], z3.BoolSort())(b.t)
        C.heavy(z3.And(z3.Implies(z3.And(z3.Not(b.nan()), b.rk() < 0), sb), z3.Implies(z3.And(z3.Not(b.nan()), b.rk() > 0), z3.Not(sb))))
        ab = z3.If(a.rk() >= 0, a.rk(), -a.rk())
        C.heavy(z3.And(r.nan() == a.nan(), z3.Or(r.nan(), r.rk() == z3.If(sb, -ab, ab))))
    return r


class FVlike:
    def __init__(self, ty):
        self.ty = ty


# ------------------------------------------------------------------ objects, pointers
OBJ = z3.DeclareSort('OBJ')
NULLOBJ = z3.Const('NULLOBJ', OBJ)


class OV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"obj:{self.t}"


class PV:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r, self.off = r, off

    def __repr__(self):
        return f"ptr({self.r},{self.off})"


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def ite(c, a, b):
    if not is_sym(c):
        return a if bool(c) else b
    if isinstance(a, FV) or isinstance(b, FV):
        like = a if isinstance(a, FV) else b
        a, b = fcoerce(like, a), fcoerce(like, b)
        if a.t.eq(b.t):
            return a
        return FV(a.ty, z3.If(c, a.t, b.t), None, ('ite', c, a, b))
    if isinstance(a, IV):
        if a.bv is not None and a._s is None and a._u is None or b.bv is not None and b._s is None and b._u is None:
            return IV(a.bits, bv=z3.If(c, a.tobv(), b.tobv()))
        s = u = None
        if a._s is not None and b._s is not None:
            s = ite(c, a._s, b._s)
        if a._u is not None and b._u is not None:
            u = ite(c, a._u, b._u)
        if s is None and u is None:
            s = ite(c, a.s(), b.s())
        return IV(a.bits, s, u)
    if isinstance(a, (Poly, int)) and not isinstance(a, bool) and isinstance(b, (Poly, int)) and not isinstance(b, bool):
        a, b = P(a), P(b)
        if a.same(b):
            return a
        return Poly.atom(z3.If(c, a.z(), b.z()))
    if isinstance(a, OV):
        return a if a.t.eq(b.t) else OV(z3.If(c, a.t, b.t))
    if isinstance(a, PV):
        if a.r is b.r:
            return PV(a.r, ite(c, a.off, b.off))
        raise Unsupported(f"ite of pointers to different regions {a} {b}")
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if is_sym(a) or is_sym(b) or isinstance(a, bool) or isinstance(b, bool):
        return z3.If(c, zb(a), zb(b))
    raise TypeError(f"ite {type(a)} {type(b)}")


def eqv(a, b):
    """value equality obligation between two values of the same kind"""
    if isinstance(a, IV):
        a = a.s()
    if isinstance(b, IV):
        b = b.s()
    if isinstance(a, FV) or isinstance(b, FV):
        like = a if isinstance(a, FV) else b
        return feqv(fcoerce(like, a), fcoerce(like, b))
    if isinstance(a, OV):
        return True if a.t.eq(b.t) else a.t == b.t
    if isinstance(a, tuple):
        return And(*[eqv(x, y) for x, y in zip(a, b)])
    if isinstance(a, (Poly, int)) and not isinstance(a, bool):
        if isinstance(b, bool) or z3.is_bool(b):
            b = ite(b, 1, 0)
        return P(a).eq(P(b))
    if isinstance(a, bool) or is_sym(a):
        if isinstance(b, (Poly, int)) and not isinstance(b, bool):
            return P(ite(a, 1, 0)).eq(b)
        return Iff(a, b)
    raise TypeError(f"eqv {a} {b}")


def same_strict(a, b):
    """bit-level identity as a z3 bool (implies eqv)"""
    if isinstance(a, FV) and isinstance(b, FV):
        return True if a.t.eq(b.t) else a.t == b.t
    return eqv(a, b)
