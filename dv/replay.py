"""Concrete counterpart of the contracts: evaluates the same specification functions on concrete inputs, as the
oracle for natively built loop functions called directly (dims/strides chosen here, arguments flush against guard pages).

Used only after the verifier has rejected an obligation, to look for an input on which the real code fails.

  python replay.py search REQUEST.json      (worker started by check.py)
  python replay.py run REPLAY.json          (re-run one recorded failure; exit 1 if it fails again)
"""
import sys, os
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import ctypes, gc, json, random, struct, time, math, operator, importlib.util
from fractions import Fraction
import numpy as np
from dv.contract import TYPES, parse_sig, ArrInfo
from dv import ops as O
from dv.extract import DUMP

NPT = {'i': None, 'f16': np.float16, 'f32': np.float32, 'f64': np.float64, 'f80': np.longdouble}
DT = {c: np.dtype(c) for c in '?bBhHiIlLqQfdgFDGe'}
PAGE = 4096
POOL = 64 * PAGE


class Skip(Exception):
    pass


class OracleRaise(Exception):
    pass


class Boom(Exception):
    pass


# ------------------------------------------------------------------ objects used in object arrays
class Log:
    raised = 0
    after = 0


LATE = 1000003


class Num:
    __slots__ = ('v', '__weakref__')
    live = 0

    def __init__(self, v):
        self.v = v
        Num.live += 1

    def __del__(self):
        Num.live -= 1

    def _op(self, o, f):
        if Log.raised:
            Log.after += 1
        if self.v == 'boom' or not isinstance(o, Num) or o.v == 'boom':
            Log.raised += 1
            raise Boom()
        return f(self.v, o.v)
    def __lt__(self, o): return self._op(o, operator.lt)
    def __le__(self, o): return self._op(o, operator.le)
    def __gt__(self, o): return self._op(o, operator.gt)
    def __ge__(self, o): return self._op(o, operator.ge)
    def __eq__(self, o): return self._op(o, operator.eq)
    def __ne__(self, o): return self._op(o, operator.ne)
    def __sub__(self, o): return Num(self._op(o, operator.sub))
    # the product with LATE can be computed, but not used
    def __mul__(self, o): return Num('boom') if LATE in (self.v, getattr(o, 'v', None)) and 'boom' not in (self.v, getattr(o, 'v', None)) else Num(self._op(o, operator.mul))
    def __add__(self, o): return Num(self._op(o, operator.add))
    __hash__ = None

    def __repr__(self):
        return f"Num({self.v})"


# ------------------------------------------------------------------ the concrete specification object
class ConFold:
    def __init__(self, S, name, init, step, start, params):
        self.S, self.name, self.init, self.step, self.start, self.params = S, name, init, step, start, params
        self.memo = {}

    def __call__(self, j, *ps):
        j = int(j)
        ps = tuple(int(p) for p in ps)
        m = self.memo.get(ps)
        if m is None:
            v = self.init(*ps)
            m = self.memo[ps] = [v]
        st = int(self.start)
        if j <= st:
            return m[0]
        while len(m) <= j - st:
            v = m[-1]
            m.append(self.step(st + len(m) - 1, *(v if isinstance(v, tuple) else (v,)), *ps))
        return m[j - st]


class ConS:
    symbolic = False

    def __init__(self, u, loop, dims, ins, olds):
        self.u, self.loop = u, loop
        self.nin, self.nout = u['nin'], u['nout']
        self.dims, self.ins, self.olds = dims, ins, olds
        self.infos = make_infos(u, loop, dims)
        self.outs, self.ensures, self.tols = {}, [], {}
        self.hints, self.dimhints = {}, {}
        self.uid = 'c'
        self.pre = True
        self.may_raise = False

    def ty(self, k): return self.infos[k].kind
    def chr(self, k): return self.infos[k].char
    def info(self, k): return self.infos[k]

    def dim(self, name):
        for k in (name, name + '?'):
            if k in self.dims:
                return self.dims[k]
        raise KeyError(name)

    def conv(self, a, v):
        if a.isobj:
            return v
        if a.cplx:
            t = NPT[a.kind]
            return (t(v.real), t(v.imag))
        if a.kind == 'i':
            return int(v)
        return NPT[a.kind](v)

    def sorted(self, k):
        a, arr = self.infos[k], np.sort(self.ins[k])

        def el(j):
            if not 0 <= int(j) < len(arr):
                return self.oob(a)
            return self.conv(a, arr[int(j)])
        return el

    def x(self, k):
        a, arr = self.infos[k], self.ins[k]

        def el(*idx):
            idx = tuple(int(i) for i in idx)
            if any(i < 0 or i >= n for i, n in zip(idx, arr.shape)):
                return self.oob(a)
            return self.conv(a, arr[idx])
        return el

    def oob(self, a):
        """an element outside the array: mentioned by a term whose value does not matter"""
        if a.isobj:
            return Num(0)
        if a.cplx:
            return (NPT[a.kind](0), NPT[a.kind](0))
        return 0 if a.kind == 'i' else NPT[a.kind](0)

    def old(self, k):
        a, arr = self.infos[self.nin + k], self.olds[k]
        return lambda *idx: self.conv(a, arr[tuple(int(i) for i in idx)])

    def fold(self, name, init, step, start=0, params=0, stable=None):
        return ConFold(self, name, init, step, start, params)

    def view(self, *a, **k): pass
    def aux(self, *a, **k): pass
    def state(self, *a, **k): pass
    def index_pred(self, *a, **k): pass
    def inv(self, *a, **k): pass
    def opt(self, **k):
        if k.get('nonempty'):
            self.dimhints['@N'] = (1, 1)

    def out(self, k, fn, when=None, tol=None):
        self.outs[k] = (fn, when)
        self.tols[k] = tol

    def ensure(self, name, fn):
        self.ensures.append((name, fn))

    def raises(self, c):
        self.may_raise = self.may_raise or bool(c() if callable(c) else c)

    def require(self, c):
        if not bool(c() if callable(c) else c):
            self.pre = False

    require_dim = require

    def gen(self, k, **kw):
        self.hints.setdefault(k, {}).update(kw)

    def require_contiguous(self):
        self.dimhints['@contig'] = True

    def gendim(self, name, lo=0, hi=6):
        self.dimhints[name] = (lo, hi)

    def ghost(self, name, lo, hi, prop, on):
        memo = []

        def p():
            if not memo:
                n = self.infos[on].dims[0]
                c = [q for q in range(int(lo), int(hi) + 1) if all(bool(prop(i, q)) for i in range(n))]
                if len(c) < 1:
                    raise Skip("precondition")
                memo.append(c[0])
            return memo[0]
        return p

    def wrapint(self, k, v):
        a = self.infos[k]
        v = int(v) & ((1 << a.bits) - 1)
        return v - (1 << a.bits) if a.signed and v >> (a.bits - 1) else v

    OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]

    def cmp(self, x, y, op):
        op = int(op)
        if not 0 <= op <= 5:
            return 0
        if x is y and op in (2, 3):
            return 1 if op == 2 else 0
        return 1 if self.OPS[op](x, y) else 0

    def pyop(self, name, *xs):
        return {'PyNumber_Subtract': operator.sub, 'PyNumber_Multiply': operator.mul, 'PyNumber_Add': operator.add}[name](*xs)

    def nullobj(self):
        return None

    def issnan(self, v):
        b = v.tobytes()
        if len(b) == 2:
            i = int.from_bytes(b, 'little'); return (i & 0x7c00) == 0x7c00 and (i & 0x3ff) != 0 and not i & 0x200
        if len(b) == 4:
            i = int.from_bytes(b, 'little'); return (i & 0x7f800000) == 0x7f800000 and (i & 0x7fffff) != 0 and not i & 0x400000
        i = int.from_bytes(b, 'little'); return (i >> 52) & 0x7ff == 0x7ff and i & ((1 << 52) - 1) != 0 and not (i >> 51) & 1


def dim_names(u):
    names = []
    for l in parse_sig(u['sig'], u['nin'], u['nout']):
        for d in l:
            if d not in names:
                names.append(d)
    return names


def make_infos(u, loop, dims):
    r = []
    dl = parse_sig(u['sig'], u['nin'], u['nout'])
    for k, t in enumerate(loop['types']):
        ch, kind, bits, sg, isz = TYPES[t]
        a = ArrInfo()
        a.k, a.isin, a.char, a.kind, a.bits, a.signed, a.itemsize = k, k < u['nin'], ch, kind, bits, sg, isz
        a.cplx, a.isobj = ch in 'FDG', ch == 'O'
        a.dimnames = dl[k]
        a.dims = [dims[d] for d in dl[k]]
        r.append(a)
    return r


# ------------------------------------------------------------------ memory
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


class Pool:
    def __init__(self):
        p = libc.mmap(None, POOL + 2 * PAGE, 3, 0x22, -1, 0)
        libc.mprotect(p, PAGE, 0)
        libc.mprotect(p + PAGE + POOL, PAGE, 0)
        self.base = p + PAGE
        self.buf = np.ctypeslib.as_array((ctypes.c_ubyte * POOL).from_address(self.base))


class Layout:
    """strides and placement of one array argument: shape = (N, *core dims)"""

    def __init__(self, rng, shape, itemsize, isin, contig):
        nd = len(shape)
        order = list(range(nd))
        if not contig and rng.random() < .5:
            rng.shuffle(order)
        strides = [0] * nd
        s = itemsize
        for ax in reversed(order):
            m = 1 if contig else rng.choice([1, 1, 2, 3])
            sg = 1 if contig else rng.choice([1, 1, -1])
            strides[ax] = sg * s * m
            s = s * m * max(shape[ax], 1)
        if isin and not contig:
            for ax in range(nd):
                if rng.random() < .12:
                    strides[ax] = 0
        if not contig and rng.random() < .3:
            for ax in range(nd):
                if shape[ax] <= 1:
                    strides[ax] = 0
        lo = sum((shape[a] - 1) * strides[a] for a in range(nd) if shape[a] > 0 and strides[a] < 0)
        hi = sum((shape[a] - 1) * strides[a] for a in range(nd) if shape[a] > 0 and strides[a] > 0)
        self.empty = any(x == 0 for x in shape)
        if self.empty:
            lo = hi = 0
        ext = hi - lo + (0 if self.empty else itemsize)
        if ext > POOL:
            raise Skip("too big")
        end = rng.random() < .6
        self.off = (POOL - ext if end else 0) - lo
        self.strides, self.shape, self.itemsize = strides, shape, itemsize

    def offsets(self):
        if self.empty:
            return
        import itertools
        for ix in itertools.product(*[range(n) for n in self.shape]):
            yield ix, self.off + sum(i * s for i, s in zip(ix, self.strides))


SMALLF = [0., 1., -1., 2., -2., 3., .5, -0.5, 1.5, 4., 10., -3.]
SPECF = [float('nan'), float('inf'), float('-inf'), 0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, -1e300, 5e-324, 2.0, 0.1, 3.0, -2.5]


class Gen:
    """element generator for one argument in one sample"""

    def __init__(self, rng, a, hint, dims, u, k):
        self.rng, self.a, self.h = rng, a, hint or {}
        self.dims = dims
        self.style = rng.choice(self.h.get('styles', [0, 0, 1, 2]))
        self.pool = None
        vals = self.h.get('values')
        self.vals = vals if vals is not None and rng.random() < self.h.get('p', .85) else None

    def fval(self):
        r = self.rng
        if self.vals is not None:
            return float(r.choice(self.vals))
        if 'range' in self.h:
            lo, hi = self.h['range']
            return r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi)])
        if self.style == 0:
            v = r.choice(SMALLF)
        elif self.style == 1:
            v = r.gauss(0, 1) * r.choice([1, 1, 10])
        else:
            v = r.choice(SPECF) if r.random() < .5 else r.choice(SMALLF)
            if abs(v) == 1e300 and r.random() < .6:
                v = math.copysign({'f32': 3e38, 'f16': 6e4, 'f64': 1.7e308}.get(self.a.kind, 1e300), v)
        if self.h.get('pos'):
            v = abs(v)
            if self.h['pos'] == 2 and v == 0:
                v = 1.5
        return v

    def val(self):
        r, a = self.rng, self.a
        if a.isobj:
            if self.vals is not None:
                return Num(r.choice(self.vals))
            if self.style == 2 and r.random() < .08:
                return Num(r.choice(['boom', LATE]))
            return Num(r.choice([-2, -1, 0, 1, 2, 3, Fraction(1, 2)]))
        if a.cplx:
            return complex(self.fval(), self.fval())
        if a.kind == 'i':
            if a.char == '?':
                return r.choice([0, 1])
            lo, hi = (-(1 << (a.bits - 1)), (1 << (a.bits - 1)) - 1) if a.signed else (0, (1 << a.bits) - 1)
            if self.vals is not None:
                return max(lo, min(hi, int(r.choice(self.vals))))
            if self.h.get('near'):
                m = max(self.dims.values()) if self.dims else 3
                v = r.choice([-1, 0, 0, 1, 1, 2, m - 1, m, m + 1, lo, hi]) if self.style == 2 else r.randrange(0, m + 1)
                return max(lo, min(hi, v))
            if self.style == 2:
                v = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, 2])
            elif self.style == 1:
                v = r.randint(max(lo, -50), min(hi, 50))
            else:
                v = r.randint(-3, 3)
            return max(lo, min(hi, v))
        return self.fval()


def to_np(a, v):
    if a.cplx or a.kind != 'i':
        with np.errstate(all='ignore'):
            if a.kind == 'f80' and not a.cplx:
                return np.longdouble(v)
            return DT[a.char].type(v)
    return DT[a.char].type(v)


class Loop:
    """one registered loop of a natively built module"""

    def __init__(self, so, mod, attr, index):
        self.so, self.mod, self.attr, self.index = so, mod, attr, index
        spec = importlib.util.spec_from_file_location(mod, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        self.module = m
        ns = {}
        src = DUMP[DUMP.index('class PyUFuncObject'):DUMP.index('def sym(a)')]
        exec("import ctypes\n" + src, ns)
        o = getattr(m, attr)
        self.ufunc = o
        U = ns['PyUFuncObject'].from_address(id(o))
        na = U.nargs
        self.u = dict(attr=attr, nin=U.nin, nout=U.nout, sig=o.signature, pcd=bool(U.process_core_dims))
        self.loop = dict(types=[int.from_bytes(U.types[index * na + j], 'little') for j in range(na)])
        self.addr, self.data = U.functions[index], (U.data[index] if U.data else None)
        self.fn = ctypes.PYFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)(self.addr)


def specfn_for(mod, attr):
    from dv import registry
    return registry.lookup(mod, attr)


POOLS = []


def sample(L, specfn, seed, i, hints):
    """build concrete sample number i"""
    rng = random.Random(f"{seed}:{L.attr}:{L.loop['types']}:{i}")
    u = L.u
    names = dim_names(u)
    dims = {}
    for d in names:
        if d.isdigit():
            dims[d] = int(d)
        else:
            lo, hi = hints[1].get(d.rstrip('?'), (0, 6))
            dims[d] = rng.randint(lo, hi) if rng.random() < .9 else rng.randint(lo, hi + 8)
    N = rng.choice([1, 1, 1, 2, 3, 4, 0]) if u['sig'] else rng.choice([1, 2, 3, 5, 8, 16, 0])
    if not N and '@N' in hints[1]:
        N = 1
    infos = make_infos(u, L.loop, dims)
    contig = rng.random() < .3 or '@contig' in hints[1]
    lay, ins, pools = [], [], []
    while len(POOLS) < len(infos):
        POOLS.append(Pool())
    shared = {}
    inplace = not u['sig'] and rng.random() < .15
    keep = []
    for k, a in enumerate(infos):
        shape = (N, *a.dims)
        pool = POOLS[k]
        l = Layout(rng, shape, a.itemsize, a.isin, contig)
        if not a.isin and inplace and not a.isobj:
            for q in range(u['nin']):
                if infos[q].char == a.char and all(lay[q].strides) and q not in shared.values():
                    l, pool = lay[q], POOLS[q]
                    shared[k] = q
                    break
        lay.append(l)
        pools.append(pool)
    for k, a in enumerate(infos):
        if k in shared:
            continue
        pools[k].buf[:] = rng.randrange(256)
    for k, a in enumerate(infos):
        if not a.isin:
            continue
        h = hints[0].get(k)
        g = Gen(rng, a, h, {d: dims[d] for d in dims}, u, k)
        cells = {}
        for ix, off in lay[k].offsets():
            if off not in cells:
                cells[off] = g.val()
        if h and h.get('sort') and len(lay[k].shape) > 1 and cells and all(s for s in lay[k].strides):
            n = lay[k].shape[-1]
            import itertools
            for ix in itertools.product(*[range(x) for x in lay[k].shape[:-1]]):
                offs = [lay[k].off + sum(p * s for p, s in zip(ix + (j,), lay[k].strides)) for j in range(n)]
                vs = [cells[o] for o in offs]
                try:
                    vs.sort(key=(lambda z: z.v) if a.isobj else (lambda z: (z != z, z.real if z == z else 0, z.imag if z == z else 0)))
                except TypeError:
                    pass
                if h.get('distinct'):
                    vs = [v + 7 * j if v == v else float(j) for j, v in enumerate(vs)]
                for o, v in zip(offs, vs):
                    cells[o] = v
        arr = np.empty(lay[k].shape, dtype=object if a.isobj else DT[a.char])
        for off, v in cells.items():
            if a.isobj:
                keep.append(v)
                ctypes.c_void_p.from_address(pools[k].base + off).value = id(v)
            else:
                b = np.array(to_np(a, v)).tobytes()
                pools[k].buf[off:off + len(b)] = np.frombuffer(b, np.uint8)
                cells[off] = to_np(a, v)
        for ix, off in lay[k].offsets():
            arr[ix] = cells[off]
        ins.append(arr)
    olds = []
    masks = {}
    for k, a in enumerate(infos):
        if a.isin:
            continue
        h = hints[0].get(k) or {}
        arr = np.empty(lay[k].shape, dtype=object if a.isobj else DT[a.char])
        mask = np.zeros(POOL, bool)
        pat = rng.randrange(4)
        for ix, off in lay[k].offsets():
            mask[off:off + a.itemsize] = True
            if k in shared:
                arr[ix] = ins[shared[k]][ix]
                continue
            if a.isobj:
                ctypes.c_void_p.from_address(pools[k].base + off).value = None
                if pat >= 2:
                    v = Num(77)
                    keep.append(v)
                    ctypes.pythonapi.Py_IncRef(ctypes.py_object(v))
                    ctypes.c_void_p.from_address(pools[k].base + off).value = id(v)
                arr[ix] = None
            else:
                v = to_np(a, 0) if h.get('zero') or pat == 0 else to_np(a, [7, 1, 100][pat - 1] if a.char != '?' else 1)
                b = np.array(v).tobytes()
                pools[k].buf[off:off + len(b)] = np.frombuffer(b, np.uint8)
                arr[ix] = v
        olds.append(arr)
        masks[k] = mask
    return dict(dims=dims, N=N, infos=infos, lay=lay, pools=pools, ins=ins, olds=olds, masks=masks, shared=shared, keep=keep, names=names)


def describe(L, s):
    return dict(ufunc=L.attr, module=L.mod, types=''.join(a.char for a in s['infos']), signature=L.u['sig'], dims=s['dims'], N=s['N'],
                strides=[l.strides for l in s['lay']], inputs=[repr(a.tolist()) if a.dtype != np.longdouble else repr(a) for a in s['ins']],
                outputs_before=[repr(a.tolist())[:300] for a in s['olds']], inplace={str(k): v for k, v in s['shared'].items()})


def oracle(L, specfn, s, mode):
    """expected outputs: {k: {ix: value}}; ensures"""
    exp = []
    for b in range(s['N']):
        S = ConS(L.u, L.loop, s['dims'], [a[b] if a.ndim > 1 else np.array([a[b]], dtype=a.dtype).reshape(()) for a in s['ins']],
                 [a[b] if a.ndim > 1 else np.array([a[b]], dtype=a.dtype).reshape(()) for a in s['olds']])
        specfn(S)
        if not S.pre:
            raise Skip("precondition")
        r = {}
        import itertools
        if mode != 'memory':
            for k, (fn, when) in S.outs.items():
                a = S.infos[S.nin + k]
                if when is not None and not bool(when()):
                    continue
                for ix in itertools.product(*[range(n) for n in a.dims]):
                    r[k, ix] = fn(*ix)
        exp.append((S, r))
    if s['N'] == 0:
        # preconditions on dimensions still apply
        ok = True
    return exp


def close(got, want, tol, scale, kind):
    g, w = got, want
    if g != g or w != w:
        return (g != g) == (w != w)
    if g == w:
        return True
    if np.isinf(g) or np.isinf(w):
        big = {'f32': 1e37, 'f64': 1e307, 'f80': np.longdouble(2) ** 16380}.get(kind, 1e30)
        return bool(tol is None and abs(g) > big and abs(w) > big and (g > 0) == (w > 0))
    t = {'f32': 2e-4, 'f64': 1e-9, 'f80': 1e-12, 'f16': 1e-2}[kind] if tol is None else tol
    lim = max(abs(w), scale if tol is None else 0)
    return bool(abs(np.longdouble(g) - np.longdouble(w)) <= t * lim)


def run_sample(L, specfn, s, mode):
    """-> None or a description of the failure"""
    infos, N = s['infos'], s['N']
    isobj = any(a.isobj for a in infos)
    err = None
    try:
        exp = oracle(L, specfn, s, mode)
    except Skip:
        return 'skip'
    except Boom:
        if mode == 'memory':
            exp = None
        exp = None
    dimtab = [N] + [s['dims'][d] for d in s['names']]
    steps = [l.strides[0] for l in s['lay']] + [x for l in s['lay'] for x in l.strides[1:]]
    A = (ctypes.c_void_p * len(infos))(*[p.base + l.off for p, l in zip(s['pools'], s['lay'])])
    A0 = list(A)
    D = (ctypes.c_ssize_t * (len(dimtab) + 1))(*dimtab, 99)
    T = (ctypes.c_ssize_t * (len(steps) + 1))(*steps, 77)
    before = [p.buf.copy() for p in s['pools']]
    if isobj:
        uniq = {id(o): o for o in s['keep']}
        gc.disable()
        gc.collect()
        rc0 = {i: ctypes.c_ssize_t.from_address(i).value for i in uniq}
        for k, a in enumerate(infos):
            if a.isobj and not a.isin:
                for ix, off in s['lay'][k].offsets():
                    p = ctypes.c_void_p.from_address(s['pools'][k].base + off).value
                    if p:
                        rc0[p] -= 1
    Log.raised = Log.after = 0
    exc = None
    live0 = Num.live
    try:
        L.fn(ctypes.addressof(A), ctypes.addressof(D), ctypes.addressof(T), L.data)
    except BaseException as e:
        exc = type(e).__name__
        e = None
    live1 = Num.live
    raised, after = Log.raised, Log.after
    Log.raised = Log.after = 0
    if list(D) != dimtab + [99] or list(T) != steps + [77]:
        return 'the loop wrote to dims or steps'
    if isobj:
        if raised and exc is None:
            return 'an exception raised by an element operation was lost'
        if after:
            return 'an element operation was called with an exception set'
    if exc and not raised:
        if N == 0 and exc == 'ValueError':
            return 'skip'
        if exp is not None and any(S.may_raise for S, r in exp) and exc in ('ValueError',):
            return 'skip'
        return f'unexpected exception {exc}'
    if exc is None and N and exp is not None and any(S.may_raise for S, r in exp):
        return 'no exception was raised'
    # stray writes
    for k, a in enumerate(infos):
        diff = s['pools'][k].buf != before[k]
        if a.isin:
            if k in s['shared'].values():
                continue
            if diff.any():
                return f"input {k} was modified (offset {int(np.argmax(diff)) - s['lay'][k].off})"
        else:
            d = diff & ~s['masks'][k]
            if d.any():
                return f"write outside the elements of output {k - L.u['nin']} (offset {int(np.argmax(d)) - s['lay'][k].off} from its first element)"
    # values
    outs = {}
    for k, a in enumerate(infos):
        if a.isin:
            continue
        for ix, off in s['lay'][k].offsets():
            if a.isobj:
                outs[k - L.u['nin'], ix] = ctypes.c_void_p.from_address(s['pools'][k].base + off).value
            else:
                outs[k - L.u['nin'], ix] = np.frombuffer(s['pools'][k].buf[off:off + a.itemsize].tobytes(), DT[a.char])[0]
    if isobj:
        cnt = {}
        for (k, ix), v in outs.items():
            if infos[L.u['nin'] + k].isobj and v:
                cnt[v] = cnt.get(v, 0) + 1
        for i in rc0:
            if ctypes.c_ssize_t.from_address(i).value != rc0[i] + cnt.get(i, 0):
                return f"reference count of an input object changed by {ctypes.c_ssize_t.from_address(i).value - rc0[i]}, stored {cnt.get(i, 0)} times in outputs"
        for v, c in cnt.items():
            if v not in rc0 and ctypes.c_ssize_t.from_address(v).value != c and ctypes.c_ssize_t.from_address(v).value < (1 << 30):
                return f"new object in output has reference count {ctypes.c_ssize_t.from_address(v).value}, stored {c} times"
        new = sum(isinstance(ctypes.cast(v, ctypes.py_object).value, Num) for v in cnt if v not in rc0)
        if live1 - live0 > new:
            return f"{live1 - live0 - new} objects created by element operations were not released"
        for key, v in list(outs.items()):
            if infos[L.u['nin'] + key[0]].isobj and v:
                outs[key] = ctypes.cast(v, ctypes.py_object).value
    try:
        if exc is not None or exp is None or mode == 'memory':
            return None
        for b, (S, r) in enumerate(exp):
            scale = 0.
            for a, arr in zip(infos, s['ins']):
                if not a.isobj and a.kind != 'i' and arr.size:
                    f = np.abs(arr[b])
                    f = f[np.isfinite(f)] if np.ndim(f) else (f if np.isfinite(f) else np.float64(0))
                    if np.size(f):
                        scale = max(scale, np.max(f))
            for (k, ix), want in r.items():
                a = infos[L.u['nin'] + k]
                got = outs[k, (b, *ix)]
                if a.isobj:
                    if got is want:
                        continue
                    bad = not (isinstance(got, Num) and isinstance(want, Num) and got.v == want.v)
                elif a.cplx:
                    bad = not all(close(g, w, S.tols[k], scale, a.kind) for g, w in ((got.real, want[0]), (got.imag, want[1])))
                elif a.kind == 'i':
                    w = int(want)
                    lo, hi = (-(1 << (a.bits - 1)), (1 << (a.bits - 1)) - 1) if a.signed else (0, (1 << a.bits) - 1)
                    bad = lo <= w <= hi and int(got) != w
                else:
                    bad = not close(got, NPT[a.kind](want), S.tols[k], scale, a.kind)
                if bad:
                    return f"output {k}[{', '.join(map(str, (b, *ix)))}] is {got!r}, expected {want!r}"
            for name, fn in S.ensures:
                def outval(k):
                    a = infos[L.u['nin'] + k]
                    return lambda *ix: S.conv(a, outs[k, (b, *[int(i) for i in ix])])
                try:
                    with np.errstate(all='ignore'):
                        held = bool(fn(outval))
                except Skip:
                    return None
                if not held:
                    return f"batch element {b}: {name} does not hold"
        return None
    finally:
        for k, a in enumerate(infos):
            if a.isobj and not a.isin:
                for ix, off in s['lay'][k].offsets():
                    p = ctypes.c_void_p.from_address(s['pools'][k].base + off)
                    if p.value:
                        o = ctypes.cast(p.value, ctypes.py_object)
                        ctypes.pythonapi.Py_DecRef(o)
                        p.value = None


def hints_of(L, specfn):
    names = dim_names(L.u)
    dims = {d: int(d) if d.isdigit() else 3 for d in names}
    infos = make_infos(L.u, L.loop, dims)
    ins = [np.ones(a.dims, DT[a.char]) if not a.isobj else np.full(a.dims, Num(1), dtype=object) for a in infos[:L.u['nin']]]
    for i, a in enumerate(infos[:L.u['nin']]):
        if a.isobj and not a.dims:
            z = np.empty((), dtype=object); z[()] = Num(1); ins[i] = z
    S = ConS(L.u, L.loop, dims, ins, ins)
    try:
        specfn(S)
    except (Skip, IndexError, KeyError):
        pass
    return S.hints, S.dimhints


def search(req):
    prog = open(req['progress'], 'r+b', buffering=0)
    deadline = time.time() + req['seconds']
    res = dict(failures=[], samples=0, checked=0, notes=[])
    n = len(req['tasks'])
    for ti, t in enumerate(req['tasks']):
        if ti < req.get('skip', 0):
            continue
        tend = time.time() + max(1.0, (deadline - time.time()) / max(1, n - ti))
        L = Loop(t['so'], t['mod'], t['attr'], t['index'])
        fn = specfn_for(t['mod'], t['attr'])
        hints = hints_of(L, fn)
        i = 0
        consec = 0
        while time.time() < tend and i < req.get('maxsamples', 100000):
            os.pwrite(prog.fileno(), struct.pack('<qq', ti, i), 0)
            try:
                s = sample(L, fn, req['seed'], i, hints)
            except Skip:
                i += 1
                continue
            r = run_sample(L, fn, s, req.get('mode', 'full'))
            res['samples'] += 1
            if r != 'skip':
                res['checked'] += 1
                if r is not None:
                    d = describe(L, s)
                    res['failures'].append(dict(task=t, seed=req['seed'], sample=i, mode=req.get('mode', 'full'), what=r, input=d))
                    break
            i += 1
        if len(res['failures']) >= req.get('maxfail', 3):
            break
    with open(req['result'], 'w') as f:
        json.dump(res, f, default=str)


def replay_one(path):
    """rebuild the module from the current tree and re-run the recorded sample"""
    f = json.load(open(path))
    import tempfile, shutil
    from dv import extract as X
    d = tempfile.mkdtemp(prefix='dvreplay')
    try:
        root = X.stage(d)
        t = f['task']
        so = X.build_so(root, t['mod'], native=True)
        L = Loop(so, t['mod'], t['attr'], t['index'])
        fn = specfn_for(t['mod'], t['attr'])
        s = sample(L, fn, f['seed'], f['sample'], hints_of(L, fn))
        print(json.dumps(describe(L, s), indent=1, default=str), flush=True)
        r = run_sample(L, fn, s, f['mode'])
        print('result:', r)
        return 1 if r not in (None, 'skip') else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    np.seterr(all='ignore')
    if sys.argv[1] == 'search':
        search(json.load(open(sys.argv[2])))
    elif sys.argv[1] == 'describe':
        f = json.load(open(sys.argv[2]))
        t = f['task']
        L = Loop(t['so'], t['mod'], t['attr'], t['index'])
        fn = specfn_for(t['mod'], t['attr'])
        print('@@' + json.dumps(describe(L, sample(L, fn, f['seed'], f['sample'], hints_of(L, fn))), default=str))
    else:
        sys.exit(replay_one(sys.argv[2]))
