"""Contracts of external functions: C library mathematics, CPython API, the C++ library, compiler intrinsics.
Everything here is trusted (assumed), and reported as such."""
import re
from fractions import Fraction
import z3
from . import terms as T
from .terms import Poly, P, IV, FV, OV, PV, UNDEF, And, Or, Not, Implies, ite, Unsupported, fconst, zb, is_sym, FT

MATH1 = {'exp', 'log', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'floor', 'ceil', 'trunc', 'round', 'rint',
         'nearbyint', 'lgamma', 'tgamma', 'erf', 'erfc', 'cbrt', 'log2', 'log10', 'exp2', 'sinh', 'cosh', 'tanh', 'fabs', 'asinh', 'acosh', 'atanh'}
MATH2 = {'pow', 'atan2', 'hypot', 'fmod', 'nextafter', 'copysign', 'remainder', 'fdim'}
IGNORE = re.compile(r'^@(llvm\.(lifetime|experimental\.noalias|dbg|assume|invariant|donothing)|feclearexcept|fetestexcept|npy_clear_floatstatus'
                    r'|PyGILState_Ensure|PyGILState_Release|__cxa_begin_catch|__cxa_end_catch|llvm\.eh\.typeid)')


def trust(ex, what):
    if not ex.dry:
        ex.assumed.add(what)


def no_pending(ex, st, n):
    ex.oblige('exception', f"{n} is not called with an exception set", Not(st.gh.get('err', False)))


def take_ref(ex, st, x):
    """give up one owned reference to x; False if there is none"""
    rem = list(st.gh.get('refs', ()))
    for k, o in enumerate(rem):
        if o.t.eq(x.t):
            del rem[k]
            st.gh['refs'] = tuple(rem)
            return True
    for k, o in enumerate(rem):
        if not ex.dry and ex.C.prove(zb(o.t == x.t)):
            del rem[k]
            st.gh['refs'] = tuple(rem)
            return True
    return False


def args_of(ex, i, st):
    return [ex.val(t, v, st) for t, v in i.a[1:]]


def call(ex, name, i, st):
    n = name[1:].strip('"')
    C = ex.C
    if IGNORE.match(name):
        if i.res:
            return ex.fresh(i.ty, 'ign') if i.ty != ('void',) else None
        return None
    S = ex.spec
    ov = S.calls.get(n) if hasattr(S, 'calls') else None
    if ov:
        return ov(ex, i, st, args_of(ex, i, st))
    # ---- intrinsics
    m = re.match(r'llvm\.(\w+)\.(?:f32|f64|f80)$', n)
    if n.startswith('llvm.is.fpclass'):
        x = ex.val(*i.a[1], st)
        mask = ex.val(*i.a[2], st).s().cval()
        return fpclass(x, mask)
    if m and m.group(1) in ('minnum', 'maxnum'):
        a, b = args_of(ex, i, st)
        lt = (a < b) if m.group(1) == 'minnum' else (a > b)
        return ite(a.nan(), b, ite(b.nan(), a, ite(lt, a, b)))
    if m and m.group(1) in ('fmuladd', 'fma'):
        a, b, c = args_of(ex, i, st)
        return T.math('fma', a.ty, a, b, c)
    if m and (m.group(1) in MATH1 or m.group(1) in MATH2):
        a = args_of(ex, i, st)
        return T.math(m.group(1), a[0].ty, *a)
    m = re.match(r'llvm\.(smax|smin|umax|umin|abs)\.i(\d+)$', n)
    if m:
        a = args_of(ex, i, st)
        b = int(m.group(2))
        if m.group(1) == 'abs':
            x = a[0].s()
            ex.oblige('overflow', 'abs does not overflow', Not(x.eq(-(1 << (b - 1)))), 'absolute value of the most negative integer excluded')
            return IV(b, ite(x >= 0, x, -x))
        u = m.group(1)[0] == 'u'
        x, y = (a[0].u(), a[1].u()) if u else (a[0].s(), a[1].s())
        r = ite(x < y, x, y) if m.group(1).endswith('min') else ite(x < y, y, x)
        return IV(b, u=r) if u else IV(b, s=r)
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
        a = args_of(ex, i, st)
        memcpy(ex, a[0], a[1], a[2], st)
        return a[0]
    if n.startswith('llvm.memset') or n == 'memset':
        a = args_of(ex, i, st)
        memset(ex, a[0], a[1], a[2], st)
        return a[0]
    if n.startswith('llvm.expect'):
        return args_of(ex, i, st)[0]
    # ---- libm
    base = n
    if base in MATH1 or base in MATH2 or base == 'fma' or base in ('fmin', 'fmax'):
        nm, ty = base, 'f64'
    elif base[-1:] == 'f' and (base[:-1] in MATH1 or base[:-1] in MATH2 or base[:-1] in ('fma', 'fmin', 'fmax')):
        nm, ty = base[:-1], 'f32'
    elif base[-1:] == 'l' and (base[:-1] in MATH1 or base[:-1] in MATH2 or base[:-1] in ('fma', 'fmin', 'fmax')):
        nm, ty = base[:-1], 'f80'
    else:
        nm = None
    if nm:
        a = args_of(ex, i, st)
        if UNDEF in a:
            return UNDEF
        if nm in ('fmin', 'fmax'):
            lt = (a[0] < a[1]) if nm == 'fmin' else (a[0] > a[1])
            return ite(a[0].nan(), a[1], ite(a[1].nan(), a[0], ite(lt, a[0], a[1])))
        if nm not in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc'):
            trust(ex, f"libm {nm} is a deterministic function of its arguments")
        return T.math(nm, ty, *a)
    if n in ('cabs', 'cabsf', 'cabsl'):
        a = args_of(ex, i, st)
        if n == 'cabs':
            re_, im = a
        elif n == 'cabsf':
            re_, im = a[0]
        else:
            re_ = ex.load(a[0], ('f', 'x86_fp80'), st)
            im = ex.load(PV(a[0].r, a[0].off + 16), ('f', 'x86_fp80'), st)
        if re_ is UNDEF or im is UNDEF:
            return UNDEF
        trust(ex, "libm cabs is a deterministic function of its arguments")
        return T.math('hypot', re_.ty, re_, im)
    m = re.match(r'(clog|cexp|csqrt|csin|ccos)(f?)$|__(mul|div)([sd])c3$', n)
    if m:
        a = args_of(ex, i, st)
        if len(a) == 1 and isinstance(a[0], tuple):
            a = list(a[0])
        if UNDEF in a:
            return (UNDEF, UNDEF)
        ty = 'f32' if m.group(2) == 'f' or m.group(4) == 's' else 'f64'
        nm = m.group(1) or 'c' + m.group(3)
        trust(ex, f"complex {nm} of the C library is a deterministic function of its arguments")
        return (T.math(nm + '_re', ty, *a), T.math(nm + '_im', ty, *a))
    if n in ('npy_half_to_float',):
        x = ex.val(*i.a[1], st)
        h = half_of(ex, x)
        return T.fpext(h, 'f32')
    # ---- CPython
    if n == 'PyObject_RichCompareBool':
        x, y, op = args_of(ex, i, st)
        x, y = obj(ex, x), obj(ex, y)
        r = S.cmp(x, y, op.s())
        no_pending(ex, st, n)
        st.gh['err'] = Or(st.gh.get('err', False), r.eq(-1))
        trust(ex, "PyObject_RichCompareBool returns -1 (with an exception), 0 or 1, as a function of its operands")
        return IV(32, s=r)
    if n in ('PyNumber_Subtract', 'PyNumber_Multiply', 'PyNumber_Add', 'PyNumber_TrueDivide', 'PyNumber_Negative', 'PyNumber_Absolute'):
        a = [obj(ex, x) for x in args_of(ex, i, st)]
        no_pending(ex, st, n)
        r = S.pyop(n, *a)
        st.gh['err'] = Or(st.gh.get('err', False), r.t == T.NULLOBJ)
        st.gh['refs'] = st.gh.get('refs', ()) + (r,)
        trust(ex, "CPython number protocol calls return a new reference, or NULL with an exception set")
        return r
    if re.search(r'Py_X?INCREFP?7?_?', n) or n in ('Py_INCREF', 'Py_XINCREF', 'Py_IncRef'):
        x = obj(ex, args_of(ex, i, st)[0])
        st.gh['refs'] = st.gh.get('refs', ()) + (x,)
        return None
    if re.search(r'Py_X?DECREFP?7?_?', n) or n in ('Py_DECREF', 'Py_XDECREF', 'Py_DecRef'):
        x = obj(ex, args_of(ex, i, st)[0])
        if not take_ref(ex, st, x):
            g = zb(x.t == T.NULLOBJ)
            ex.oblige('reference', "only owned references are released", g)
        return None
    if n in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetObject', 'PyErr_NoMemory', 'PyErr_SetNone'):
        ex.oblige('exception', f"{n} is called only under the contract's stated conditions", Or(*[c() if callable(c) else c for c in S.raise_conds]))
        st.gh['err'] = True
        if n in ('PyErr_SetString', 'PyErr_Format', 'PyErr_SetNone'):
            st.gh['exctype'] = str(args_of(ex, i, st)[0].t) if isinstance(args_of(ex, i, st)[0], OV) else repr(args_of(ex, i, st)[0])
        if i.ty != ('void',):
            return PV(None, P(0))
        return None
    if n == 'PyErr_Occurred':
        e = st.gh.get('err', False)
        o = OV(z3.Const(C.name('exc'), T.OBJ))
        C.assume(zb(T.Iff(o.t != T.NULLOBJ, e)))
        return o
    if n == 'PyErr_Clear':
        ex.oblige('exception', "no exception is discarded", Not(st.gh.get('err', False)))
        st.gh['err'] = False
        return None
    # ---- allocation
    if n in ('malloc', 'calloc', 'PyMem_Malloc', 'PyMem_RawMalloc', 'PyMem_Calloc', 'PyMem_RawCalloc', '_Znwm', '_Znam'):
        from .sx import LocalRegion, Init
        a = args_of(ex, i, st)
        if len(a) == 2:
            size = a[0].s() * a[1].s() if not (a[0]._s is None) else a[0].u() * a[1].u()
        else:
            size = a[0].s() if a[0]._s is not None else a[0].u()
        ex.nalloc = getattr(ex, 'nalloc', 0) + 1
        r = LocalRegion(f"{n}{ex.nalloc}", size, heap=True)
        if 'alloc' in n and 'calloc' in n.lower():
            def zero(idx, ty):
                if ty is None:
                    raise Unsupported('zeroed memory of unknown type')
                return ex.zero(ty)
            st.mem[r] = Init(zero)
        else:
            st.mem[r] = None
        trust(ex, "memory allocation succeeds")
        if not ex.dry:
            C.assume(zb(And(size >= 0, size < (1 << 62))))      # a successful allocation is not larger than the address space
        st.gh[('alive', r)] = True
        return PV(r, P(0))
    if n in ('free', 'PyMem_Free', 'PyMem_RawFree', '_ZdlPv', '_ZdaPv', '_ZdlPvm'):
        p = args_of(ex, i, st)[0]
        if isinstance(p, PV) and p.r is not None:
            if not p.r.kind == 'local' or not p.r.heap:
                ex.fail('memory', 'free', 'free of memory that was not allocated')
            elif not ex.dry:
                if not st.gh.get(('alive', p.r), True):
                    ex.fail('memory', 'free', 'double free')
                ex.oblige('memory', 'free of the start of an allocation', p.off.eq(0))
                st.gh[('alive', p.r)] = False
        return None
    # ---- C++ library
    from . import cxx
    r = cxx.call(ex, n, i, st)
    if r is not NotImplemented:
        return r
    if n in ('_ZSt9terminatev', 'abort'):
        st.gh['noreturn'] = True
        return None
    m = re.match(r'_ZL?\d+(erfcx_y100)([fde])$', n)
    if m:
        trust(ex, f"{m.group(1)} is a function of its argument (its memory obligations are discharged with the body inlined; its accuracy is decided separately)")
        return T.math(m.group(1), {'f': 'f32', 'd': 'f64', 'e': 'f80'}[m.group(2)], *args_of(ex, i, st))
    f = n
    if f in ex.mod.decls or '@' + f in ex.mod.decls:
        raise Unsupported(f"call of external function {f} without a contract")
    if ex.dry and i.res:
        return ex.fresh(i.ty, 'call')
    raise Unsupported(f"call of {f}")


def indirect(ex, i, st):
    """call through a pointer: a slot of the imported NumPy C API table"""
    raise Unsupported("indirect call")


def obj(ex, v):
    if isinstance(v, OV):
        return v
    if isinstance(v, PV):
        if v.r is None:
            return OV(T.NULLOBJ)
        if v.r.kind == 'global':
            return OV(z3.Const('glob_' + v.r.name, T.OBJ))
    raise Unsupported('object operand')


def half_of(ex, x):
    """the half-precision value whose bits are x"""
    if x.bv is not None and z3.is_app(x.bv) and x.bv.decl().name() == 'bits_f16':
        return FV('f16', x.bv.arg(0))
    raise Unsupported("half from arbitrary bits")


def fpclass(x, mask):
    if x is UNDEF:
        return T.C.bool('undef')
    nan, pinf, ninf = x.nan(), z3.And(z3.Not(x.nan()), x.rk() == T.INF), z3.And(z3.Not(x.nan()), x.rk() == -T.INF)
    parts = []
    m = mask
    if m & 3 == 3:
        parts.append(nan)
    elif m & 3:
        sn = T.uf('snan_' + x.ty, T.SORT[x.ty], z3.BoolSort())(x.t)
        parts.append(sn if m & 3 == 1 else z3.And(nan, z3.Not(sn)))
    if m & 512:
        parts.append(pinf)
    if m & 4:
        parts.append(ninf)
    fin = m & 504
    if fin == 504:
        parts.append(T.finite(x))
    elif fin:
        f = T.finite(x)
        zero = z3.And(f, x.rk() == 0)
        mn = {'f32': Fraction(1, 2**126), 'f64': Fraction(1, 2**1022), 'f80': Fraction(1, 2**16382)}[x.ty]
        z = fin & 96
        if z == 96:
            parts.append(zero)
        elif z:
            sb = T.uf('signbit_' + x.ty, T.SORT[x.ty], z3.BoolSort())(x.t)
            parts.append(z3.And(zero, sb if z == 32 else z3.Not(sb)))
        if fin & 8:
            parts.append(z3.And(f, x.rk() <= -T.rq(mn)))
        if fin & 256:
            parts.append(z3.And(f, x.rk() >= T.rq(mn)))
        if fin & 16:
            parts.append(z3.And(f, x.rk() < 0, x.rk() > -T.rq(mn)))
        if fin & 128:
            parts.append(z3.And(f, x.rk() > 0, x.rk() < T.rq(mn)))
    return Or(*parts)


def elemtype(ex, r):
    k = r.info.kind
    if k == 'i':
        return ('i', r.info.bits)
    if k == 'obj':
        return ('ptr',)
    return ('f', {'f32': 'float', 'f64': 'double', 'f80': 'x86_fp80'}[k]) if k != 'f16' else ('i', 16)


def memcpy(ex, dst, src, size, st):
    n = size.s()
    if not n.isconst() and size._u is not None:
        n = size.u()
    if ex.dry:
        ex.dry_stores.append((dst, UNDEF, 'memcpy'))
        return
    if not n.isconst():
        return memcpy_range(ex, dst, src, n, st)
    n = n.cval()
    # padding of a long double (bytes 10..15 of its slot)
    if n == 6 and isinstance(src, PV) and isinstance(dst, PV) and src.r is not None and dst.r is not None:
        arrs = [q for q in (src, dst) if q.r.kind == 'arr']
        if all(q.r.info.kind == 'f80' for q in arrs):
            for q in arrs:
                if q is dst and q.r.info.isin:
                    ex.fail('frame', f"store to input {q.r.name}", "input memory is modified")
                ex.elem(q.r, q.off - 10, 'memcpy of padding', 16, st)
            return
    # element-wise copy driven by the typed side
    for side in (src, dst):
        if isinstance(side, PV) and side.r is not None and side.r.kind == 'arr':
            t = elemtype(ex, side.r)
            s = ex.mod.size(t)
            if n % s:
                raise Unsupported("partial memcpy")
            for k in range(n // s):
                v = ex.load(PV(src.r, src.off + k * s), t, st, 'memcpy')
                ex.store(PV(dst.r, dst.off + k * s), v, t, st, 'memcpy')
            return
    if src.r.kind == 'local' and dst.r.kind == 'local':
        # copy whatever cells were stored within [src, src+n)
        node = st.mem.get(src.r)
        seen = set()
        todo = []
        from .sx import Store
        while isinstance(node, Store):
            d = node.idx[0] - src.off
            if not d.isconst():
                raise Unsupported("memcpy of symbolic cells")
            if 0 <= d.cval() < n and d.cval() not in seen:
                seen.add(d.cval())
                todo.append((d.cval(), node.val))
            node = node.next
        if node is not None:
            raise Unsupported("memcpy of summarised memory")
        for d, v in todo:
            st.mem[dst.r] = Store((dst.off + d,), v, st.mem.get(dst.r))
        return
    if src.r.kind == 'global' and dst.r.kind == 'local':
        raise Unsupported("memcpy from constant")
    raise Unsupported("memcpy")


def memcpy_range(ex, dst, src, n, st):
    """copy of a run of whole elements; the run must be contiguous on both sides"""
    from .sx import Summary
    C = ex.C
    if not (isinstance(src, PV) and isinstance(dst, PV)) or src.r is None or dst.r is None:
        raise Unsupported("memcpy operands")
    side = next((p for p in (src, dst) if p.r.kind == 'arr'), None)
    if side is None or side.r.info.cplx or side.r.info.isobj or any(p.r.kind not in ('arr', 'local') for p in (src, dst)):
        raise Unsupported("memcpy of symbolic size")
    t = elemtype(ex, side.r)
    s = side.r.info.itemsize
    if any(c % s for c in n.d.values()):
        raise Unsupported("memcpy of partial elements")
    cnt = Poly({m: c // s for m, c in n.d.items()})
    ex.oblige('memory', 'memcpy: size is not negative', cnt >= 0)
    msz = 10 if t == ('f', 'x86_fp80') else s

    def row(p):
        inf = p.r.info if p.r.kind == 'arr' else None
        return inf.dims[-1].cval() if inf is not None and len(inf.dims) == 2 and inf.dims[-1].isconst() else 1
    if dst.r.kind == 'arr' and dst.r.info.isin:
        ex.fail('frame', 'memcpy', f'input {dst.r.name} is modified')
        return
    for p in (src, dst):
        w = row(p)
        for c in range(w):
            a = C.int('cpy')
            C.push()
            try:
                q = a * w + c
                C.assume(zb(And(a >= 0, q < cnt)))
                if p.r.kind == 'arr':
                    if ex.elem(p.r, p.off + q * s, 'memcpy', msz, st) is None:
                        return
                else:
                    ex.local_bounds(p.r, p.off + q * s, s, 'memcpy', st)
            finally:
                C.pop()
    chain0 = st.mem.get(src.r)

    def srcval(q):
        off = src.off + q * s
        if src.r.kind == 'arr':
            e = ex.resolve(src.r, off)
            if e is None:
                raise Unsupported("memcpy source")
            return ex.chain(chain0, tuple(e[1]), t, src.r)
        return ex.chain(chain0, (off,), t, src.r)
    old = st.mem.get(dst.r)
    if dst.r.kind == 'arr':
        e = ex.resolve(dst.r, dst.off)
        if e is None:
            raise Unsupported("memcpy destination")
        base = e[1]
        w = row(dst)

        def lin(idx):
            return idx[0] - base[0] if len(idx) == 1 else (idx[0] - base[0]) * w + idx[1] - base[1]
    else:
        def lin(idx):
            d = idx[0] - dst.off
            if any(c % s for c in d.d.values()):
                raise Unsupported("read of a part of a copied element")
            return Poly({m: c // s for m, c in d.d.items()})

    def fn(idx, ty):
        if dst.r.kind == 'arr' and len(idx) == 2 and w > 1 and not idx[1].isconst():
            v = fn((idx[0], P(w - 1)), ty)
            for c in range(w - 1):
                v = ite(idx[1].eq(c), fn((idx[0], P(c)), ty), v)
            return v
        q = lin(idx)
        c = And(q >= 0, q < cnt)
        if c is True or C.prove(zb(c)):
            return srcval(q)
        o = ex.chain(old, idx, ty, dst.r)
        if C.prove(zb(Not(c))):
            return o
        return ite(c, srcval(q), o)
    st.mem[dst.r] = Summary(fn)
    if dst.r.kind == 'arr':
        st.gh['wrote'] = True


def memset(ex, dst, byte, size, st):
    if ex.dry:
        ex.dry_stores.append((dst, UNDEF, 'memset'))
        return
    b = byte.s()
    if not b.isconst() or b.cval() != 0:
        raise Unsupported("memset with nonzero byte")
    if not isinstance(dst, PV) or dst.r is None:
        raise Unsupported("memset destination")
    from .sx import Summary
    n = size.s() if size._s is not None else size.u()
    C = ex.C
    if dst.r.kind == 'arr':
        r = dst.r
        inf = r.info
        isz = inf.itemsize
        if any(c % isz for c in n.d.values()):
            raise Unsupported("memset of partial elements")
        cnt = Poly({m: c // isz for m, c in n.d.items()})
        if inf.isin:
            ex.fail('frame', 'memset', f'input {r.name} is modified')
            return
        e = ex.resolve(r, dst.off)
        if e is None or len(inf.dims) != 1:
            raise Unsupported("memset address")
        J, idx, comp = e
        k0 = idx[0]
        if C.prove(zb(cnt <= 0)):
            return
        ex.oblige('memory', f"memset of {r.name}: current outer element", J.eq(st.gh.get('J')))
        # contiguous run: either the stride equals the item size, or a single element is cleared
        ex.oblige('memory', f"memset of {r.name}: elements are contiguous", Or(inf.strides[0].eq(isz), cnt <= 1))
        ex.oblige('memory', f"memset of {r.name}: within the array", Or(cnt <= 0, And(k0 >= 0, k0 + cnt <= inf.dims[0])))
        old = st.mem.get(r)
        zero = ex.zero(elemtype(ex, r))
        if inf.cplx:
            zero = (zero, zero)

        def fn(idx, ty, old=old, k0=k0, cnt=cnt, zero=zero):
            c = And(idx[0] >= k0, idx[0] < k0 + cnt)
            if c is True or C.prove(zb(c)):
                return zero
            o = ex.chain(old, idx, ty, r)
            if C.prove(zb(Not(c))):
                return o
            return ite(c, zero, o)
        st.mem[r] = Summary(fn)
        st.gh['wrote'] = True
        return
    if dst.r.kind == 'local':
        old = st.mem.get(dst.r)
        ex.local_bounds_range(dst.r, dst.off, n, st)

        def fn(idx, ty, old=old, o0=dst.off, n=n):
            c = And(idx[0] >= o0, idx[0] < o0 + n)
            if ty is None:
                raise Unsupported("memset type")
            z = ex.zero(ty)
            if c is True or C.prove(zb(c)):
                return z
            o = ex.chain(old, idx, ty, dst.r)
            if o is None:
                return z
            return ite(c, z, o)
        st.mem[dst.r] = Summary(fn)
        return
    raise Unsupported("memset")
