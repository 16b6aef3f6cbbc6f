"""Contracts of C++ library functions (trusted): std::vector of a scalar type, std::sort."""
import re
import z3
from . import terms as T
from .terms import Poly, P, IV, FV, PV, UNDEF, And, Or, Not, Implies, ite, Unsupported, zb

TY = {'f': ('f', 'float'), 'd': ('f', 'double'), 'e': ('f', 'x86_fp80'), 'l': ('i', 64), 'i': ('i', 32), 'x': ('i', 64), 'j': ('i', 32), 'm': ('i', 64),
      's': ('i', 16), 'a': ('i', 8), 'h': ('i', 8), 'c': ('i', 8)}


class Vec:
    def __init__(self, data, n, t, size):
        self.data, self.n, self.t, self.size = data, n, t, size


def key(p):
    if not isinstance(p, PV) or p.r is None or not p.off.isconst():
        raise Unsupported('std::vector at unknown address')
    return ('vec', p.r, p.off.cval())


def get(ex, st, p):
    v = st.gh.get(key(p))
    if v is None:
        raise Unsupported('use of an unconstructed std::vector')
    return v


def alloc(ex, st, t, n, zero):
    from .sx import LocalRegion, Init, Summary
    from .libc import trust
    s = 16 if t == ('f', 'x86_fp80') else ex.mod.size(t)
    if not ex.dry:
        ex.C.assume(zb(And(n >= 0, n * s < (1 << 62))))
    trust(ex, "memory allocation succeeds")
    trust(ex, "std::vector behaves as its standard specifies")
    ex.nalloc = getattr(ex, 'nalloc', 0) + 1
    r = LocalRegion(f"vector{ex.nalloc}", n * s, heap=True)
    st.mem[r] = Init(lambda idx, ty, t=t: ex.zero(ty or t))
    st.gh[('alive', r)] = True
    return Vec(r, n, t, s)


def release(ex, st, v):
    if v.data is not None and not ex.dry:
        st.gh[('alive', v.data)] = False


def call(ex, n, i, st):
    from .libc import args_of, trust
    m = re.match(r'_ZNK?St6vectorI([fdelixjmsahc])SaI\1EE(\w+)$', n)
    if m:
        t, f = TY[m.group(1)], m.group(2)
        a = args_of(ex, i, st)
        this = a[0]
        if f in ('C2Ev', 'C1Ev'):
            st.gh[key(this)] = Vec(None, P(0), t, None)
            return None
        if re.match(r'C[12]EmRKS0_$', f):
            st.gh[key(this)] = alloc(ex, st, t, a[1].s(), True)
            return None
        if f in ('D2Ev', 'D1Ev'):
            release(ex, st, get(ex, st, this))
            st.gh[key(this)] = None
            return None
        v = get(ex, st, this)
        if f == 'resize' or f == '6resizeEm':
            if v.data is not None:
                raise Unsupported('second resize of a std::vector')
            st.gh[key(this)] = alloc(ex, st, t, a[1].s(), True)
            return None
        if f in ('4sizeEv',):
            return IV(64, v.n)
        if f in ('5emptyEv',):
            return v.n.eq(0)
        if v.data is None and f in ('4dataEv', '5beginEv', '3endEv', '6cbeginEv', '4cendEv'):
            return PV(None, P(0))
        if f in ('4dataEv', '5beginEv', '6cbeginEv'):
            return PV(v.data, P(0))
        if f in ('3endEv', '4cendEv'):
            return PV(v.data, v.n * v.size)
        if f == 'ixEm':
            if v.data is None:
                ex.fail('memory', 'std::vector index', 'empty vector')
                return UNDEF
            return PV(v.data, a[1].s() * v.size)     # the access itself is checked against the allocation
        raise Unsupported(f"std::vector member {f}")
    m = re.match(r'_ZSt(4sort|11stable_sort)IN9__gnu_cxx17__normal_iteratorIP([fde])St6vectorI\2SaI\2EEEEEvT_S7_$', n)
    if m:
        a = args_of(ex, i, st)
        return sort(ex, st, TY[m.group(2)], a[0], a[1])
    m = re.match(r'_ZSt4sortIP([fde])EvT_S\d*_$', n)
    if m:
        a = args_of(ex, i, st)
        return sort(ex, st, TY[m.group(1)], a[0], a[1])
    return NotImplemented


def sort(ex, st, t, first, last):
    """requires first, last delimit a range of one allocation;  ensures the range is its old contents in nondecreasing order.
    The result is named sorted0(k) when the range is a copy of the whole first input."""
    from .libc import trust
    from .sx import Summary, FT
    C, S = ex.C, ex.spec
    if ex.dry:
        ex.dry_stores.append((first, UNDEF, 'sort'))
        return None
    if not isinstance(first, PV) or first.r is None or first.r.kind != 'local' or last.r is not first.r:
        raise Unsupported('std::sort range')
    r = first.r
    s = 16 if t == ('f', 'x86_fp80') else ex.mod.size(t)
    ex.oblige('memory', 'std::sort: valid range', And(first.off >= 0, last.off >= first.off, last.off <= r.size))
    trust(ex, "std::sort terminates, permutes its range and sorts it (also without failing when it holds NaN)")
    d = last.off - first.off
    if any(c % s for c in d.d.values()):
        raise Unsupported('std::sort range')
    n = Poly({m: c // s for m, c in d.d.items()})
    k = FT[t[1]]
    name = None
    inf = S.infos[0]
    if first.off.eq(0) is True and len(inf.dims) == 1 and inf.kind == k and C.prove(zb(n.eq(inf.dims[0]))):
        j = C.int('srt')
        C.push()
        C.assume(zb(And(j >= 0, j < n)))
        depth = S.depth
        S.depth = 1
        try:
            v = ex.chain(st.mem.get(r), (j * s,), t, r)
            w = S.x(0)(j)
            if isinstance(v, FV) and C.prove(zb(T.same_strict(v, w))):
                name = 'sorted0_' + k
        finally:
            S.depth = depth
            C.pop()
    if name is None:
        ex.nsort = getattr(ex, 'nsort', 0) + 1
        name = f'sorted_{ex.nsort}_{k}'
    old = st.mem.get(r)

    def fn(idx, ty, o0=first.off, n=n, s=s):
        q = idx[0] - o0
        if any(c % s for c in q.d.values()):
            raise Unsupported("read of a part of an element")
        q = Poly({m: c // s for m, c in q.d.items()})
        c = And(q >= 0, q < n)
        v = FV(k, T.uf(name, z3.IntSort(), T.SORT[k])(q.z()))
        if c is True or C.prove(zb(c)):
            return v
        return ite(c, v, ex.chain(old, idx, ty, r))
    st.mem[r] = Summary(fn)
    return None
