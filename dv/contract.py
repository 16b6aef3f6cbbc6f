"""Contracts: the typing of a registered loop's arguments, and the symbolic side of a specification
(fold functions, postconditions).  The same specification functions are evaluated concretely by replay.py."""
import re
import z3
from . import terms as T
from .terms import Poly, P, IV, FV, OV, And, Or, Not, Implies, Unsupported, is_sym, zb

# typenum -> (char, kind, bits, signed, itemsize)
TYPES = {0: ('?', 'i', 8, False, 1), 1: ('b', 'i', 8, True, 1), 2: ('B', 'i', 8, False, 1), 3: ('h', 'i', 16, True, 2),
         4: ('H', 'i', 16, False, 2), 5: ('i', 'i', 32, True, 4), 6: ('I', 'i', 32, False, 4), 7: ('l', 'i', 64, True, 8),
         8: ('L', 'i', 64, False, 8), 9: ('q', 'i', 64, True, 8), 10: ('Q', 'i', 64, False, 8),
         11: ('f', 'f32', 32, True, 4), 12: ('d', 'f64', 64, True, 8), 13: ('g', 'f80', 80, True, 16),
         14: ('F', 'f32', 32, True, 8), 15: ('D', 'f64', 64, True, 16), 16: ('G', 'f80', 80, True, 32),
         17: ('O', 'obj', 64, False, 8), 23: ('e', 'f16', 16, True, 2)}


def parse_sig(sig, nin, nout):
    if not sig:
        return [[] for _ in range(nin + nout)]
    s = sig.replace(' ', '')
    parts = re.findall(r'\(([^()]*)\)', s)
    return [[d for d in p.split(',') if d] for p in parts]


class ArrInfo:
    pass


class SymFold:
    def __init__(self, S, name, init, step, start, params, stable):
        self.S, self.name, self.init, self.step, self.start, self.params, self.stable = S, name, init, step, start, params, stable
        ps = [Poly.atom(z3.Int(f"{name}_p{i}")) for i in range(params)]
        v = init(*ps)
        self.tup = isinstance(v, tuple)
        v = v if self.tup else (v,)
        self.kinds = []
        self.ufs = []
        ints = [z3.IntSort()] * (1 + params)
        for c, x in enumerate(v):
            if isinstance(x, FV):
                k, so = x.ty, T.SORT[x.ty]
            elif isinstance(x, bool) or is_sym(x):
                k, so = 'b', z3.BoolSort()
            elif isinstance(x, (Poly, int)):
                k, so = 'i', z3.IntSort()
            elif isinstance(x, OV):
                k, so = 'obj', T.OBJ
            else:
                raise TypeError(x)
            self.kinds.append(k)
            self.ufs.append(z3.Function(f"S:{S.uid}:{name}.{c}", *ints, so))
        self.terms = {}

    def raw(self, j, ps):
        j = P(j)
        a = [j.z()] + [P(p).z() for p in ps]
        r = []
        for k, f in zip(self.kinds, self.ufs):
            t = f(*a)
            r.append(FV(k, t) if k in T.SORT else t if k == 'b' else Poly.atom(t) if k == 'i' else OV(t))
        return r

    def tupl(self, v):
        return v if self.tup else (v,)

    def untup(self, v):
        return tuple(v) if self.tup else v[0]

    def __call__(self, j, *ps):
        v = self.raw(j, ps)
        self.touch(P(j), ps, v)
        if self.stable and self.S.rec is not None:
            self.S.rec.append((self, P(j), ps))
        return self.untup(v)

    def touch(self, j, ps, v, depth=None):
        S = self.S
        C = T.C
        depth = S.depth if depth is None else depth
        key = (self.name, j.key(), tuple(P(p).key() for p in ps))
        d0 = self.terms.get(key, (-1, None))[0]
        if d0 >= depth:
            return
        C.setitem(self.terms, key, (depth, (j, ps)))
        st = P(self.start)
        if d0 < 0:
            base = self.tupl(self.init(*ps))
            c = j <= st
            if c is not False:
                C.axiom(zb(Implies(c, And(*[T.same_strict(self.co(x, k), y) for x, y, k in zip(base, v, self.kinds)]))))
        if depth <= 0:
            return
        c = j > st
        if c is False:
            return
        saved = S.depth
        S.depth = depth - 1
        try:
            if j.isconst() and st.isconst() and j.cval() - st.cval() <= 4:
                S.depth = depth
            prev = self.raw(j - 1, ps)
            self.touch(j - 1, ps, prev, S.depth)
            nx = self.tupl(self.step(j - 1, *prev, *ps))
        finally:
            S.depth = saved
        C.axiom(zb(Implies(c, And(*[T.same_strict(self.co(x, k), y) for x, y, k in zip(nx, v, self.kinds)]))))

    def co(self, x, k):
        if k in T.SORT and not isinstance(x, FV):
            return T.fcoerce(T.FVlike(k), x)
        if k == 'i' and isinstance(x, int) and not isinstance(x, bool):
            return P(x)
        return x

    def stab(self, n, anchors, *ps):
        """instantiate: if the state after a was stable and a <= n then the state after n is the same"""
        n = P(n)
        vn = self.raw(n, ps)
        pk = tuple(P(p).key() for p in ps)
        for j in anchors:
            if j.same(n):
                continue
            va = self.raw(j, ps)
            self.touch(j, ps, va, 0)
            T.C.axiom(zb(Implies(And(j >= self.start, j <= n, self.stable(*va, *ps)),
                                 And(*[T.same_strict(x, y) for x, y in zip(va, vn)]))),
                      ('stab', self.name, j.key(), n.key(), pk))


class SymS:
    """symbolic side: one registered loop"""
    symbolic = True

    def __init__(self, u, loop, ctx, uid='s'):
        self.u, self.loop, self.C = u, loop, ctx
        self.uid = uid
        self.depth = 0
        self.xdepth = 0
        self.stripped = False   # only memory, frame, exception and reference obligations are wanted
        self.heavy = False      # skip the pass without floating-point axioms
        self.nin, self.nout = u['nin'], u['nout']
        self.dimlists = parse_sig(u['sig'], self.nin, self.nout)
        names = []
        for l in self.dimlists:
            for d in l:
                if d not in names:
                    names.append(d)
        self.dimorder = names
        self.N = Poly.atom(z3.Int('N'))
        self.control_atoms = set()
        self.stride_atoms = set()
        self.stride_div = {}
        self._facts = [And(self.N >= 0, self.N < (1 << 60))]
        self.control_atoms |= self.N.atoms()
        self.dims = {}
        for d in names:
            if d.isdigit():
                self.dims[d] = P(int(d))
            else:
                p = Poly.atom(z3.Int('dim_' + d.rstrip('?')))
                self.dims[d] = p
                self.control_atoms |= p.atoms()
                self._facts.append(And(p >= 0, p < (1 << 60)))
        self.dimtab = [self.N] + [self.dims[d] for d in names]
        self.infos = []
        nargs = self.nin + self.nout
        self.tynums = loop['types']
        from .sx import ArrRegion
        self.arrs = []
        core = []
        for k in range(nargs):
            ch, kind, bits, sg, isz = TYPES[loop['types'][k]]
            a = ArrInfo()
            a.k, a.isin, a.char, a.kind, a.bits, a.signed, a.itemsize = k, k < self.nin, ch, kind, bits, sg, isz
            a.cplx = ch in 'FDG'
            a.isobj = ch == 'O'
            a.name = ('in%d' % k) if a.isin else ('out%d' % (k - self.nin))
            a.batch = True
            a.dimnames = self.dimlists[k]
            a.dims = [self.dims[d] for d in a.dimnames]
            a.step = Poly.atom(z3.Int(f'step_{k}'))
            a.strides = [Poly.atom(z3.Int(f'stride_{k}_{i}')) for i in range(len(a.dims))]
            for s in [a.step] + a.strides:
                self.stride_atoms |= s.atoms()
                self._facts.append(And(s >= -(1 << 63), s < (1 << 63)))
            sym = [d for d in a.dims if not d.isconst()]
            if len(sym) == 1:
                c = isz
                for d in a.dims:
                    c *= max(d.cval(), 1) if d.isconst() else 1
                self._facts.append(sym[0] * c < (1 << 63))      # NumPy: the size of an array in bytes fits npy_intp
            core += a.strides
            self.infos.append(a)
            self.arrs.append(ArrRegion(k, a))
        self.steptab = [a.step for a in self.infos] + core
        self.elementwise = not u['sig']
        self.invs, self.ghosts, self.hooks, self.oldfn = [], [], {}, {}
        self.folds = []
        self.views = []
        self.index_preds = []
        self.outs = {}
        self.ensures = []
        self.auxes = []
        self.states = []
        self.requires = []
        self.dim_requires = []
        self.soft_overflow = True
        self.soft_fptoi = None
        self.unsigned_first = False
        self.lemmas = []
        self.tols = {}
        self.elemcache = {}
        self.xuf = {}
        self.use_old = bool(self.nin + self.nout)
        self.errok = False
        self.raise_conds = []
        self.rec = None
        self.has_batch = True
        self.tynames = [a.kind for a in self.infos]

    # ---- API used by specifications
    def ty(self, k):
        return self.infos[k].kind

    def chr(self, k):
        return self.infos[k].char

    def info(self, k):
        return self.infos[k]

    def dim(self, name):
        for k in (name, name + '?'):
            if k in self.dims:
                return self.dims[k]
        raise KeyError(name)

    def x(self, k):
        a = self.infos[k]

        def el(*idx):
            v = self.elem(a, tuple(P(i) for i in idx))
            return self.mathval(a, v)
        return el

    def sorted(self, k):
        """the elements of (one-dimensional, float) input k in nondecreasing order"""
        a = self.infos[k]
        return lambda j: FV(a.kind, T.uf(f'sorted{k}_{a.kind}', z3.IntSort(), T.SORT[a.kind])(P(j).z()))

    def fold(self, name, init, step, start=0, params=0, stable=None):
        f = SymFold(self, name, init, step, start, params, stable)
        self.folds.append(f)
        if stable:
            self.lemmas.append(('stable:' + name, f))
        return f

    def view(self, name, fn):
        self.views.append((name, fn))

    def out(self, k, fn, when=None, tol=0):
        self.outs[k] = (fn, when)

    def aux(self, k, fn):
        """a value some temporary or output array holds at an intermediate stage"""
        self.auxes.append((k, fn))

    def state(self, k, fn, rng=None):
        """contents of an output (or temporary: k None) array after `a` steps: fn(a, *idx), where rng(a, *idx)"""
        self.states.append((k, fn, rng))

    def index_pred(self, name, fn):
        self.index_preds.append((name, fn))

    def ensure(self, name, fn):
        """fn(outval) -> bool, outval(k)(*idx)"""
        self.ensures.append((name, fn))

    def require(self, c):
        self.requires.append(c)

    def require_dim(self, c):
        self.dim_requires.append(c)

    def require_contiguous(self):
        """the documented precondition of the *_contig functions: every array is C-contiguous in its core dimensions"""
        for a in self.infos:
            w = P(a.itemsize)
            for d in range(len(a.dims) - 1, -1, -1):
                self._facts.append(a.strides[d].eq(w))
                w = w * a.dims[d]

    def raises(self, c):
        """the loop sets an exception itself exactly when c (a condition on the dimensions) holds"""
        self.raise_conds.append(c)

    def gen(self, *a, **kw):
        pass

    def gendim(self, *a, **kw):
        pass

    def inv(self, name, fn):
        self.invs.append((name, fn))

    def ghost(self, name, lo, hi, prop, on):
        """an integer in [lo, hi] for which prop(i, p) holds at every index i of input `on` (a precondition)"""
        p = Poly.atom(z3.Int('ghost_' + name))
        self._facts.append(And(p >= lo, p <= hi))
        self.ghosts.append(p)
        self.hooks.setdefault(on, []).append(lambda i: Implies(And(i >= 0, i < self.infos[on].dims[0]), prop(i, p)))
        return lambda: p

    def old(self, k):
        a = self.infos[self.nin + k]

        def el(*idx):
            f = self.oldfn.get(a.k)
            if f is None:
                f = self.oldfn[a.k] = self.fresh_array(a, f"old{a.name}")
            return self.mathval(a, f(tuple(P(i) for i in idx), None))
        return el

    def wrapint(self, k, v):
        a = self.infos[k]
        lo, hi = (-(1 << (a.bits - 1)), 1 << (a.bits - 1)) if a.signed else (0, 1 << a.bits)
        v = P(v)
        return T.ite(v >= hi, v - (1 << a.bits), T.ite(v < lo, v + (1 << a.bits), v))

    def opt(self, **kw):
        for k, v in kw.items():
            if k in ('soft_overflow', 'soft_fptoi', 'xdepth', 'heavy', 'peel', 'pure'):
                setattr(self, k, v)

    def cmp(self, x, y, op):
        """PyObject_RichCompareBool"""
        r = Poly.atom(T.uf('richcmp', T.OBJ, T.OBJ, z3.IntSort(), z3.IntSort())(x.t, y.t, P(op).z()))
        self.C.axiom(And(r >= -1, r <= 1), ('cmp', r.key()))
        return r

    def pyop(self, name, *xs):
        return OV(T.uf(name, *([T.OBJ] * (len(xs) + 1)))(*[x.t for x in xs]))

    def nullobj(self):
        return OV(T.NULLOBJ)

    # ---- elements
    def elem(self, a, idx):
        key = (a.k, tuple(i.key() for i in idx))
        if key in self.elemcache:
            return self.elemcache[key]
        zi = [i.z() for i in idx]

        def mk(nm, so):
            if not zi:
                return z3.Const(nm, so)
            return T.uf(nm, *([z3.IntSort()] * len(zi)), so)(*zi)
        pre = 'X%d' % a.k
        if a.cplx:
            v = (FV(a.kind, mk(pre + 're', T.SORT[a.kind])), FV(a.kind, mk(pre + 'im', T.SORT[a.kind])))
        elif a.isobj:
            v = OV(mk(pre, T.OBJ))
            self.C.axiom(v.t != T.NULLOBJ)
        elif a.kind == 'i':
            t = mk(pre, z3.IntSort())
            p = Poly.atom(t)
            if a.signed:
                self.C.axiom(And(p >= -(1 << (a.bits - 1)), p < (1 << (a.bits - 1))))
                v = IV(a.bits, s=p)
            else:
                self.C.axiom(And(p >= 0, p < (2 if a.char == '?' else 1 << a.bits)))
                v = IV(a.bits, u=p)
        else:
            v = FV(a.kind, mk(pre, T.SORT[a.kind]))
        self.C.setitem(self.elemcache, key, v)
        for h in self.hooks.get(a.k, ()):
            self.C.axiom(zb(h(*idx)))
        return v

    def mathval(self, a, v):
        if isinstance(v, IV):
            return v.s() if a.signed else v.u()
        return v

    def init_mem(self, ex, st, tag):
        for r in self.arrs:
            a = r.info
            if a.isin:
                st.mem[r] = __import__('dv.sx', fromlist=['Init']).Init(lambda idx, ty, a=a: self.elem(a, idx))
            else:
                self.out_init(st, r, tag)

    def out_init(self, st, r, tag):
        from .sx import Init
        a = r.info
        if self.use_old:
            f = self.oldfn.get(a.k)
            if f is None:
                f = self.oldfn[a.k] = self.fresh_array(a, f"old{a.name}")
            st.mem[r] = Init(f)
            return
        st.mem[r] = Init(self.fresh_array(a, f"data{tag}{a.name}"))

    def fresh_array(self, a, nm):
        cache = {}

        def fn(idx, ty):
            key = tuple(i.key() for i in idx)
            if key in cache:
                return cache[key]
            zi = [i.z() for i in idx]

            def mk(n, so):
                return T.uf(n, *([z3.IntSort()] * len(zi)), so)(*zi) if zi else z3.Const(n, so)
            v = self.typed(a, mk, nm)
            self.C.setitem(cache, key, v)
            return v
        return fn

    def typed(self, a, mk, nm):
        if a.cplx:
            return (FV(a.kind, mk(nm + 're', T.SORT[a.kind])), FV(a.kind, mk(nm + 'im', T.SORT[a.kind])))
        if a.isobj:
            return OV(mk(nm, T.OBJ))
        if a.kind == 'i':
            p = Poly.atom(mk(nm, z3.IntSort()))
            if a.signed:
                self.C.axiom(And(p >= -(1 << (a.bits - 1)), p < (1 << (a.bits - 1))), ('rg', p.key()))
                return IV(a.bits, s=p)
            self.C.axiom(And(p >= 0, p < (1 << a.bits)), ('rg', p.key()))
            return IV(a.bits, u=p)
        return FV(a.kind, mk(nm, T.SORT[a.kind]))

    def bitfacts(self, v, bv):
        """IEEE encoding facts linking a float value to its bit pattern"""
        self.C.axiom(T.uf('signbit_' + v.ty, T.SORT[v.ty], z3.BoolSort())(v.t) == (z3.Extract(bv.size() - 1, bv.size() - 1, bv) == 1), ('sgbit', bv.get_id()))
        if v.ty == 'f80':
            return
        e, m = {'f16': (5, 10), 'f32': (8, 23), 'f64': (11, 52)}[v.ty]
        ex = z3.Extract(m + e - 1, m, bv)
        fr = z3.Extract(m - 1, 0, bv)
        ones = z3.BitVecVal((1 << e) - 1, e)
        self.C.axiom(v.nan() == z3.And(ex == ones, fr != 0), ('bits', bv.get_id()))
        qb = z3.Extract(m - 1, m - 1, bv)
        self.C.axiom(T.uf('snan_' + v.ty, T.SORT[v.ty], z3.BoolSort())(v.t) == z3.And(ex == ones, fr != 0, qb == 0), ('sbits', bv.get_id()))

    def issnan(self, v):
        return T.uf('snan_' + v.ty, T.SORT[v.ty], z3.BoolSort())(v.t)

    # ---- obligations at the end of one batch element / at return
    def outval(self, ex, st, k, idx):
        r = self.arrs[self.nin + k]
        v = ex.chain(st.mem[r], tuple(P(i) for i in idx))
        return self.mathval(r.info, v)

    def check_iteration(self, ex, st):
        C = self.C
        err = st.gh.get('err', False)
        if ex.probe:
            return
        saved = self.depth
        self.depth = 2
        try:
            for k in range(self.nout):
                if k not in self.outs:
                    if not self.ensures and not self.stripped:
                        raise Unsupported(f"no postcondition for output {k}")
                    continue
                fn, when = self.outs[k]
                a = self.infos[self.nin + k]
                C.push()
                idx = []
                for d, dm in zip(a.dimnames, a.dims):
                    i = C.int('post_' + d)
                    C.assume(zb(And(i >= 0, i < dm)))
                    idx.append(i)
                self.rec = []
                want = fn(*idx)
                got = self.outval(ex, st, k, idx)
                rec, self.rec = self.rec, None
                for f, j, ps in rec:
                    f.stab(j, tuple(st.gh.get('exits', ())) + (P(f.start),), *ps)
                g = T.eqv(got, want)
                if when is not None:
                    g = Implies(when(), g)
                g = Or(err, g)
                ex.oblige('postcondition', f"output {k} equals its specification", g)
                C.pop()
            for name, fn in self.ensures:
                C.push()
                g = fn(lambda k: (lambda *idx: self.outval(ex, st, k, idx)))
                ex.oblige('postcondition', name, Or(err, g))
                C.pop()
            self.check_refs(ex, st)
        finally:
            self.depth = saved

    def check_refs(self, ex, st):
        for o in st.gh.get('refs', ()):
            ex.oblige('reference', "every reference acquired is stored or released", o.t == T.NULLOBJ)

    def at_return(self, ex, st, v):
        err = st.gh.get('err', False)
        done = st.gh.get('done', P(0))
        ex.contract_checked += 1
        self.check_refs(ex, st)
        for c in self.raise_conds:
            ex.oblige('exception', "an exception is set when the contract demands one", Or(err, self.N.eq(0), Not(c() if callable(c) else c)))
        ex.oblige('coverage', "every batch element was processed, or an error is set", Or(err, P(done).eq(self.N)))
        for r in list(st.mem):
            if r.kind == 'local' and r.heap and st.gh.get(('alive', r), True):
                ex.oblige('memory', f"allocation {r.name} released", False)
