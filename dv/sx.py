"""Verification-condition generator: symbolic execution of one registered loop function (LLVM IR extracted
from the current tree) against its contract.  Every loop is cut at its header; invariants are closed forms of
affine induction variables, links to the contract's fold functions and memory summaries, found by a Houdini
fixpoint and proved inductive; the batch loop is checked against the contract at its back edge."""
import re, sys
from fractions import Fraction
import z3
from . import terms as T
from .terms import (Poly, P, IV, FV, OV, PV, UNDEF, And, Or, Not, Implies, Iff, ite, eqv, Unsupported, zb, is_sym,
                    FT, fconst, fcmp, fneg, fadd, fsub, fmul, fdiv)

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ CFG
def isdry(n):
    return n.startswith(('dry', 'ld!', 'div!', 'shr!', 'and!', 'bit!', 'rt!', 'glob!'))


_drycache = {}


def depends_on(e, pred):
    """does the z3 term contain an uninterpreted constant whose name satisfies pred"""
    if pred is isdry:
        # memoised over subterms (the terms are kept alive with their entry, so that ids stay unique)
        if len(_drycache) > 300000:
            _drycache.clear()
        stack = [e]
        while stack:
            x = stack[-1]
            k = x.get_id()
            if k in _drycache:
                stack.pop()
                continue
            if not z3.is_app(x):
                _drycache[k] = (x, False)
                continue
            if x.num_args() == 0:
                _drycache[k] = (x, x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()))
                continue
            r, todo = False, []
            for c in x.children():
                d = _drycache.get(c.get_id())
                if d is None:
                    todo.append(c)
                elif d[1]:
                    r = True
                    break
            if r or not todo:
                _drycache[k] = (x, r)
            else:
                stack += todo
        return _drycache[e.get_id()][1]
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and pred(x.decl().name()):
                return True
            stack += x.children()
    return False


class Loop:
    def __init__(self, h):
        self.h = h
        self.blocks = {h}
        self.parent = None
        self.depth = 0


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                s = [t.x[0]]
            else:
                s = []
            self.succ[b] = s
        entry = f.order[0]
        # reverse post order
        seen, post = set(), []
        stack = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while stack:
            b, itr = stack[-1]
            for s in itr:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.ix = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if b not in self.pred[s]:
                    self.pred[s].append(b)
        dom = {entry: {entry}}
        allb = set(self.rpo)
        for b in self.rpo[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = set.intersection(*[dom[p] for p in self.pred[b]]) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in dom[b]:
                    L = self.loops.setdefault(s, Loop(s))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in L.blocks:
                            L.blocks.add(x)
                            work += self.pred[x]
                elif self.ix[s] <= self.ix[b]:
                    raise Unsupported("irreducible control flow")
        ls = sorted(self.loops.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for m in ls[i + 1:]:
                if l.h in m.blocks:
                    l.parent = m
                    break
        for l in ls:
            d, m = 0, l.parent
            while m:
                d, m = d + 1, m.parent
            l.depth = d


# ------------------------------------------------------------------ regions
class Region:
    kind = '?'
    name = '?'

    def __repr__(self):
        return self.name

    _base = None

    def base(self):
        if self._base is None:
            self._base = T.C.int('addr_' + re.sub(r'\W', '', self.name))
        return self._base


class TableRegion(Region):
    def __init__(self, kind):
        self.kind = self.name = kind


class ArrRegion(Region):
    kind = 'arr'

    def __init__(self, k, info):
        self.k, self.info = k, info
        self.name = info.name


class LocalRegion(Region):
    kind = 'local'

    def __init__(self, name, size, heap=False):
        self.name, self.size, self.heap = name, size, heap
        self.alive = True
        self.zero = False
        self.step = None


class GlobalRegion(Region):
    kind = 'global'

    def __init__(self, name):
        self.name = name


# memory chains
class Init:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Store:
    __slots__ = ('idx', 'val', 'next')

    def __init__(self, idx, val, nxt):
        self.idx, self.val, self.next = idx, val, nxt


class Summary:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class State:
    __slots__ = ('env', 'mem', 'gh')

    def __init__(self):
        self.env, self.mem, self.gh = {}, {}, {}

    def copy(self):
        s = State()
        s.env, s.mem, s.gh = dict(self.env), dict(self.mem), dict(self.gh)
        return s


class Frame:
    def __init__(self, L, on_back, cont, info=None):
        self.L, self.on_back, self.cont, self.info = L, on_back, cont, info


class Oblig:
    __slots__ = ('name', 'kind', 'ok', 'why', 'trivial')

    def __init__(self, name, kind, ok, why, trivial):
        self.name, self.kind, self.ok, self.why, self.trivial = name, kind, ok, why, trivial


class Budget(Exception):
    pass


class Exec:
    def __init__(self, mod, func, spec, ctx, maxpaths=4000):
        self.mod, self.f, self.spec, self.C = mod, func, spec, ctx
        self.cfg = CFG(func)
        self.obl = []
        self.assumed = set()
        self.probe = 0
        self.early = False      # stop at the first rejected obligation (a second pass with the floating-point axioms follows)
        self.dry = False
        self.npaths = 0
        self.maxpaths = maxpaths
        self.args = TableRegion('args')
        self.dimsR = TableRegion('dims')
        self.stepsR = TableRegion('steps')
        self.globals = {}
        self.contract_checked = 0
        self.loop_report = {}
        self.nonvac = False

    # -------------------------------------------------- obligations
    def oblige(self, kind, what, goal, soft=None):
        """soft: text of an assumption to record if the goal cannot be proved (data-dependent C overflow)"""
        if self.dry:
            return
        if self.probe:
            self.C.assume(zb(goal))
            return
        if goal is True:
            self.obl.append(Oblig(f"{kind}: {what}", kind, True, '', True))
            return
        ok = self.C.prove(zb(goal))
        if not ok and self.C.last.startswith('unknown'):
            ok = self.C.prove(zb(goal), timeout=20000)
        if not ok and soft:
            self.assumed.add(soft)
            self.C.assume(zb(goal))
            return
        why = '' if ok else f"solver: {self.C.last}; goal {str(goal)[:400]}"
        self.obl.append(Oblig(f"{kind}: {what}", kind, ok, why, False))
        if not ok and self.early:
            raise Budget("rejected with uninterpreted arithmetic")
        self.C.assume(zb(goal))

    def fail(self, kind, what, why):
        if self.dry or self.probe:
            return
        self.obl.append(Oblig(f"{kind}: {what}", kind, False, why, False))

    # -------------------------------------------------- values
    def val(self, ty, v, st):
        k = v[0]
        ty = self.mod.resolve(ty)
        if k == 'reg':
            try:
                return st.env[v[1]]
            except KeyError:
                raise Unsupported(f"undefined {v[1]}")
        if k == 'int':
            if ty[0] == 'i' and ty[1] == 1:
                return bool(v[1])
            n = v[1]
            b = ty[1]
            if n >= 1 << (b - 1):
                n -= 1 << b
            return IV(b, P(n))
        if k == 'fp':
            return fp_const(v[1], FT[ty[1]])
        if k == 'null':
            return PV(None, P(0))
        if k in ('undef', 'poison'):
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'glob':
            return PV(self.globalr(v[1]), P(0))
        if k == 'agg':
            return tuple(self.val(t, x, st) for t, x in v[1])
        if k == 'cexpr':
            if v[1] == 'gep':
                return self.gep(v[2], v[3], st)
            if v[1] in ('bitcast',):
                return self.val(v[2], v[3], st)
        raise Unsupported(f"value {v}")

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            return False if ty[1] == 1 else IV(ty[1], P(0))
        if ty[0] == 'f':
            return fconst(FT[ty[1]], Fraction(0))
        if ty[0] == 'ptr':
            return PV(None, P(0))
        if ty[0] in ('arr', 'vec'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if ty[0] == 'st':
            return tuple(self.zero(t) for t in ty[1])
        raise Unsupported('zero of ' + str(ty))

    def globalr(self, n):
        if n not in self.globals:
            self.globals[n] = GlobalRegion(n)
        return self.globals[n]

    def fresh(self, ty, nm):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.C.bool(nm)
            a = self.C.int(nm)
            self.C.axiom(And(a >= -(1 << (ty[1] - 1)), a < (1 << (ty[1] - 1))))
            return IV(ty[1], a)
        if ty[0] == 'f':
            k = FT[ty[1]]
            return FV(k, z3.Const(self.C.name(nm), T.SORT[k]))
        if ty[0] == 'ptr':
            return OV(z3.Const(self.C.name(nm), T.OBJ))
        if ty[0] in ('vec', 'arr'):
            return tuple(self.fresh(ty[2], nm) for _ in range(ty[1]))
        if ty[0] == 'st':
            return tuple(self.fresh(t, nm) for t in ty[1])
        raise Unsupported('fresh ' + str(ty))

    def fresh_like(self, v, nm):
        if isinstance(v, IV):
            if v._s is None and v._u is not None:
                return IV(v.bits, u=self.C.int(nm))
            return self.fresh(('i', v.bits), nm)
        if isinstance(v, FV):
            return FV(v.ty, z3.Const(self.C.name(nm), T.SORT[v.ty]))
        if isinstance(v, OV):
            return OV(z3.Const(self.C.name(nm), T.OBJ))
        if isinstance(v, bool) or is_sym(v):
            return self.C.bool(nm)
        if isinstance(v, tuple):
            return tuple(self.fresh_like(x, nm) for x in v)
        if isinstance(v, PV):
            return PV(v.r, self.C.int(nm))
        raise Unsupported(f'fresh_like {v}')

    # -------------------------------------------------- addresses
    def gep(self, ty, ops, st):
        base = self.val(ops[0][0], ops[0][1], st)
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, PV):
            raise Unsupported("arithmetic on object pointer")
        off = base.off
        t = ty
        first = True
        for it, iv in ops[1:]:
            i = self.val(it, iv, st)
            if i is UNDEF:
                return UNDEF
            if first:
                off = off + i.s() * self.mod.size(t)
                first = False
                continue
            t = self.mod.resolve(t)
            if t[0] == 'st':
                c = i.s().cval()
                off = off + self.mod.offset(t, c)
                t = t[1][c]
            else:
                t = t[2]
                off = off + i.s() * self.mod.size(t)
        return PV(base.r, off)

    def resolve(self, r, off):
        """byte offset inside an array argument -> (indices, component byte offset) or None"""
        inf = r.info
        J = P(0)
        idx = [P(0)] * len(inf.dims)
        rest = P(0)
        strides = [inf.step] + inf.strides
        skey = []
        for s in strides:
            if s is None or s.isconst():
                skey.append(None)
            else:
                skey.append(next(iter(s.d))[0])
        for m, c in off.d.items():
            hit = None
            for i, k in enumerate(skey):
                if k is not None and k in m:
                    hit = i
                    break
            if hit is None:
                rest = rest + Poly({m: c})
                continue
            mm = list(m)
            mm.remove(skey[hit])
            q = Poly({tuple(mm): c})
            if hit == 0:
                J = J + q
            else:
                idx[hit - 1] = idx[hit - 1] + q
        # sdiv atoms of strides (stride/itemsize)*itemsize are folded by the division rule
        isz = inf.itemsize
        comp = 0
        if rest.isconst() and 0 <= rest.cval() < isz:
            comp = rest.cval()
        elif rest.isconst() and not inf.dims:
            return None
        else:
            # contiguous access: some stride equals a constant on this path
            c0 = rest.cval() % isz
            rr = rest - c0
            if any(c % isz for c in rr.d.values()):
                return None
            q = Poly({m: c // isz for m, c in rr.d.items()})
            if len(idx) == 2 and inf.dims[1].isconst() and inf.dims[1].cval() > 0 and (
                    self.dry or self.C.prove(And(inf.strides[1].eq(isz), inf.strides[0].eq(isz * inf.dims[1].cval())))):
                # C-contiguous two-dimensional array with a fixed row length
                n1 = inf.dims[1].cval()
                if all(c % n1 == 0 for m, c in q.d.items() if m):
                    k = q.d.get((), 0)
                    idx[0] = idx[0] + Poly({m: c // n1 for m, c in q.d.items() if m}) + k // n1
                    idx[1] = idx[1] + k % n1
                    return J, idx, c0
            if self.dry:
                if len(idx) >= 1:
                    idx[-1] = idx[-1] + q
                    return J, idx, c0
                return None
            for d in range(len(idx) - 1, -1, -1):
                if self.C.prove(inf.strides[d].eq(isz)):
                    idx[d] = idx[d] + q
                    break
            else:
                if not inf.dims and self.C.prove(inf.step.eq(isz)):
                    J = J + q
                elif rr.isconst() and self.C.prove(q.eq(0)):
                    pass
                else:
                    return None
            comp = c0
        return J, idx, comp

    def elem(self, r, off, what, size, st):
        """resolve + bounds obligations; returns (idx list, comp) or None"""
        res = self.resolve(r, off)
        if res is None:
            self.fail('memory', f"{what} of {r.name}", f"address offset {off} is not an element of the current slice")
            return None
        J, idx, comp = res
        inf = r.info
        if comp + size > inf.itemsize:
            self.fail('memory', f"{what} of {r.name}", f"access of {size} bytes at byte {comp} exceeds the {inf.itemsize}-byte element")
            return None
        if not self.dry:
            J0 = st.gh.get('J')
            if J0 is None:
                if inf.batch and inf.isin and self.C.prove(zb(inf.step.eq(0))):
                    # every outer element of this input is the same element: a hoisted read
                    self.assumed.add('numpy calls an inner loop with at least one outer element')
                    self.C.assume(zb(self.spec.N >= 1))
                elif inf.batch:
                    self.oblige('memory', f"{what} of {r.name}: outer index", And(J >= 0, J < self.spec.N))
                    self.fail('memory', f"{what} of {r.name}", "access outside the batch loop")
                    return None
            elif inf.batch:
                same = J.eq(J0)
                if inf.isin and same is not True and not J.atoms() & J0.atoms():
                    same = Or(same, inf.step.eq(0))
                self.oblige('memory', f"{what} of {r.name}: current outer element", same)
            for d, i in enumerate(idx):
                self.oblige('memory', f"{what} of {r.name}: index in [0,{inf.dimnames[d]})", And(i >= 0, i < inf.dims[d]))
        return idx, comp

    def load(self, ptr, ty, st, what='load'):
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        if ptr is UNDEF:
            if self.dry:
                return self.fresh(ty, 'ld')
            raise Unsupported("load through undef")
        if isinstance(ptr, SelPV):
            v = []
            for c, q in ((ptr.c, ptr.a), (Not(ptr.c), ptr.b)):
                self.C.push()
                try:
                    self.C.assume(zb(c))
                    v.append(self.load(q, ty, st, what))
                finally:
                    self.C.pop()
            return ite(ptr.c, v[0], v[1])
        if not isinstance(ptr, PV):
            if self.dry:
                return self.fresh(ty, 'ld')
            raise Unsupported("load through object pointer")
        r, off = ptr.r, ptr.off
        if r is None:
            self.fail('memory', what, 'null dereference')
            raise Budget("null dereference")
        if r.kind == 'args':
            if not off.isconst() or off.cval() % 8:
                raise Unsupported("args[] at non-constant index")
            k = off.cval() // 8
            if k >= len(self.spec.arrs):
                self.fail('memory', 'args[]', f"argument index {k} out of range")
                raise Budget("args index")
            return PV(self.spec.arrs[k], P(0))
        if r.kind in ('dims', 'steps', 'coredims'):
            tab = {'dims': self.spec.dimtab, 'steps': self.spec.steptab, 'coredims': self.spec.dimtab[1:]}[r.kind]
            if not off.isconst() or off.cval() % 8:
                raise Unsupported(r.kind + "[] at non-constant index")
            k = off.cval() // 8
            if k >= len(tab):
                self.fail('memory', r.kind + '[]', f"index {k} out of range {len(tab)}")
                raise Budget("table index")
            return IV(64, tab[k])
        if r.kind == 'global':
            return self.load_global(r, off, ty)
        if r.kind == 'arr':
            if self.dry and not r.info.isin:
                # as it was before the loop (only a guess)
                if ty[0] == 'f' and isinstance(st.mem.get(r), Summary):
                    try:
                        e = self.elem(r, off, what, size, st)
                        if e is not None and not any(depends_on(T._atoms[a], isdry) for p in e[0] for a in p.atoms()):
                            v = self.retype(self.read(st, r, tuple(e[0]), e[1]), ty, r)
                            if isinstance(v, FV):
                                return v
                    except Unsupported:
                        pass
                return self.fresh(ty, 'ld')
            if ty[0] == 'vec':
                s = self.mod.size(ty[2])
                return tuple(self.load(PV(r, off + i * s), ty[2], st, what) for i in range(ty[1]))
            if ty[0] == 'st':
                return tuple(self.load(PV(r, off + self.mod.offset(ty, i)), t, st, what) for i, t in enumerate(ty[1]))
            e = self.elem(r, off, what, size, st)
            if e is None:
                if self.dry:
                    return self.fresh(ty, 'ld')
                raise Budget("bad address")
            idx, comp = e
            if not r.info.isin and not self.dry:
                st.gh.setdefault('rd_out', True)
            if r.info.isin and st.gh.get('wrote') and not self.dry and not r.info.dims and self.spec.elementwise:
                self.fail('frame', f"input {r.name} read after an output store",
                          "outputs may be the same memory as inputs in an elementwise loop")
            v = self.read(st, r, tuple(idx), comp)
            return self.retype(v, ty, r)
        if r.kind == 'local':
            if self.dry:
                return self.fresh(ty, 'ld')
            if ty[0] == 'vec':
                s = self.mod.size(ty[2])
                return tuple(self.load(PV(r, off + i * s), ty[2], st, what) for i in range(ty[1]))
            if ty[0] == 'st':
                return tuple(self.load(PV(r, off + self.mod.offset(ty, i)), t, st, what) for i, t in enumerate(ty[1]))
            self.local_bounds(r, off, 10 if ty == ("f", "x86_fp80") else size, what, st)
            return self.lread(st, r, off, ty)
        raise Unsupported("load from " + r.kind)

    def retype(self, v, ty, r):
        """reading an element with machine type ty"""
        if ty[0] == 'f':
            if isinstance(v, FV) and v.ty == FT[ty[1]]:
                return v
        elif ty[0] == 'i':
            if isinstance(v, IV) and v.bits == ty[1]:
                return v
            if isinstance(v, FV):
                b = {'f16': 16, 'f32': 32, 'f64': 64, 'f80': 80}.get(v.ty)
                if b == ty[1]:
                    w = IV(b, bv=T.uf('bits_' + v.ty, T.SORT[v.ty], z3.BitVecSort(b))(v.t))
                    self.spec.bitfacts(v, w.bv)
                    return w
        elif ty[0] == 'ptr':
            if isinstance(v, (OV, PV)):
                return v
        if self.dry:
            return self.fresh(ty, 'rt')
        self.fail('type', f"access to {r.name}", f"machine type {ty} does not match the registered element type of {r.name}")
        raise Budget("type mismatch")

    def local_bounds(self, r, off, size, what, st):
        if not st.gh.get(('alive', r), True):
            self.fail('memory', what, f"use of {r.name} after free")
        if r.size is not None:
            self.oblige('memory', f"{what} of local {r.name} in bounds", And(off >= 0, off + size <= r.size))

    def local_bounds_range(self, r, off, n, st):
        self.local_bounds(r, off, n, 'block access', st)

    # local memory: chain keyed by byte offset
    def lread(self, st, r, off, ty):
        node = st.mem.get(r)
        v = self.chain(node, (off,), ty, r)
        if v is UNDEF:
            return v
        if v is None:
            self.fail('memory', f"read of {r.name}", "uninitialised read")
            return self.fresh(ty, 'un')
        if isinstance(v, tuple) and ty[0] != 'vec':
            raise Unsupported("partial aggregate read")
        if ty[0] == 'f' and isinstance(v, FV) and v.ty == FT[ty[1]]:
            return v
        if ty[0] == 'i' and isinstance(v, IV) and v.bits == ty[1]:
            return v
        if ty[0] == 'i' and ty[1] == 8 and (isinstance(v, bool) or is_sym(v)):
            return IV(8, ite(v, P(1), P(0)))
        if ty[0] == 'ptr' and isinstance(v, (PV, OV)):
            return v
        if ty[0] == 'i' and isinstance(v, FV):
            return self.retype(v, ty, r)
        if ty[0] == 'f' and isinstance(v, IV) and v.bv is not None:
            raise Unsupported("int bits as float")
        raise Unsupported(f"local read type {ty} of {v}")

    def chain(self, node, idx, ty=None, r=None):
        if node is None:
            return None
        if isinstance(node, Init):
            return node.fn(idx, ty)
        if isinstance(node, Summary):
            return node.fn(idx, ty)
        conds = []
        for a, b in zip(idx, node.idx):
            d = a - b
            if d.isconst():
                if d.cval() != 0:
                    return self.chain(node.next, idx, ty, r)
                continue
            conds.append(a.eq(b))
        c = And(*conds)
        if c is True:
            return node.val
        if self.C.prove(c):
            return node.val
        if self.C.prove(Not(c)):
            return self.chain(node.next, idx, ty, r)
        rest = self.chain(node.next, idx, ty, r)
        if rest is None:
            raise Unsupported("possibly uninitialised read")
        return ite(c, node.val, rest)

    def read(self, st, r, idx, comp=0):
        v = self.chain(st.mem.get(r), idx, None, r)
        if isinstance(v, tuple):
            half = r.info.itemsize // 2
            return v[0] if comp == 0 else v[1]
        return v

    def store(self, ptr, v, ty, st, what='store'):
        if self.dry:
            self.dry_stores.append((ptr, v, ty))
            return
        if ptr is UNDEF or not isinstance(ptr, PV):
            raise Unsupported("store through unknown pointer")
        ty = self.mod.resolve(ty)
        size = self.mod.size(ty)
        r, off = ptr.r, ptr.off
        if r is None:
            self.fail('memory', what, 'null dereference')
            raise Budget("null")
        if r.kind == 'arr':
            if isinstance(v, tuple):
                ts = [ty[2]] * ty[1] if ty[0] in ('vec', 'arr') else list(ty[1])
                for i, (t, x) in enumerate(zip(ts, v)):
                    o = i * self.mod.size(t) if ty[0] in ('vec', 'arr') else self.mod.offset(ty, i)
                    self.store(PV(r, off + o), x, t, st, what)
                return
            if r.info.isin:
                self.fail('frame', f"store to input {r.name}", "input memory is modified")
                raise Budget("input store")
            e = self.elem(r, off, what, size, st)
            if e is None:
                raise Budget("bad address")
            idx, comp = e
            v = self.typed_store(v, ty, r)
            st.gh['wrote'] = True
            node = st.mem.get(r)
            idx = tuple(idx)
            if r.info.cplx:
                old = self.chain(node, idx)
                v = (v, old[1]) if comp == 0 else (old[0], v)
            if r.info.isobj:
                self.obj_store(st, r, idx, v)
            st.mem[r] = Store(idx, v, node)
            return
        if r.kind == 'local':
            if isinstance(v, tuple):
                ts = [ty[2]] * ty[1] if ty[0] in ('vec', 'arr') else list(ty[1])
                for i, (t, x) in enumerate(zip(ts, v)):
                    o = i * self.mod.size(t) if ty[0] in ('vec', 'arr') else self.mod.offset(ty, i)
                    self.store(PV(r, off + o), x, t, st, what)
                return
            self.local_bounds(r, off, 10 if ty == ("f", "x86_fp80") else size, what, st)
            st.mem[r] = Store((off,), v, st.mem.get(r))
            return
        if r.kind in ('dims', 'steps', 'args', 'coredims'):
            self.fail('frame', f"store to {r.name}[]", "the loop's argument tables are modified")
            raise Budget("table store")
        raise Unsupported("store to " + r.kind)

    def obj_store(self, st, r, idx, v):
        """the slot takes over an owned reference, and gives up the one it held"""
        if self.dry:
            return
        from .libc import take_ref
        if isinstance(v, PV):
            v = OV(T.NULLOBJ)
        if not take_ref(self, st, v):
            self.oblige('reference', f"the object stored in {r.name} owns a new reference", v.t == T.NULLOBJ)
        old = self.chain(st.mem.get(r), idx)
        if isinstance(old, OV):
            st.gh['refs'] = st.gh.get('refs', ()) + (old,)

    def typed_store(self, v, ty, r):
        k = r.info.kind
        if v is UNDEF:
            return self.fresh(ty, 'undef')
        if isinstance(v, FV) and k == v.ty:
            return v
        if isinstance(v, IV) and k[0] == 'i' and v.bits == r.info.bits:
            return v
        if (isinstance(v, bool) or is_sym(v)) and k[0] == 'i':
            return IV(r.info.bits, ite(v, P(1), P(0)))
        if isinstance(v, OV) and k == 'obj':
            return v
        if isinstance(v, PV) and k == 'obj' and v.r is None:
            return OV(T.NULLOBJ)
        if isinstance(v, PV) and k == 'obj' and v.r.kind == 'global':
            return OV(z3.Const('glob_' + v.r.name, T.OBJ))
        self.fail('type', f"store to {r.name}", f"machine type {ty} does not match the registered element type of {r.name}")
        raise Budget("type mismatch")

    def load_global(self, r, off, ty):
        txt = self.mod.globals.get(r.name, '')
        from . import ir
        m = re.search(r'\bconstant\b', txt)
        if ty[0] == 'ptr' and (r.name.startswith('@_Py') or r.name.startswith('@Py') or 'external' in txt):
            return OV(z3.Const('glob_' + r.name, T.OBJ))
        if m is None:
            return self.fresh(ty, 'glob') if self.dry else self.unsup("load from mutable global " + r.name)
        c = ir.Cur(ir.tokens(txt[m.end():]), self.mod)
        t = ir.ptype(c)
        v = ir.pvalue(c, t)
        if not off.isconst():
            if self.dry:
                return self.fresh(ty, 'glob')
            return self.table(r, t, v, off, ty)
        return self.gl_elem(t, v, off.cval(), ty)

    def table(self, r, t, v, off, ty):
        """element of a constant array at a symbolic index: an uninterpreted function of the index (bounds are checked)"""
        t = self.mod.resolve(t)
        if t[0] != 'arr' or self.mod.resolve(t[2]) != ty or ty[0] not in ('f', 'i'):
            return self.unsup("constant table at symbolic index")
        s = self.mod.size(ty)
        if any(c % s for c in off.d.values()):
            return self.unsup("constant table at symbolic index")
        k = Poly({m: c // s for m, c in off.d.items()})
        self.oblige('memory', f"constant table {r.name}: index in bounds", And(k >= 0, k < t[1]))
        nm = 'table_' + re.sub(r'\W', '_', r.name)
        if ty[0] == 'f':
            f = T.uf(nm, z3.IntSort(), T.SORT[FT[ty[1]]])
            if not self.dry and not getattr(self.spec, 'stripped', False) and t[1] <= 256 and v[0] != 'zero':
                for i in range(t[1]):
                    self.C.axiom(f(z3.IntVal(i)) == self.gl_elem(v[1][i][0], v[1][i][1], 0, ty).t, (nm, i))
            return FV(FT[ty[1]], f(k.z()))
        a = Poly.atom(T.uf(nm, z3.IntSort(), z3.IntSort())(k.z()))
        self.C.assume(zb(And(a >= -(1 << (ty[1] - 1)), a < (1 << (ty[1] - 1)))))
        return IV(ty[1], a)

    def gl_elem(self, t, v, off, ty):
        t = self.mod.resolve(t)
        st = State()
        if v[0] == 'zero':
            return self.zero(ty)
        if t[0] == 'arr':
            s = self.mod.size(t[2])
            i, o = divmod(off, s)
            if v[0] == 'cstr':
                raise Unsupported("string constant")
            if not 0 <= i < len(v[1]):
                self.fail('memory', 'constant table', f"index {i} out of range")
                raise Budget("table")
            return self.gl_elem(v[1][i][0], v[1][i][1], o, ty)
        if t[0] == 'st':
            for i in range(len(t[1])):
                a = self.mod.offset(t, i)
                if a <= off < a + self.mod.size(t[1][i]):
                    return self.gl_elem(v[1][i][0], v[1][i][1], off - a, ty)
        if off == 0:
            x = self.val(t, v, st)
            if ty[0] == 'f' and isinstance(x, IV):
                import struct
                n = x.s().cval()
                if n is None or ty[1] not in ('float', 'double') or x.bits != (32 if ty[1] == 'float' else 64):
                    raise Unsupported("constant table access")
                d = struct.unpack('<f' if x.bits == 32 else '<d', int(n).to_bytes(x.bits // 8, 'little', signed=True))[0]
                return fp_const(repr(d), FT[ty[1]])
            return x
        raise Unsupported("constant table access")

    def unsup(self, m):
        raise Unsupported(m)

    # -------------------------------------------------- arithmetic
    def touches_stride(self, p):
        sa = self.spec.stride_atoms
        return any(i in sa for i in p.atoms())

    def isdata(self, p):
        return any(i not in self.spec.control_atoms and self.is_data_atom(i) for i in p.atoms())

    def is_data_atom(self, i):
        e = T._atoms[i]
        return self.has_elem(e)

    def has_elem(self, e, depth=0):
        if depth > 40:
            return True
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name().startswith(('X', 'data', 'S:', 'aux')) :
                return True
            return any(self.has_elem(c, depth + 1) for c in e.children())
        return False

    def range_ob(self, x, bits, signed, what):
        if self.dry or x.isconst() and (-(1 << (bits - 1)) <= x.cval() < (1 << (bits - 1)) if signed else 0 <= x.cval() < (1 << bits)):
            return
        if self.touches_stride(x):
            return
        g = And(x >= -(1 << (bits - 1)), x < (1 << (bits - 1))) if signed else And(x >= 0, x < (1 << bits))
        soft = None
        if self.isdata(x) and self.spec.soft_overflow:
            soft = f"arithmetic on array data does not overflow the {bits}-bit {'signed' if signed else 'unsigned'} type (C leaves overflow undefined)"
        self.oblige('overflow', what, g, soft)

    def arith(self, i, st):
        op, fl = i.op, i.x
        ty = self.mod.resolve(i.ty)
        a = self.val(i.ty, i.a[0], st)
        b = self.val(i.ty, i.a[1], st)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.dry and op[0] == 'f' and (ty[0] != 'f' or any(depends_on(x.t, isdry) for x in (a, b) if isinstance(x, FV))):
            return self.fresh(ty, 'dry')
        if ty[0] == 'vec':
            ft = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}
            return tuple(ft[op](x, y) for x, y in zip(a, b))
        if ty[0] == 'f':
            if op == 'fadd':
                return fadd(a, b)
            if op == 'fsub':
                return fsub(a, b)
            if op == 'fmul':
                return fmul(a, b)
            if op == 'fdiv':
                return fdiv(a, b)
            return T.math('fmod', a.ty, a, b)
        bits = ty[1]
        if bits == 1:
            if op in ('and', 'mul'):
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PV) or isinstance(b, PV):
            raise Unsupported('pointer bits')
        if (a.bv is not None and a._s is None and a._u is None) or (b.bv is not None and b._s is None and b._u is None):
            x, y = a.tobv(), b.tobv()
            f = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                 'ashr': lambda: x >> y, 'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}.get(op)
            if f is None:
                raise Unsupported('bv ' + op)
            return IV(bits, bv=f())
        if op in ('add', 'sub', 'mul'):
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
            if 'nsw' in fl:
                r = f(a.s(), b.s())
                self.range_ob(r, bits, True, f"signed {op} does not overflow")
                return IV(bits, s=r)
            if a._s is None and b._s is None or a._u is not None and b._u is not None and (a._s is None or b._s is None):
                r = f(a.u(), b.u())
                if self.dry or self.touches_stride(r):
                    return IV(bits, u=r)
                return IV(bits, u=T.wrap(r, bits, False))
            if self.spec.unsigned_first and op != 'sub' and not self.dry:
                pass
            r = f(a.s(), b.s())
            if self.dry or self.touches_stride(r):
                return IV(bits, s=r)
            return IV(bits, s=T.wrap(r, bits, True))
        if op in ('sdiv', 'srem'):
            x, y = a.s(), b.s()
            if op == 'sdiv' and 'exact' in fl and y.isconst() and all(c % y.cval() == 0 for c in x.d.values()):
                return IV(bits, s=Poly({m: c // y.cval() for m, c in x.d.items()}))
            if self.dry and not (x.isconst() and y.isconst()):
                return self.fresh(ty, 'div')
            if y.isconst() and y.cval() > 0 and op == 'sdiv':
                c = y.cval()
                if len(x.d) == 1:
                    (m, cc), = x.d.items()
                    if cc == 1 and len(m) == 1 and m[0] in self.spec.stride_atoms and c in self.spec.stride_div.get(m[0], ()):
                        return IV(bits, s=self.spec.stride_div[m[0]][c])
            self.oblige('division', 'divisor is nonzero', Not(y.eq(0)))
            self.oblige('division', 'quotient representable', Not(And(y.eq(-1), x.eq(-(1 << (bits - 1))))))
            q, r = self.tdivmod(x, y)
            return IV(bits, s=q if op == 'sdiv' else r)
        if op in ('udiv', 'urem'):
            x, y = a.u(), b.u()
            if self.dry and not (x.isconst() and y.isconst()):
                return self.fresh(ty, 'div')
            self.oblige('division', 'divisor is nonzero', Not(y.eq(0)))
            q, r = self.tdivmod(x, y)
            return IV(bits, u=q if op == 'udiv' else r)
        if op == 'shl' and b._s is not None and b._s.isconst():
            k = b._s.cval()
            if 'nsw' in fl:
                r = a.s() * (1 << k)
                self.range_ob(r, bits, True, 'shl does not overflow')
                return IV(bits, s=r)
            r = a.u() * (1 << k)
            return IV(bits, u=r if self.dry else T.wrap(r, bits, False))
        if op in ('lshr', 'ashr') and b._s is not None and b._s.isconst():
            k = b._s.cval()
            x = a.u() if op == 'lshr' else a.s()
            if self.dry and not x.isconst():
                return self.fresh(ty, 'shr')
            q, r = T_floordiv(x, 1 << k)
            return IV(bits, u=q) if op == 'lshr' else IV(bits, s=q)
        if op in ('and', 'or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if y._s is not None and y._s.isconst():
                    c = y._s.cval() % (1 << bits)
                    if op == 'and' and c & (c + 1) == 0:
                        if self.dry:
                            return self.fresh(ty, 'and')
                        q, r = T_floordiv(x.u(), c + 1)
                        return IV(bits, u=r)
                    if op == 'xor' and c == (1 << bits) - 1:
                        return IV(bits, s=-x.s() - 1)
            z = self.boolint(a), self.boolint(b)
            if z[0] is not None and z[1] is not None:
                c = {'and': And, 'or': Or, 'xor': lambda p, q: Not(Iff(p, q))}[op](*z)
                return IV(bits, s=ite(c, P(1), P(0)))
            if self.dry:
                return self.fresh(ty, 'bit')
            return IV(bits, bv={'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op](a.tobv(), b.tobv()))
        raise Unsupported(op)

    def boolint(self, v):
        """v is known 0/1 -> its truth value"""
        p = v._s if v._s is not None else v._u
        if p is None:
            return None
        if p.isconst():
            return bool(p.cval()) if p.cval() in (0, 1) else None
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1:
                e = T._atoms[m[0]]
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)) \
                        and e.arg(1).as_long() == 1 and e.arg(2).as_long() == 0:
                    return e.arg(0)
        if not self.dry and self.C.prove(And(p >= 0, p <= 1)):
            return p.eq(1)
        return None

    def tdivmod(self, x, y):
        return tdivmod(x, y)

    def icmp(self, pred, a, b, ty):
        ty = self.mod.resolve(ty)
        if a is UNDEF or b is UNDEF:
            return self.C.bool('undefcmp')
        if ty[0] == 'ptr' or isinstance(a, (PV, OV)) or isinstance(b, (PV, OV)):
            if isinstance(a, OV) or isinstance(b, OV):
                def o(v):
                    if isinstance(v, OV):
                        return v.t
                    if v.r is None:
                        return T.NULLOBJ
                    return z3.Const('glob_' + v.r.name, T.OBJ)
                c = o(a) == o(b)
                if pred == 'eq':
                    return c
                if pred == 'ne':
                    return Not(c)
                raise Unsupported('object pointer order')
            if a.r is not b.r:
                if a.r is None or b.r is None:
                    if pred in ('eq', 'ne'):
                        o = b if a.r is None else a
                        return pred == 'ne'
                if pred in ('eq', 'ne') and (a.r.kind != 'arr' or b.r.kind != 'arr'):
                    return pred == 'ne'
                if pred in ('eq', 'ne') and not (a.r.info.isin and b.r.info.isin):
                    # two different operands, one of them an output: they do not overlap, so the addresses differ unless one is empty
                    c = self.C.bool('sameaddr')
                    if not self.dry:
                        from .libc import trust
                        trust(self, "an output does not overlap an input or another output")
                        self.C.assume(zb(Implies(And(*[d >= 1 for d in a.r.info.dims + b.r.info.dims]), Not(c))))
                    return c if pred == 'eq' else Not(c)
                raise Unsupported('comparison of unrelated pointers')
            d, e = a.off, b.off
            sg = {'eq': d.eq, 'ne': lambda o: Not(d.eq(o)), 'ult': d.__lt__, 'ule': d.__le__, 'ugt': d.__gt__, 'uge': d.__ge__,
                  'slt': d.__lt__, 'sle': d.__le__, 'sgt': d.__gt__, 'sge': d.__ge__}[pred]
            return sg(e)
        if isinstance(a, bool) or is_sym(a) or isinstance(b, bool) or is_sym(b):
            if pred == 'eq':
                return Iff(a, b)
            if pred == 'ne':
                return Not(Iff(a, b))
            raise Unsupported('i1 icmp ' + pred)
        if (a.bv is not None and a._s is None and a._u is None) or (b.bv is not None and b._s is None and b._u is None):
            x, y = a.tobv(), b.tobv()
            return {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                    'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                    'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        if pred in ('eq', 'ne'):
            z = None
            for p, q in ((a, b), (b, a)):
                pp = q._s if q._s is not None else q._u
                if pp is not None and pp.isconst() and pp.cval() in (0, 1):
                    t = self.boolint_syn(p)
                    if t is not None:
                        z = t if pp.cval() == 1 else Not(t)
                        break
            if z is None:
                if a._s is not None and b._s is not None:
                    z = a._s.eq(b._s)
                elif a._u is not None and b._u is not None:
                    z = a._u.eq(b._u)
                elif self.dry:
                    return self.C.bool('dry')
                else:
                    z = a.s().eq(b.s())
            return z if pred == 'eq' else Not(z)
        if pred[0] == 's':
            x, y = a.s(), b.s()
        else:
            x, y = a.u(), b.u()
        return {'lt': x.__lt__, 'le': x.__le__, 'gt': x.__gt__, 'ge': x.__ge__}[pred[1:]](y)

    def boolint_syn(self, v):
        p = v._s if v._s is not None else v._u
        if p is not None and len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1:
                e = T._atoms[m[0]]
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(1)) and z3.is_int_value(e.arg(2)) \
                        and e.arg(1).as_long() == 1 and e.arg(2).as_long() == 0:
                    return e.arg(0)
        return None

    # -------------------------------------------------- instruction
    def step(self, i, st):
        """non-terminator, non-phi instruction"""
        op = i.op
        if op == 'load':
            v = self.load(self.val(('ptr',), i.a[0], st), i.ty, st)
        elif op == 'store':
            self.store(self.val(('ptr',), i.a[1], st), self.val(i.ty, i.a[0], st), i.ty, st)
            return
        elif op == 'gep':
            v = self.gep(i.ty, i.a, st)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                    'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            v = self.arith(i, st)
        elif op == 'fneg':
            a = self.val(i.ty, i.a[0], st)
            v = UNDEF if a is UNDEF else fneg(a)
        elif op == 'icmp':
            v = self.icmp(i.x, self.val(i.ty, i.a[0], st), self.val(i.ty, i.a[1], st), i.ty)
        elif op == 'fcmp':
            a, b = self.val(i.ty, i.a[0], st), self.val(i.ty, i.a[1], st)
            v = self.C.bool('undefcmp') if a is UNDEF or b is UNDEF else fcmp(i.x, a, b)
        elif op == 'select':
            c = self.val(('i', 1), i.a[0], st)
            a, b = self.val(i.ty, i.a[1], st), self.val(i.ty, i.a[2], st)
            if c is UNDEF:
                c = self.C.bool('undef')
            # one value undefined: any value will do when it is the one selected
            if (a is UNDEF) != (b is UNDEF) and is_sym(c):
                if isinstance(a, PV) or isinstance(b, PV):
                    if isinstance(a, PV):
                        b = PV(a.r, self.C.int('undef'))
                    else:
                        a = PV(b.r, self.C.int('undef'))
                elif a is UNDEF:
                    a = self.fresh_like(b, 'undef')
                else:
                    b = self.fresh_like(a, 'undef')
            if a is UNDEF and b is UNDEF:
                v = UNDEF
            elif isinstance(a, PV) and isinstance(b, PV) and a.r is not b.r and is_sym(c):
                if self.dry:
                    v = UNDEF
                elif self.C.prove(c):
                    v = a
                elif self.C.prove(Not(c)):
                    v = b
                else:
                    v = SelPV(c, a, b)
            elif (isinstance(a, PV) != isinstance(b, PV)) and is_sym(c):
                def o(x):
                    return x if isinstance(x, OV) else OV(T.NULLOBJ) if x.r is None else OV(z3.Const('glob_' + x.r.name, T.OBJ))
                v = ite(c, o(a), o(b))
            else:
                v = ite(c, a, b)
        elif op in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.cast(i, st)
        elif op in ('call', 'invoke'):
            v = self.call(i, st)
        elif op == 'alloca':
            r = LocalRegion('alloca' + i.res, P(self.mod.size(i.ty)))
            st.mem[r] = None
            v = PV(r, P(0))
        elif op == 'extractvalue':
            v = self.val(i.ty, i.a[0], st)
            for k in i.x:
                v = UNDEF if v is UNDEF else v[k]
        elif op == 'insertvalue':
            v = self.val(i.ty, i.a[0], st)
            n = self.val(i.a[1][0], i.a[1][1], st)
            t = self.mod.resolve(i.ty)
            v = self.insert(v, i.x, n, t)
        elif op == 'extractelement':
            v = self.val(i.ty, i.a[0], st)
            k = self.val(*i.a[1], st).s().cval()
            v = UNDEF if v is UNDEF else v[k]
        elif op == 'insertelement':
            v = self.val(i.ty, i.a[0], st)
            n = self.val(*i.a[1], st)
            k = self.val(*i.a[2], st).s().cval()
            t = self.mod.resolve(i.ty)
            v = list((UNDEF,) * t[1] if v is UNDEF else v)
            v[k] = n
            v = tuple(v)
        elif op == 'shufflevector':
            a, b = self.val(i.ty, i.a[0], st), self.val(i.ty, i.a[1], st)
            t = self.mod.resolve(i.ty)
            a = (UNDEF,) * t[1] if a is UNDEF else a
            b = (UNDEF,) * t[1] if b is UNDEF else b
            m = self.val(*i.a[2], st)
            ab = tuple(a) + tuple(b)
            v = tuple(UNDEF if x is UNDEF else ab[x.s().cval()] for x in m)
        elif op == 'freeze':
            v = self.val(i.ty, i.a[0], st)
        elif op == 'landingpad':
            v = UNDEF
        elif op == 'fence':
            return
        else:
            raise Unsupported('instruction ' + op)
        if i.res:
            st.env[i.res] = v

    def insert(self, v, path, n, t):
        fs = t[1] if t[0] == 'st' else (t[2],) * t[1]
        v = list((UNDEF,) * len(fs) if v is UNDEF else v)
        if len(path) == 1:
            v[path[0]] = n
        else:
            v[path[0]] = self.insert(v[path[0]], path[1:], n, self.mod.resolve(fs[path[0]]))
        return tuple(v)

    def cast(self, i, st):
        op = i.op
        a = self.val(i.x, i.a[0], st)
        ty = self.mod.resolve(i.ty)
        src = self.mod.resolve(i.x)
        if a is UNDEF:
            return UNDEF
        if op in ('zext', 'sext'):
            if src[1] == 1:
                return IV(ty[1], ite(a, P(1 if op == 'zext' else -1), P(0)))
            if a.bv is not None and a._s is None and a._u is None:
                w = ty[1] - src[1]
                return IV(ty[1], bv=z3.ZeroExt(w, a.bv) if op == 'zext' else z3.SignExt(w, a.bv))
            return IV(ty[1], s=a.s()) if op == 'sext' else IV(ty[1], s=a.u(), u=a.u())
        if op == 'trunc':
            if ty[1] == 1:
                t = self.boolint(a)
                if t is not None:
                    return t
                q, r = T_floordiv(a.u(), 2)
                return r.eq(1)
            if a.bv is not None and a._s is None and a._u is None:
                return IV(ty[1], bv=z3.Extract(ty[1] - 1, 0, a.bv))
            if self.dry:
                return IV(ty[1], a.s())
            x = a._s if a._s is not None else a._u
            n = ty[1]
            if not x.isconst():
                if self.C.prove(zb(And(x >= 0, x < (1 << n)))):
                    if self.C.prove(zb(x < (1 << (n - 1)))):
                        return IV(n, s=x, u=x)
                    return IV(n, u=x)
            return IV(n, s=T.wrap(x, n, True))
        if op == 'fpext':
            return T.fpext(a, FT[ty[1]])
        if op == 'fptrunc':
            return T.fptrunc(a, FT[ty[1]])
        if op == 'sitofp':
            if src[1] == 1:
                return ite(a, fconst(FT[ty[1]], Fraction(-1)), fconst(FT[ty[1]], Fraction(0)))
            return T.itof(a.s(), FT[ty[1]])
        if op == 'uitofp':
            if src[1] == 1:
                return ite(a, fconst(FT[ty[1]], Fraction(1)), fconst(FT[ty[1]], Fraction(0)))
            return T.itof(a.u(), FT[ty[1]])
        if op in ('fptosi', 'fptoui'):
            b = ty[1]
            k = T.ftoi(a)
            lo, hi = (-(1 << (b - 1)), 1 << (b - 1)) if op == 'fptosi' else (0, 1 << b)
            g = z3.And(z3.Not(a.nan()), a.rk() > lo - 1, a.rk() < hi)
            if not self.dry:
                self.oblige('conversion', f"float to {b}-bit integer conversion in range", g,
                            self.spec.soft_fptoi)
            if op == 'fptosi':
                return IV(b, s=k)
            return IV(b, u=k)
        if op == 'bitcast':
            if isinstance(a, tuple) or ty[0] in ('vec',):
                return self.vec_bitcast(a, src, ty)
            if isinstance(a, FV) and ty[0] == 'i':
                return self.retype(a, ty, self.args)
            return a
        if op == 'ptrtoint':
            if isinstance(a, PV):
                if a.r is None:
                    return IV(64, P(0))
                return IV(64, s=a.r.base() + a.off)
            raise Unsupported('ptrtoint object')
        raise Unsupported(op)

    def vec_bitcast(self, a, src, ty):
        if src == ty:
            return a
        if src[0] == 'vec' and ty[0] == 'f' and False:
            pass
        raise Unsupported(f'vector bitcast {src} {ty}')

    # -------------------------------------------------- calls
    def call(self, i, st):
        from . import libc
        fn = i.a[0]
        if fn[0] != 'glob':
            return libc.indirect(self, i, st)
        return libc.call(self, fn[1], i, st)

    # -------------------------------------------------- control
    def run(self, blk, prev, st, frames):
        while True:
            while frames and blk not in frames[-1].L.blocks:
                fr = frames[-1]
                if not fr.cont:
                    return
                self.on_exit(fr, st)
                frames = frames[:-1]
            L = self.cfg.loops.get(blk)
            if L is not None:
                if frames and frames[-1].L is L:
                    frames[-1].on_back(st, prev)
                    return
                self.enter_loop(L, prev, st, frames)
                return
            nxt = self.block(blk, prev, st)
            if nxt is None:
                return
            if len(nxt) == 1:
                prev, blk = blk, nxt[0][1]
                continue
            # split
            live = []
            for c, b in nxt:
                if c is False:
                    continue
                live.append((c, b))
            if len(live) >= 8 and getattr(self.spec, 'stripped', False):
                live = self.merge(live, blk, st, frames)
            for c, b in live:
                self.npaths += 1
                if self.npaths > self.maxpaths:
                    raise Budget("path budget")
                self.C.push()
                if c is not True:
                    self.C.assume(c)
                try:
                    if c is True or self.C.feasible():
                        self.run(b, blk, st.copy(), frames)
                finally:
                    self.C.pop()
            return

    PURE = {'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'select', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'phi', 'br', 'icmp'}

    def merge(self, live, blk, st, frames):
        """many-way branch whose arms are straight-line floating-point arithmetic (no obligations) leading to one block: go on once
        from there with unknown values (used when only memory and similar obligations are wanted). Returns the arms left."""
        grp = {}
        for c, b in live:
            ins = self.f.blocks[b]
            if (self.cfg.pred[b] == [blk] and b not in self.cfg.loops and ins[-1].op == 'br' and not ins[-1].a and all(i.op in self.PURE for i in ins)
                    and (not frames or b in frames[-1].L.blocks)):
                j = ins[-1].x[0]
                if j not in self.cfg.loops and (not frames or j in frames[-1].L.blocks):
                    grp.setdefault(j, []).append((c, b))
        if not grp:
            return live
        j, arms = max(grp.items(), key=lambda p: len(p[1]))
        if len(arms) < 8:
            return live
        self.npaths += 1
        self.C.push()
        try:
            self.C.assume(zb(Or(*[zb(c) for c, b in arms])))
            s2 = st.copy()
            for i in self.f.blocks[j]:
                if i.op == 'phi':
                    vs = [v for v, pb in i.a if any(pb == b for c, b in arms)]
                    s2.env[i.res] = self.val(i.ty, vs[0], st) if vs[0][0] == 'int' and all(v == vs[0] for v in vs) else self.fresh(i.ty, 'join')
            self.run(j, None, s2, frames)
        finally:
            self.C.pop()
        return [x for x in live if not any(x[1] == y[1] for y in arms)]

    def two_way(self, h):
        i = self.f.blocks[h][-1]
        return i.op == 'br' and bool(i.a) and i.x[0] != i.x[1]

    def phis(self, blk, prev, st):
        new = {}
        for i in self.f.blocks[blk]:
            if i.op != 'phi':
                break
            for v, b in i.a:
                if b == prev:
                    new[i.res] = self.val(i.ty, v, st)
                    break
            else:
                raise Unsupported("phi without incoming edge")
        return new

    def block(self, blk, prev, st):
        """execute; returns list of (cond, target) or None at function end"""
        if prev is not None:
            st.env.update(self.phis(blk, prev, st))
        for i in self.f.blocks[blk]:
            op = i.op
            if op == 'phi':
                continue
            if op == 'br':
                if not i.a:
                    return [(True, i.x[0])]
                c = self.val(('i', 1), i.a[0], st)
                if c is UNDEF:
                    c = self.C.bool('undef')
                if i.x[0] == i.x[1]:
                    return [(True, i.x[0])]
                if not is_sym(c):
                    return [(True, i.x[0] if c else i.x[1])]
                return [(c, i.x[0]), (Not(c), i.x[1])]
            if op == 'switch':
                v = self.val(i.ty, i.a[0], st)
                d, cases = i.x
                if isinstance(v, bool) or is_sym(v):
                    v = IV(1, ite(v, P(1), P(0)))
                x = v.s()
                if x.isconst():
                    for k, b in cases:
                        if (k - x.cval()) % (1 << v.bits) == 0:
                            return [(True, b)]
                    return [(True, d)]
                r, ne = [], []
                for k, b in cases:
                    if k >= 1 << (v.bits - 1):
                        k -= 1 << v.bits
                    r.append((x.eq(k), b))
                    ne.append(Not(x.eq(k)))
                r.append((And(*ne), d))
                return r
            if op == 'ret':
                self.at_return(st, self.val(i.ty, i.a[0], st) if i.a else None)
                return None
            if op in ('unreachable', 'resume'):
                self.at_unreachable(st, op)
                return None
            if op == 'invoke':
                self.step(i, st)
                return [(True, i.x[0])]
            self.step(i, st)
        raise Unsupported("block without terminator")

    def at_unreachable(self, st, op):
        if not st.gh.get('noreturn'):
            self.oblige('unreachable', op, False)

    def at_return(self, st, v):
        if self.probe:
            return
        self.spec.at_return(self, st, v)

    # -------------------------------------------------- loops
    def dry_pass(self, L, ev, st):
        """one abstract pass over the loop body; returns (latch values per phi, stores, invariant ints compared)"""
        old = self.dry
        self.dry = self.C.dry = True
        saved_stores = getattr(self, 'dry_stores', None)
        self.dry_stores = []
        mark = len(T._atoms)
        cmpvals = []
        envs = {}
        try:
            d = State()
            d.env = dict(st.env)
            d.mem = dict(st.mem)
            d.gh = dict(st.gh)
            hp = {}
            for i in self.f.blocks[L.h]:
                if i.op != 'phi':
                    break
                e = ev[i.res]
                v = self.fresh_like(e, 'dry') if e is not UNDEF else UNDEF
                hp[i.res] = v
            d.env.update(hp)
            order = [b for b in self.cfg.rpo if b in L.blocks]
            for b in order:
                if b != L.h:
                    inner = b in self.cfg.loops
                    for i in self.f.blocks[b]:
                        if i.op != 'phi':
                            break
                        vals = []
                        for v, p in i.a:
                            if p not in L.blocks:
                                continue
                            try:
                                vals.append(self.val(i.ty, v, d))
                            except Unsupported:
                                vals.append(None)
                        if inner or any(x is None for x in vals) or not vals:
                            x = next((y for y in vals if isinstance(y, (PV, OV, FV, IV))), None)
                            d.env[i.res] = self.fresh_like(x, 'dry') if x is not None else self.fresh(i.ty, 'dry')
                        elif all(self.same_val(vals[0], x) for x in vals[1:]):
                            d.env[i.res] = vals[0]
                        else:
                            x = next((y for y in vals if isinstance(y, (PV, OV))), vals[0])
                            if isinstance(x, PV) and any(isinstance(y, PV) and y.r is not x.r for y in vals):
                                d.env[i.res] = UNDEF
                            else:
                                d.env[i.res] = self.fresh_like(x, 'dry') if x is not UNDEF else self.fresh(i.ty, 'dry')
                for i in self.f.blocks[b]:
                    if i.op == 'phi':
                        continue
                    if i.op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                        continue
                    try:
                        if i.op == 'icmp':
                            x, y = self.val(i.ty, i.a[0], d), self.val(i.ty, i.a[1], d)
                            for w in (x, y):
                                if isinstance(w, IV) and w.bits >= 32:
                                    pw = w._s if w._s is not None else w._u
                                    if pw is not None and all(a < mark for a in pw.atoms()):
                                        cmpvals.append(pw)
                                elif isinstance(w, PV) and all(a < mark for a in w.off.atoms()):
                                    cmpvals.append(w)
                        self.step(i, d)
                    except (Unsupported, Budget, TypeError, KeyError, AttributeError, IndexError):
                        if i.res:
                            try:
                                d.env[i.res] = self.fresh(i.ty, 'dry')
                            except Unsupported:
                                d.env[i.res] = UNDEF
                envs[b] = True
            latch = {}
            for i in self.f.blocks[L.h]:
                if i.op != 'phi':
                    break
                vs = []
                for v, p in i.a:
                    if p in L.blocks:
                        try:
                            vs.append(self.val(i.ty, v, d))
                        except Unsupported:
                            vs.append(None)
                latch[i.res] = vs[0] if len(vs) == 1 or (vs and all(self.same_val(vs[0], x) for x in vs)) else None
            stores = self.dry_stores
        finally:
            self.dry = self.C.dry = old
            self.dry_stores = saved_stores
            if saved_stores is not None:
                pass
        return hp, latch, stores, cmpvals, mark

    def same_val(self, a, b):
        if a is b:
            return True
        if a is UNDEF or b is UNDEF:
            return a is b
        if type(a) is not type(b):
            if is_sym(a) and is_sym(b):
                return a.eq(b)
            return False
        if isinstance(a, IV):
            if a._s is not None and b._s is not None:
                return a._s.same(b._s)
            if a._u is not None and b._u is not None:
                return a._u.same(b._u)
            if a.bv is not None and b.bv is not None:
                return a.bv.eq(b.bv)
            return False
        if isinstance(a, (FV, OV)):
            return a.t.eq(b.t)
        if isinstance(a, PV):
            return a.r is b.r and a.off.same(b.off)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same_val(x, y) for x, y in zip(a, b))
        if isinstance(a, bool):
            return a == b
        return a.eq(b)

    PEEL = 8

    def enter_loop(self, L, prev, st, frames, peeled=0):
        from .loops import LoopAnalysis, Frame
        if not self.dry and peeled < getattr(self.spec, 'peel', self.PEEL) and self.two_way(L.h):
            # a loop whose guard is decided outright (a constant trip count) is executed exactly
            s2 = st.copy()
            try:
                nxt = self.block(L.h, prev, s2)
            except (Unsupported, Budget):
                nxt = None
            if nxt is not None and len(nxt) == 1:
                fr = Frame(L, lambda s, p: self.enter_loop(L, p, s, frames, peeled + 1), True, None)
                self.run(nxt[0][1], L.h, s2, frames + [fr])
                return
        LoopAnalysis(self, L, prev, st, frames).run()

    def on_exit(self, fr, st):
        if fr.info is not None:
            fr.info.on_exit(st)


def T_floordiv(x, c):
    """floor division of a mathematical integer by a positive constant: (quotient, remainder)"""
    if x.isconst():
        return P(x.cval() // c), P(x.cval() % c)
    q = Poly.atom(x.z() / z3.IntVal(c))
    return q, x - q * c


def tdivmod(x, y):
    """C division: truncation toward zero"""
    if x.isconst() and y.isconst() and y.cval() != 0:
        a, b = x.cval(), y.cval()
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        return P(q), P(a - b * q)
    qf = T.uf('tdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
    rf = T.uf('tmod', z3.IntSort(), z3.IntSort(), z3.IntSort())
    if y.isconst() and y.cval() > 0:
        c = y.cval()
        q = Poly.atom(qf(x.z(), y.z()))
        r = Poly.atom(rf(x.z(), y.z()))
        zq, zx, zr = q.z(), x.z(), r.z()
        T.C.axiom(z3.And(zx == zq * c + zr, z3.Implies(zx >= 0, z3.And(zr >= 0, zr < c)), z3.Implies(zx <= 0, z3.And(zr <= 0, zr > -c))),
                  ('tdiv', zq.get_id(), zr.get_id()))
        T.C.keep += [zq, zr]
        return q, r
    zx, zy = x.z(), y.z()
    zq, zr = qf(zx, zy), rf(zx, zy)
    T.C.axiom(z3.Implies(zy != 0, z3.And(
        z3.Implies(zx >= 0, zr >= 0), z3.Implies(zx <= 0, zr <= 0),
        z3.Implies(z3.And(zy > 0), z3.And(zr < zy, zr > -zy)), z3.Implies(zy < 0, z3.And(zr < -zy, zr > zy)),
        z3.Implies(z3.And(zx >= 0, zy > 0), z3.And(zq >= 0, zq <= zx)),
        z3.Implies(z3.And(zx > 0, zy > 1), zq < zx),
        zx == zy * zq + zr)), ('tdivv', zq.get_id(), zr.get_id()))
    T.C.keep += [zq, zr]
    return Poly.atom(zq), Poly.atom(zr)


class SelPV:
    """a pointer selected between two regions by a symbolic condition (it may only be loaded through)"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def fp_const(txt, ty):
    """exact value of an LLVM float constant"""
    import struct
    if txt.startswith('0xK'):
        v = int(txt[3:], 16)
        se, m = v >> 64, v & ((1 << 64) - 1)
        sg, e = se >> 15, se & 0x7fff
        if e == 0x7fff:
            c = ('-inf' if sg else 'inf') if (m << 1) & ((1 << 64) - 1) == 0 else 'nan'
            return fconst(ty, c)
        if m == 0:
            return fconst(ty, '-0' if sg else Fraction(0))
        fr = Fraction(m) * Fraction(2) ** (max(e, 1) - 16383 - 63)
        return fconst(ty, -fr if sg else fr)
    if txt.startswith('0xH'):
        raise Unsupported('half constant')
    if txt.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(txt[2:].zfill(16)))[0]
    else:
        d = float(txt)
    if d != d:
        return fconst(ty, 'nan')
    if d in (float('inf'), float('-inf')):
        return fconst(ty, 'inf' if d > 0 else '-inf')
    if d == 0:
        return fconst(ty, '-0' if str(d).startswith('-') else Fraction(0))
    return fconst(ty, Fraction(d))
