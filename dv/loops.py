"""Loop cutting: closed forms, Houdini inference of invariants linking code state to contract folds."""
import math
import z3
from fractions import Fraction
from . import terms as T
from .terms import Poly, P, IV, FV, OV, PV, UNDEF, And, Or, Not, Implies, ite, eqv, Unsupported, zb, is_sym
from .sx import Frame, Summary, Init, State, Budget, isdry, depends_on


def dedupe(ps):
    seen, r = set(), []
    for p in ps:
        k = p.key()
        if k not in seen:
            seen.add(k)
            r.append(p)
    return r


class Cand:
    __slots__ = ('key', 'fn', 'tag')

    def __init__(self, key, fn, tag=None):
        self.key, self.fn, self.tag = key, fn, tag


class Optimist(Exception):
    """a candidate bound of the batch loop is not inductive"""


class MCand:
    """memory invariant: for all idx: rng(it, idx) -> M[idx] == out(it, idx)"""
    __slots__ = ('key', 'r', 'rng', 'out', 'esz', 'loose')

    def __init__(self, key, r, rng, out, loose=False):
        self.key, self.r, self.rng, self.out, self.loose = key, r, rng, out, loose


def val_atoms(v):
    if isinstance(v, IV):
        return (v._s.atoms() if v._s is not None else set()) | (v._u.atoms() if v._u is not None else set())
    if isinstance(v, PV):
        return v.off.atoms()
    if isinstance(v, tuple):
        return set().union(*[val_atoms(x) for x in v])
    return set()


def val_ids(v):
    if isinstance(v, (FV, OV)):
        return {v.t.get_id()}
    if isinstance(v, tuple):
        return set().union(*[val_ids(x) for x in v])
    if is_sym(v):
        return {v.get_id()}
    r = {T._atoms[a].get_id() for a in val_atoms(v)}
    if isinstance(v, IV) and v.bv is not None:
        r.add(v.bv.get_id())
    return r


class LoopAnalysis:
    def __init__(self, ex, L, prev, st, frames):
        self.ex, self.L, self.prev, self.st, self.frames = ex, L, prev, st, frames
        self.C = ex.C
        self.S = ex.spec
        self.optimistic = False
        self.mark0 = ex.C.fresh
        self.batch = L.parent is None and st.gh.get('J') is None and ex.spec.has_batch

    # ------------------------------------------------------------
    def run(self):
        ex, C, L = self.ex, self.C, self.L
        if ex.dry:
            raise Unsupported("nested dry")
        ev = ex.phis(L.h, self.prev, self.st)
        # object-typed phis that start as NULL
        for i in ex.f.blocks[L.h]:
            if i.op == 'phi' and isinstance(ev[i.res], PV) and ev[i.res].r is None and i.ty == ('ptr',):
                ev[i.res] = OV(T.NULLOBJ)
        self.ev = ev
        hp, latch, stores, cmpvals, mark = ex.dry_pass(L, ev, self.st)
        if self.batch and not any(r.kind == 'arr' for r in self.modified(stores)) and not any(
                (c if isinstance(c, Poly) else c.off).atoms() & self.S.N.atoms() for c in cmpvals):
            self.batch = False      # a computation hoisted out of the loop over the outer elements
        self.aff = {}
        self.inv = set()
        for p, h in hp.items():
            l = latch[p]
            if h is UNDEF or l is None or l is UNDEF:
                continue
            if ex.same_val(h, l):
                self.inv.add(p)
                continue
            if isinstance(h, IV) and isinstance(l, IV):
                if h._s is not None:
                    d = (l._s if l._s is not None else l._u) - h._s
                else:
                    d = (l._u if l._u is not None else l._s) - h._u
            elif isinstance(h, PV) and isinstance(l, PV) and h.r is l.r:
                d = l.off - h.off
            else:
                continue
            if all(a < mark for a in d.atoms()):
                self.aff[p] = d
            else:
                g = self.guess(h, l)
                if g is not None:
                    self.aff[p] = g
        self.it = C.int('it')
        self.base_vals = {}
        ex.loop_serial = getattr(ex, 'loop_serial', 0) + 1
        self.serial = ex.loop_serial
        C.push()
        try:
            C.assume(zb(And(self.it >= 0)))
            while True:
                r = self.attempt(cmpvals)
                if r:
                    break
        finally:
            C.pop()

    def guess(self, h, l):
        """the latch value selects between h and h + constant (h changes except on the way out): try h + constant; checked like every invariant"""
        if not (isinstance(h, IV) and isinstance(l, IV)):
            return None
        hp = h._s if h._s is not None else h._u
        lp = l._s if l._s is not None else l._u
        z = lp.z()
        if not (z3.is_app_of(z, z3.Z3_OP_ITE)):
            return None
        for k in (1, 2):
            d = z3.simplify(z.arg(k) - hp.z())
            if z3.is_int_value(d) and d.as_long() != 0:
                return P(d.as_long())
        return None

    def symvals(self):
        ex = self.ex
        vals = {}
        for p, e in self.ev.items():
            if p in self.inv:
                vals[p] = e
            elif p in self.aff:
                d = self.aff[p]
                if isinstance(e, PV):
                    vals[p] = PV(e.r, e.off + self.it * d)
                else:
                    if e._s is not None:
                        vals[p] = IV(e.bits, s=e._s + self.it * d)
                    else:
                        vals[p] = IV(e.bits, u=e._u + self.it * d)
            else:
                if p not in self.base_vals:
                    self.base_vals[p] = ex.fresh_like(e, 'phi_' + p.strip('%')) if e is not UNDEF else UNDEF
                vals[p] = self.base_vals[p]
        return vals

    def closed(self, p, it):
        e, d = self.ev[p], self.aff[p]
        if isinstance(e, PV):
            return PV(e.r, e.off + it * d)
        if e._s is not None:
            return e._s + it * d
        return e._u + it * d

    # ------------------------------------------------------------
    def attempt(self, cmpvals):
        """one try with the current affine classification; False -> classification changed, retry"""
        ex, C, L, S = self.ex, self.C, self.L, self.S
        vals = self.symvals()
        # second dry pass with closed forms, for store indices and values
        old = ex.dry
        hp2 = dict(vals)
        latch2, stores, cmp2 = self.dry_with(vals)
        self.stores = stores
        cmpvals = [c for c in cmpvals + cmp2]
        self.modset = self.modified(stores)
        self.cands(vals, cmpvals)
        self.memcands(vals, stores)
        # entry checks
        act = self.filter_entry()
        self.active = act
        rounds = 0
        if self.batch and not ex.probe:
            # optimistic: usually every candidate bound of the batch loop is inductive
            snap = (len(ex.obl), getattr(ex, 'invariants', 0), ex.contract_checked, dict(ex.loop_report), ex.nonvac, set(ex.assumed), ex.npaths)
            lv = len(C.stack)
            self.optimistic = True
            try:
                self.final(vals)
                return True
            except Optimist:
                while len(C.stack) > lv:
                    C.pop()
                del ex.obl[snap[0]:]
                ex.invariants, ex.contract_checked, ex.loop_report, ex.nonvac, ex.assumed, ex.npaths = snap[1:]
            finally:
                self.optimistic = False
        if not (self.batch and not any(isinstance(c, Cand) and c.tag and c.tag[0] in ('ub', 'lb') or isinstance(c, Cand) and not c.tag for c in self.active)):
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported("no invariant fixpoint")
                failed, afffail = self.probe(vals)
                if afffail:
                    for p in afffail:
                        del self.aff[p]
                    return False
                if not failed:
                    break
                self.active = [c for c in self.active if c.key not in failed]
        self.final(vals)
        return True

    def dry_with(self, vals):
        ex = self.ex
        orig = ex.fresh_like
        # run the dry pass but with the given header values
        phis = {}
        save = ex.fresh_like
        marks = {}

        def fl(v, nm):
            for p, e in self.ev.items():
                if e is v and p in vals and p not in marks:
                    marks[p] = 1
                    return vals[p]
            return save(v, nm)
        hp, latch, stores, cmpv, mark = self.dry_override(vals)
        return latch, stores, cmpv

    def dry_override(self, vals):
        ex = self.ex

        class EV(dict):
            pass
        # dry_pass creates fresh header values from ev; give it the symbolic ones through a hook
        orig = ex.fresh_like
        queue = [vals[i.res] for i in ex.f.blocks[self.L.h] if i.op == 'phi' and self.ev[i.res] is not UNDEF]
        n = [0]

        def fl(v, nm):
            if n[0] < len(queue):
                n[0] += 1
                return queue[n[0] - 1]
            return orig(v, nm)
        ex.fresh_like = fl
        try:
            return ex.dry_pass(self.L, self.ev, self.st)
        finally:
            del ex.fresh_like

    def modified(self, stores):
        ex = self.ex
        s = set()
        allr = False
        for ptr, v, ty in stores:
            if isinstance(ptr, PV) and ptr.r is not None:
                s.add(ptr.r)
            else:
                allr = True
        if allr:
            s |= {r for r in self.st.mem if r.kind == 'local' or (r.kind == 'arr' and not r.info.isin)}
        return {r for r in s if r.kind in ('arr', 'local') and not (r.kind == 'arr' and r.info.isin)}

    # ------------------------------------------------------------ candidates
    def anchors(self, vals):
        A = []
        for p, d in self.aff.items():
            v = vals[p]
            if isinstance(v, IV) and d.isconst() and d.cval() in (1, -1):
                x = v._s if v._s is not None else v._u
                A += [x, x + 1, x - 1]
            elif isinstance(v, PV) and v.r is not None and v.r.kind == 'arr':
                res = self.ex_resolve_quiet(v)
                if res:
                    for i in res:
                        if i.atoms() & self.it.atoms():
                            A += [i, i + 1, i - 1]
        # loops that index from a pointer into the middle of an array
        for b in self.L.blocks:
            for i in self.ex.f.blocks[b]:
                if i.op != 'gep':
                    continue
                for t, o in i.a[:1]:
                    v = self.st.env.get(o[1]) if o[0] == 'reg' else None
                    if isinstance(v, PV) and v.r is not None and v.r.kind == 'arr':
                        for q in self.ex_resolve_quiet(v) or ():
                            if not q.isconst() and len(A) < 24:
                                A += [q + self.it, q + self.it + 1]
        A += [self.it, self.it + 1, self.it + 2]
        return dedupe(A)

    def ex_resolve_quiet(self, v):
        ex = self.ex
        old = ex.dry
        ex.dry = True
        try:
            r = ex.resolve(v.r, v.off)
        except Exception:
            r = None
        finally:
            ex.dry = old
        return r[1] if r else None

    def outer_anchors(self):
        r = []
        for fr in self.frames:
            la = fr.info
            if la is None or la.batch:
                continue
            r += [a for a in la.anch]
        return dedupe(r)

    def retarget(self, a, it2):
        """anchor polynomial at another iteration count"""
        return a.subst([(T._atoms[next(iter(self.it.d))[0]], it2)])

    def nv(self, p, vv):
        """value of a phi, integers in the view (signed/unsigned) of the header value"""
        x = vv[p]
        if isinstance(x, IV) and p in self.svw:
            return x.s() if self.svw[p] else x.u()
        return x

    def own_atoms(self, vals):
        """atoms that stand for values of this loop's header variables (other than the iteration count)"""
        r = set()
        for p, v in self.base_vals.items():
            r |= val_atoms(v)
        return r

    def stray(self, e):
        """a candidate evaluated on entry must not mention this loop's header values: it would not be a function of the loop state"""
        if not is_sym(e):
            return False
        ids = self.own_ids
        if e.get_id() in self.seen_clean:
            return False
        seen, stack = set(), [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen or i in self.seen_clean:
                continue
            if i in ids:
                return True
            seen.add(i)
            if z3.is_app(x):
                stack += x.children()
        self.seen_clean |= seen
        self.keepalive.append(e)
        return False

    def cands(self, vals, cmpvals):
        S, ex = self.S, self.ex
        out = []
        it_at = T._atoms[next(iter(self.it.d))[0]]
        self.anch = self.anchors(vals)
        A = self.anch
        nv = self.nv
        self.svw = {p: (v._s is not None) for p, v in vals.items() if isinstance(v, IV)}
        OA = self.outer_anchors()

        def at(a, it):
            return a.subst([(it_at, it)])

        # affine closed forms
        for p in self.aff:
            def f(v, it, p=p):
                c = self.closed(p, it)
                x = v[p]
                if isinstance(x, PV):
                    if x.r is not c.r:
                        return False
                    return x.off.eq(c.off)
                return (x._s if x._s is not None and self.ev[p]._s is not None else x._u if x._u is not None and self.ev[p]._s is None else
                        x.s() if self.ev[p]._s is not None else x.u()).eq(c)
            out.append(Cand(('aff', p), f, ('aff', p)))
        # representable integers
        self.ranges = []
        ints = [(p, v) for p, v in vals.items() if isinstance(v, IV) and p not in self.inv]
        polys, ptrs = [], []
        for c in cmpvals:
            if isinstance(c, Poly):
                polys.append(c)
            else:
                ptrs.append(c)
        # comparisons with values of this loop are no bounds
        own = self.own_atoms(vals) | self.it.atoms()
        polys = dedupe([q for q in polys if not (q.atoms() & own)])
        ptrs = [q for q in ptrs if not (q.off.atoms() & own)]
        for p, v in ints:
            def g(x):
                return x._s if x._s is not None else x._u
            if p in self.aff:
                d = self.aff[p]
                up = d.isconst() and d.cval() > 0
                dn = d.isconst() and d.cval() < 0
                qs = dedupe(polys)
                if self.batch and up:
                    qs = [q for q in qs if q.atoms() == S.N.atoms()]
                for q in qs:
                    for off in (0, -1, 1):
                        qq = q + off
                        if up or not dn:
                            out.append(Cand(('le', p, qq.key()), lambda vv, it, p=p, qq=qq: nv(p, vv) <= at(qq, it), ('ub', p)))
                            if not self.batch:
                                out.append(Cand(('gle', p, qq.key()), lambda vv, it, p=p, qq=qq: Or(it.eq(0), nv(p, vv) <= at(qq, it)), ('ub', p)))
                        if dn or not up:
                            out.append(Cand(('ge', p, qq.key()), lambda vv, it, p=p, qq=qq: nv(p, vv) >= at(qq, it), ('lb', p)))
                if not d.isconst():
                    pass
                if dn:
                    for off in (0, -1):
                        out.append(Cand(('ge', p, off), lambda vv, it, p=p, off=off: nv(p, vv) >= off, ('lb', p)))
            else:
                e = self.ev[p]
                base = [P(0)] + polys + ([e._s if e._s is not None else e._u] if e is not UNDEF else [])
                base += [S.dims[d] for d in S.dimorder if not S.dims[d].isconst()] + S.ghosts
                for q in dedupe(base):
                    for off in (0, -1, 1):
                        qq = q + off
                        out.append(Cand(('le', p, qq.key()), lambda vv, it, p=p, qq=qq: nv(p, vv) <= at(qq, it)))
                        out.append(Cand(('ge', p, qq.key()), lambda vv, it, p=p, qq=qq: nv(p, vv) >= at(qq, it)))
                for p2, v2 in ints:
                    if p2 == p:
                        continue
                    for off in (0, -1, 1):
                        out.append(Cand(('le2', p, p2, off), lambda vv, it, p=p, p2=p2, off=off: nv(p, vv) <= nv(p2, vv) + off))
                        if p2 in self.aff:
                            out.append(Cand(('ge2', p, p2, off), lambda vv, it, p=p, p2=p2, off=off: nv(p, vv) >= nv(p2, vv) + off))
                            if off == -1:
                                out.append(Cand(('gle2', p, p2), lambda vv, it, p=p, p2=p2: Or(it.eq(0), nv(p, vv) <= nv(p2, vv) - 1)))
                for nm, fn in S.index_preds:
                    for off in (0, -1, 1):
                        out.append(Cand(('ip', nm, p, off), lambda vv, it, p=p, fn=fn, off=off: fn(nv(p, vv) + off)))
        for p, v in vals.items():
            if isinstance(v, PV) and p in self.aff:
                d = self.aff[p]
                for q in ptrs:
                    if q.r is v.r and d.isconst():
                        if d.cval() > 0:
                            out.append(Cand(('ple', p, q.off.key()), lambda vv, it, p=p, q=q: vv[p].off <= at(q.off, it), ('ub', p)))
                        else:
                            out.append(Cand(('pge', p, q.off.key()), lambda vv, it, p=p, q=q: vv[p].off >= at(q.off, it), ('lb', p)))
        # links to the contract
        if not self.batch:
            targets = []      # (key, kind, fn(it)->value)
            for f in S.folds:
                combos = [()]
                for _ in range(f.params):
                    combos = [c + (o,) for c in combos for o in (OA[:8] if OA else [P(0)])]
                for a in A:
                    for ps in combos:
                        for c, k in enumerate(f.kinds):
                            targets.append(((f.name, c, a.key(), tuple(x.key() for x in ps)), k,
                                            lambda it, f=f, a=a, c=c, ps=ps: f.tupl(f(at(a, it), *ps))[c]))
            self.targets = targets
            for nm, fn in S.views:
                for a in A:
                    try:
                        k = kindof(fn(a))
                    except Exception:
                        continue
                    targets.append((('view', nm, a.key()), k, lambda it, fn=fn, a=a: fn(at(a, it))))
            for k in range(S.nin):
                inf = S.infos[k]
                if len(inf.dims) == 1 and not inf.cplx:
                    for a in A:
                        targets.append((('x', k, a.key()), 'i' if inf.kind == 'i' else inf.kind,
                                        lambda it, k=k, a=a: S.x(k)(at(a, it))))
            for p, v in vals.items():
                if p in self.inv or p in self.aff or v is UNDEF:
                    continue
                kv = kindof(v)
                for key, kt, fn in targets:
                    if kt == kv or (kv == 'b' and kt == 'i') or (kv == 'i' and kt == 'b'):
                        out.append(Cand(('eq', p) + key, lambda vv, it, p=p, fn=fn: eqstrict(nv(p, vv), fn(it))))
                        if kv == 'i' and kt == 'i' and isinstance(v, IV) and v.bits > 1:
                            out.append(Cand(('eqo', p) + key, lambda vv, it, p=p, fn=fn: eqstrict(vv[p].u() if self.svw[p] else vv[p].s(), fn(it))))
                        if kv in T.SORT:
                            out.append(Cand(('eqv', p) + key, lambda vv, it, p=p, fn=fn: looseq(nv(p, vv), fn(it))))
                        if kv == 'b' and kt == 'b' or kv == 'i' and kt == 'b':
                            out.append(Cand(('neq', p) + key, lambda vv, it, p=p, fn=fn: eqstrict(nv(p, vv), Not(fn(it)))))
                if kv != 'b':
                    for k in range(S.nin):
                        inf = S.infos[k]
                        if len(inf.dims) == 1 and not inf.cplx and kv == ('i' if inf.kind == 'i' else inf.kind):
                            for p2, v2 in ints:
                                if p2 != p and p2 not in self.aff and p2 not in self.inv:
                                    out.append(Cand(('xat', p, k, p2), lambda vv, it, p=p, p2=p2, k=k: eqstrict(nv(p, vv), S.x(k)(nv(p2, vv)))))
                e = self.ev[p]
                if e is not UNDEF and not isinstance(e, PV):
                    out.append(Cand(('const', p), lambda vv, it, p=p, e=e: eqstrict(nv(p, vv), e)))
            # facts about the fold state itself (early-exit loops)
            for f in S.folds:
                if f.params:
                    continue
                for a in A:
                    for c, k in enumerate(f.kinds):
                        base = f.tupl(f.init())[c]
                        if f.stable and a.atoms() & self.it.atoms():
                            out.append(Cand(('keep', f.name, c, a.key()), lambda vv, it, f=f, a=a, c=c:
                                            eqstrict(f.tupl(f(at(a, it)))[c], f.tupl(f(at(a, P(0))))[c])))
                        if k == 'b':
                            out.append(Cand(('st', f.name, c, a.key()), lambda vv, it, f=f, a=a, c=c, base=base: T.Iff(f.tupl(f(at(a, it)))[c], base)))
                        elif k in ('i',):
                            out.append(Cand(('st', f.name, c, a.key()), lambda vv, it, f=f, a=a, c=c, base=base: f.tupl(f(at(a, it)))[c].eq(P(base))))
            for nm, fn in S.invs if hasattr(S, 'invs') else []:
                for a in A:
                    out.append(Cand(('inv', nm, a.key()), lambda vv, it, fn=fn, a=a: fn(at(a, it))))
            # error flag
        self.pool = out

    def memcands(self, vals, stores):
        S, ex = self.S, self.ex
        it_at = T._atoms[next(iter(self.it.d))[0]]
        self.mpool = []
        self.mtype = {}
        if self.batch:
            return
        A = self.anch
        OA = self.outer_anchors()
        byreg = {}
        for ptr, v, ty in stores:
            if isinstance(ptr, PV) and ptr.r in self.modset:
                byreg.setdefault(ptr.r, []).append((ptr, v, ty))
        for r in self.modset:
            ss = byreg.get(r, [])
            idxs = []
            esz = None
            if r.kind == 'arr':
                nd = len(r.info.dims)
                for ptr, v, ty in ss:
                    if isinstance(ty, str):
                        idxs.append(None)
                        continue
                    res = self.ex_resolve_quiet(ptr)
                    idxs.append(tuple(res) if res is not None else None)
            else:
                nd = 1
                ty0 = None
                for ptr, v, ty in ss:
                    if isinstance(ty, str):
                        idxs.append(None)
                        continue
                    t = ex.mod.resolve(ty)
                    ty0 = ty0 or t
                    esz = ex.mod.size(t) if esz is None else esz
                    if t != ty0:
                        esz = -1
                    idxs.append((ptr.off,))
                if ty0 is None and r.step:
                    ty0, esz = r.step
                self.mtype[r] = (ty0, esz)
                if ty0 is None or esz == -1:
                    continue
                r.step = (ty0, esz)
                # records of several elements (offsets advance by a multiple of the element size)
                g = 0
                for ix in idxs:
                    for m_, c_ in (ix[0].d.items() if ix is not None else ()):
                        if m_:
                            g = math.gcd(g, c_)
                if g and g % esz == 0:
                    r.width = math.gcd(getattr(r, 'width', 0), g // esz)
            W = getattr(r, 'width', 1) or 1
            phis = []
            seen = []
            for ix in idxs:
                if ix is None or any(all(a.same(b) for a, b in zip(ix, o)) for o in seen):
                    continue
                seen.append(ix)
                phi = None
                if all(not self.dryatom(p) for p in ix):
                    mov = [d for d, p in enumerate(ix) if p.atoms() & self.it.atoms()]
                    unit = 1 if r.kind == 'arr' else esz * W
                    if len(mov) == 1:
                        d = mov[0]
                        sl = ix[d] - ix[d].subst([(it_at, P(0))])
                        one = self.it * unit
                        if sl.same(one) or sl.same(-one):
                            phi = (d, ix[d].subst([(it_at, P(0))]), 1 if sl.same(one) else -1, ix, unit)
                    elif not mov:
                        phi = ('fix', ix)
                if phi:
                    phis.append(phi)
            toidx = (lambda idx: idx) if r.kind == 'arr' else (lambda idx, esz=esz: tuple(divp(i, esz) for i in idx)) if W == 1 else (
                lambda idx, esz=esz, W=W: (divp(idx[0] - residue(idx[0], W * esz), W * esz), P(residue(idx[0], W * esz) // esz)))
            entry = self.st.mem.get(r)
            ko = r.k - S.nin if r.kind == 'arr' else None
            self.mpool.append(MCand(('F0', r.name), r, lambda it, idx: True,
                                    lambda it, idx, entry=entry, r=r: ex.chain(entry, idx, self.mtype.get(r, (None,))[0], r)))
            for np_, phi in enumerate(phis[:3]):
                self.mem_range(r, phi, () if np_ == 0 else (np_,), [x for x, i_ in zip(ss, idxs) if i_ is not None and
                                                                   all(a.same(b) for a, b in zip(i_, phi[1] if phi[0] == 'fix' else phi[3]))],
                               toidx, entry, ko, ty0 if r.kind != 'arr' else None)
            if len(phis) > 1:
                fs = [self.rngfn(q, W > 1) for q in phis]
                self.mpool.append(MCand(('F', r.name, 'all'), r, lambda it, idx, fs=fs: Not(Or(*[g(it, idx) for g in fs])),
                                        lambda it, idx, entry=entry, r=r: ex.chain(entry, idx, self.mtype.get(r, (None,))[0], r)))
            if r.kind == 'arr' and nd > 1:
                mv = [q for q in phis if q[0] != 'fix']
                if mv:
                    self.mem_range(r, mv[0], ('row',), [], toidx, entry, ko, None)
            for n, (k, fn, srng) in enumerate(S.states):
                if k is None or k == ko:
                    for a in A:
                        self.mpool.append(MCand(('T2', r.name, n, a.key()), r, (lambda it, idx: True) if srng is None else
                                                (lambda it, idx, srng=srng, a=a, toidx=toidx: srng(a.subst([(it_at, it)]), *toidx(idx))),
                                                lambda it, idx, fn=fn, a=a, toidx=toidx: fn(a.subst([(it_at, it)]), *toidx(idx))))

    def rngfn(self, phi, wide=False):
        """cells written so far through one store"""
        if phi[0] == 'fix':
            return lambda it, idx, ix=phi[1]: And(*[a.eq(b) for a, b in zip(idx, ix)])
        d, c0, sg, ix, unit = phi

        def rng(it, idx):
            if wide and residue(idx[d], unit) != residue(c0, unit):
                return False
            cs = [idx[e].eq(ix[e]) for e in range(len(idx)) if e != d]
            if sg > 0:
                cs += [idx[d] >= c0, idx[d] < c0 + it * unit]
            else:
                cs += [idx[d] <= c0, idx[d] > c0 - it * unit]
            return And(*cs)
        return rng

    def mem_range(self, r, phi, tag, ss, toidx, entry, ko, ty0):
        """candidates for the cells written through one store, at index phi"""
        S, ex = self.S, self.ex
        it_at = T._atoms[next(iter(self.it.d))[0]]
        OA = self.outer_anchors()
        rng = self.rngfn(phi, r.kind != 'arr' and (getattr(r, 'width', 1) or 1) > 1)
        if tag == ('row',):
            full = rng

            def rng(it, idx, phi=phi):
                d, c0, sg, ix, unit = phi
                return And(idx[d] >= c0, idx[d] < c0 + it * unit) if sg > 0 else And(idx[d] <= c0, idx[d] > c0 - it * unit)
        self.mpool.append(MCand(('F', r.name) + tag, r, lambda it, idx, rng=rng: Not(rng(it, idx)),
                                lambda it, idx, entry=entry, r=r: ex.chain(entry, idx, self.mtype.get(r, (None,))[0], r)))
        outs = []
        if phi[0] == 'fix' and r.kind == 'local' and ty0[0] == 'f' and all(i.isconst() for i in phi[1]):
            from .sx import FT
            for key, kt, fn in self.targets:
                if kt == FT[ty0[1]]:
                    self.mpool.append(MCand(('LT', r.name) + key, r, rng, lambda it, idx, fn=fn: fn(it)))
        if ko is not None and ko in S.outs:
            outs.append((('out', ko), lambda it, idx: S.outs[ko][0](*idx)))
        for n, (k, fn) in enumerate(S.auxes):
            if k is None or k == ko:
                outs.append((('aux', n), lambda it, idx, fn=fn: fn(*idx)))
        for n, (k, fn, srng) in enumerate(S.states):
            if k is None or k == ko:
                for o in OA:
                    outs.append((('stt', n, o.key()), lambda it, idx, fn=fn, o=o: fn(o, *idx)))
        if phi[0] != 'fix' and ss:
            d, c0, sg, ix, unit = phi
            vs = [v for ptr, v, ty in ss]
            v = vs[0]
            if all(ex.same_val(v, w) for w in vs[1:]) and not self.dryval(v):
                def sub(it, idx, v=v, d=d, c0=c0, sg=sg, unit=unit):
                    q = (idx[d] - c0) * sg
                    q = divp(q, unit)
                    return subst_val(v, it_at, q)
                outs.append((('val',), sub))
        for key, fn in outs:
            def o2(it, idx, fn=fn, toidx=toidx, key=key):
                return fn(it, idx if key[0] == 'val' else toidx(idx))
            self.mpool.append(MCand(('T1', r.name) + tag + key, r, rng, o2))

    def dryatom(self, p):
        return any(depends_on(T._atoms[a], isdry) for a in p.atoms())

    def dryval(self, v):
        if isinstance(v, IV):
            p = v._s if v._s is not None else v._u
            return p is None or self.dryatom(p) or self.phiatom(p)
        if isinstance(v, (FV, OV)):
            return depends_on(v.t, lambda n: isdry(n) or self.ownphi(n))
        if isinstance(v, tuple):
            return any(self.dryval(x) for x in v)
        if is_sym(v):
            return depends_on(v, lambda n: isdry(n) or self.ownphi(n))
        if isinstance(v, bool):
            return False
        return True

    def phiatom(self, p):
        return any(depends_on(T._atoms[a], self.ownphi) for a in p.atoms())

    def ownphi(self, n):
        return n.startswith('phi_') and int(n.rsplit('!', 1)[1]) > self.mark0

    # ------------------------------------------------------------ checking
    def goal(self, c, vals, it, st):
        """formula for candidate c in a given state"""
        C, ex = self.C, self.ex
        if isinstance(c, Cand):
            return c.fn(vals, it)
        r = c.r
        gs = []
        for idx in self.skolems(r):
            g = self.goal1(c, r, idx, it, st)
            if g is False:
                return False
            gs.append(g)
        return And(*gs)

    def goal1(self, c, r, idx, it, st):
        ex = self.ex
        g = c.rng(it, idx)
        if g is False:
            return True
        v = ex.chain(st.mem.get(r), idx, self.mtype.get(r, (None,))[0], r)
        w = c.out(it, idx)
        if v is None or w is None:
            return v is None and w is None
        if r.kind == 'arr':
            v = self.S.mathval(r.info, v)
            w = self.S.mathval(r.info, w)
        return Implies(And(g, self.inb(r, idx)), valeq(v, w))

    def skolems(self, r):
        if r.kind == 'arr':
            return [tuple(Poly.atom(z3.Int(f'sk_{self.serial}_{d}')) for d in range(len(r.info.dims)))]
        esz = self.mtype[r][1]
        W = getattr(r, 'width', 1) or 1
        return [(Poly.atom(z3.Int(f'sk_{self.serial}')) * (esz * W) + esz * w,) for w in range(W)]

    def inb(self, r, idx):
        if r.kind == 'arr':
            return And(*[And(i >= 0, i < d) for i, d in zip(idx, r.info.dims)])
        return And(idx[0] >= 0, idx[0] < r.size) if r.size is not None else And(idx[0] >= 0)

    def filter_entry(self):
        S, C, ex = self.S, self.C, self.ex
        S.depth = 1 + S.xdepth
        try:
            cs = list(self.pool) + list(self.mpool)
            self.seen_clean, self.keepalive = set(), []
            self.own_ids = {T._atoms[next(iter(self.it.d))[0]].get_id()}
            for v in self.base_vals.values():
                self.own_ids |= val_ids(v)
            C.push()
            C.assume(zb(self.it.eq(0)))
            keep = self.prove_many(cs, self.ev, P(0), self.st, entry=True)
            C.pop()
            if self.batch:
                bad = [c for c in keep if False]
            return keep
        finally:
            S.depth = 0

    def prove_many(self, cs, vals, it, st, entry=False):
        """the candidates that hold in this state"""
        C = self.C
        gs = []
        keep = []
        for c in cs:
            try:
                g = self.goal(c, vals, it, st)
            except (TypeError, Unsupported) as e:
                continue
            if g is False:
                continue
            if entry and self.stray(g):
                continue
            if g is True:
                keep.append(c)
                continue
            gs.append((c, zb(g)))
        while gs:
            C.s.push()
            C.flush_outer()
            big = z3.Not(z3.And(*[g for _, g in gs])) if len(gs) > 1 else z3.Not(gs[0][1])
            C.s.add(big)
            import time
            t = time.time()
            r = C.s.check()
            C.tq += time.time() - t
            C.nq += 1
            if r == z3.unsat:
                C.s.pop()
                keep += [c for c, _ in gs]
                break
            bad = set()
            if r == z3.sat:
                m = C.s.model()
                for n, (c, g) in enumerate(gs):
                    if z3.is_false(m.eval(g, model_completion=True)):
                        bad.add(n)
            C.s.pop()
            if not bad:
                ok = []
                for c, g in gs:
                    if C.prove(g):
                        ok.append(c)
                keep += ok
                break
            gs = [x for n, x in enumerate(gs) if n not in bad]
        ids = {id(c) for c in keep}
        return [c for c in cs if id(c) in ids]

    def header_state(self, vals):
        """assume the active invariants; returns the state at the loop header"""
        ex, C, S = self.ex, self.C, self.S
        st = self.st.copy()
        st.env.update(vals)
        for p, v in vals.items():
            if isinstance(v, IV) and p not in self.inv:
                b = v.bits
                if v._s is not None:
                    C.assume(zb(And(v._s >= -(1 << (b - 1)), v._s < (1 << (b - 1)))))
                elif v._u is not None:
                    C.assume(zb(And(v._u >= 0, v._u < (1 << b))))
        for r in self.modset:
            if self.batch and r.kind == 'arr':
                continue
            if r.kind == 'local' and r.heap and r not in self.st.mem:
                continue        # allocated inside the loop: not visible at its header
            act = [c for c in self.active if isinstance(c, MCand) and c.r is r]
            st.mem[r] = self.summary(r, act)
        if self.batch:
            st.gh['J'] = self.it
            st.gh['wrote'] = False
            st.gh['refs'] = ()
            for q in S.requires:
                C.assume(zb(q() if callable(q) else q))
            for r in S.arrs:
                if not r.info.isin:
                    S.out_init(st, r, f"_{self.serial}_")
        for c in self.active:
            if isinstance(c, Cand):
                if c.tag and c.tag[0] == 'aff':
                    continue
                try:
                    g = c.fn(vals, self.it)
                except TypeError:
                    continue
                if g is not True:
                    C.assume(zb(g))
        return st

    def summary(self, r, act):
        ex, C, S = self.ex, self.C, self.S
        it = self.it
        nm = f"aux_{self.serial}_{r.name}"
        if r.kind == 'arr':
            fa = S.fresh_array(r.info, nm)
        else:
            ty0, esz = self.mtype.get(r, (None, None))
            cache = {}

            def fa(idx, ty):
                t = ty or ty0
                if t is None:
                    raise Unsupported("untyped local memory")
                key = (idx[0].key(), t)
                if key not in cache:
                    z = idx[0].z()
                    t2 = ex.mod.resolve(t)
                    if t2[0] == 'f':
                        k = T.FT[t2[1]]
                        C.setitem(cache, key, FV(k, T.uf(nm + k, z3.IntSort(), T.SORT[k])(z)))
                    elif t2[0] == 'i':
                        a = Poly.atom(T.uf(nm + f'i{t2[1]}', z3.IntSort(), z3.IntSort())(z))
                        C.axiom(And(a >= -(1 << (t2[1] - 1)), a < (1 << (t2[1] - 1))))
                        C.setitem(cache, key, IV(t2[1], a))
                    else:
                        C.setitem(cache, key, OV(T.uf(nm + 'o', z3.IntSort(), T.OBJ)(z)))
                return cache[key]

        def fn(idx, ty):
            v = fa(idx, ty)
            for c in act:
                try:
                    g = c.rng(it, idx)
                except Unsupported:
                    continue
                if g is False:
                    continue
                try:
                    w = c.out(it, idx)
                except Unsupported:
                    continue
                if w is None or w is UNDEF:
                    continue
                mv = S.mathval(r.info, v) if r.kind == 'arr' else v
                mw = S.mathval(r.info, w) if r.kind == 'arr' else w
                if type(mv) is not type(mw) and not isinstance(mw, (Poly, int, IV)):
                    continue
                f = Implies(And(g, self.inb(r, idx)), valeq(mv, mw))
                if f is not True:
                    C.assume(zb(f))
            return v
        return Summary(fn)

    def probe(self, vals):
        ex, C, S = self.ex, self.C, self.S
        failed = set()
        afffail = set()
        C.push()
        ex.probe += 1
        np = ex.npaths
        try:
            st = self.header_state(vals)

            def back(st2, prev2):
                cs = [c for c in self.active if c.key not in failed]
                v2 = ex.phis(self.L.h, prev2, st2)
                for p, v in v2.items():
                    if isinstance(v, PV) and v.r is None and isinstance(self.ev[p], OV):
                        v2[p] = OV(T.NULLOBJ)
                S.depth = 1 + S.xdepth
                try:
                    keep = self.prove_many(cs, v2, self.it + 1, st2)
                finally:
                    S.depth = 0
                ids = {id(c) for c in keep}
                for c in cs:
                    if id(c) not in ids:
                        failed.add(c.key)
                        if isinstance(c, Cand) and c.tag and c.tag[0] == 'aff':
                            afffail.add(c.tag[1])
            if C.feasible():
                self.body(st, Frame(self.L, back, False, self))
        finally:
            ex.probe -= 1
            C.pop()
        return failed, afffail

    def body(self, st, frame):
        ex = self.ex
        # phis already set: execute header block's non-phi part
        frames = self.frames + [frame]
        L = self.L
        nxt = ex.block(L.h, None, st)
        if nxt is None:
            return
        for c, b in nxt:
            if c is False:
                continue
            ex.npaths += 1
            if ex.npaths > ex.maxpaths:
                raise Budget("path budget")
            ex.C.push()
            if c is not True:
                ex.C.assume(c)
            try:
                if c is True or ex.C.feasible():
                    ex.run(b, L.h, st.copy(), frames)
            finally:
                ex.C.pop()

    def final(self, vals):
        ex, C, S = self.ex, self.C, self.S
        measures = self.measures(vals)
        alive = dict(measures)
        nback = [0]
        term0 = self.bounded()
        C.push()
        try:
            st = self.header_state(vals)
            if self.batch:
                if not ex.probe and not ex.nonvac:
                    C.push()
                    ok = C.check() == z3.sat or C.check() == z3.unknown
                    C.pop()
                    ex.nonvac = ok

            def back(st2, prev2):
                nback[0] += 1
                v2 = ex.phis(self.L.h, prev2, st2)
                err = st2.gh.get('err', False)
                if err is not False and not ex.probe:
                    ex.oblige('exception', f"loop {self.L.h} does not continue with an exception set", Not(err))
                    st2.gh['err'] = False
                if not ex.probe:
                    for r in st2.mem:
                        if r.kind == 'local' and r.heap and r not in st.mem and st2.gh.get(('alive', r), True):
                            ex.fail('memory', f"allocation {r.name} released", "memory allocated in the loop is not released in the same iteration")
                if not self.batch:
                    a, b = st.gh.get('refs', ()), st2.gh.get('refs', ())
                    if len(a) != len(b) or any(not x.t.eq(y.t) for x, y in zip(a, b)):
                        ex.fail('reference', f"loop {self.L.h} leaves owned references unchanged", "references acquired or released in the loop")
                if self.batch:
                    # affine forms of the batch loop are obligations here
                    for c in self.active:
                        if isinstance(c, Cand):
                            try:
                                g = c.fn(v2, self.it + 1)
                            except TypeError:
                                continue
                            if self.optimistic and not (g is True or C.prove(zb(g))):
                                raise Optimist()
                            if c.tag and c.tag[0] == 'aff':
                                ex.oblige('invariant', f"batch loop: {c.key[1]} advances by its step", g)
                            else:
                                ex.oblige('invariant', f"batch loop bound {c.key[0]} {c.key[1]}", g)
                    if not ex.probe:
                        ex.contract_checked += 1
                        S.check_iteration(ex, st2)
                for k, m in list(alive.items()):
                    try:
                        a, b = m(vals), m(v2)
                        g = And(a >= 0, b < a)
                    except TypeError:
                        del alive[k]
                        continue
                    if not (g is True or C.prove(zb(g))):
                        del alive[k]
            if C.feasible():
                self.body(st, Frame(self.L, back, True, self))
        finally:
            C.pop()
        if not ex.probe:
            if nback[0]:
                ok = term0 or bool(alive)
                if ok:
                    ex.oblige('termination', f"loop {self.L.h} terminates", True)
                else:
                    ex.fail('termination', f"loop {self.L.h} terminates", "no bound or decreasing measure found")
            n = len(self.active)
            ex.loop_report[self.L.h] = max(n, ex.loop_report.get(self.L.h, 0))
            ex.invariants = getattr(ex, 'invariants', 0) + n

    def bounded(self):
        for c in self.active:
            if isinstance(c, Cand) and c.tag and c.tag[0] in ('ub', 'lb') and c.tag[1] in self.aff:
                d = self.aff[c.tag[1]]
                if d.isconst() and (d.cval() > 0) == (c.tag[0] == 'ub'):
                    return True
        return False

    def measures(self, vals):
        r = {}
        ps = [p for p, v in vals.items() if isinstance(v, IV) and p not in self.inv]

        def g(x):
            return x._s if x._s is not None else x._u
        for p in ps:
            r[('m', p)] = lambda vv, p=p: g(vv[p])
            r[('mn', p)] = lambda vv, p=p: -g(vv[p])
            r[('ab', p)] = lambda vv, p=p: ite(g(vv[p]) >= 0, g(vv[p]), -g(vv[p]))
            for q in ps:
                if q != p:
                    r[('d', p, q)] = lambda vv, p=p, q=q: g(vv[p]) - g(vv[q])
        return r

    def on_exit(self, st):
        """leaving the loop: mention the contract folds one step further, so early exits can use them"""
        S = self.S
        if self.batch:
            st.gh['done'] = self.it
            st.gh['J'] = None
            return
        st.gh['exits'] = st.gh.get('exits', ()) + tuple(self.anch)
        if not S.folds:
            return
        S.depth = 1 + S.xdepth
        OA = self.outer_anchors()
        try:
            for f in S.folds:
                if f.params:
                    continue
                for a in self.anch:
                    f(a)
        finally:
            S.depth = 0


def residue(p, c):
    if any(v % c for m, v in p.d.items() if m):
        raise Unsupported("non-aligned index")
    return p.d.get((), 0) % c


def divp(p, c):
    if c == 1:
        return p
    if all(v % c == 0 for v in p.d.values()):
        return Poly({m: v // c for m, v in p.d.items()})
    raise Unsupported("non-aligned index")


def subst_val(v, at, q):
    if isinstance(v, IV):
        return IV(v.bits, s=v._s.subst([(at, q)])) if v._s is not None else IV(v.bits, u=v._u.subst([(at, q)]))
    if isinstance(v, FV):
        return FV(v.ty, z3.substitute(v.t, (at, q.z())), v.c if v.c is not None else None)
    if isinstance(v, OV):
        return OV(z3.substitute(v.t, (at, q.z())))
    if isinstance(v, tuple):
        return tuple(subst_val(x, at, q) for x in v)
    if is_sym(v):
        return z3.substitute(v, (at, q.z()))
    return v


def kindof(v):
    if isinstance(v, FV):
        return v.ty
    if isinstance(v, (IV, Poly)):
        return 'i'
    if isinstance(v, OV):
        return 'obj'
    if isinstance(v, tuple):
        return 'tuple'
    if isinstance(v, PV):
        return 'ptr'
    return 'b'


def mval(v):
    if isinstance(v, IV):
        return v._s if v._s is not None else v._u
    return v


def eqstrict(a, b):
    a, b = mval(a), mval(b)
    if isinstance(a, (Poly, int)) and not isinstance(a, bool) and (isinstance(b, bool) or z3.is_bool(b) if is_sym(b) or isinstance(b, bool) else False):
        b = ite(b, P(1), P(0))
    if (isinstance(a, bool) or (is_sym(a) and z3.is_bool(a))) and isinstance(b, (Poly, int)) and not isinstance(b, bool):
        b = P(b).eq(1)
    return T.same_strict(a, b)


def looseq(a, b):
    return T.eqv(mval(a), mval(b))


def valeq(a, b):
    if isinstance(a, tuple):
        return And(*[valeq(x, y) for x, y in zip(a, b)])
    if isinstance(a, IV) and isinstance(b, IV):
        if a._s is not None and b._s is not None:
            return a._s.eq(b._s)
        return a.s().eq(b.s())
    if isinstance(a, IV):
        a = a.s()
    if isinstance(b, IV):
        b = b.s()
    if isinstance(a, FV) and not isinstance(b, FV):
        b = T.fcoerce(a, b)
    return T.same_strict(a, b)
