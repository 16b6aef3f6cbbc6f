"""Verify one registered loop of one module against its specification."""
import time, traceback
from . import ir, terms as T, contract
from .sx import Exec, State, Budget, PV
from .terms import P, Unsupported


class Result:
    pass


def verify_loop(mod, u, loop, specfn, timeout_ms=5000, extra=None):
    """mod: parsed IR module; u: table entry; specfn(S) installs the contract.
    First with floating-point arithmetic uninterpreted (fast; every proof found is a proof); if that
    fails, with the floating-point axioms."""
    if extra and extra.get('strip'):
        # only memory, frame, exception ... obligations are wanted: first without the functional part of the contract
        def stripped(S):
            specfn(S)
            S.stripped = True
            S.requires = []
            S.outs, S.ensures, S.folds, S.views, S.auxes, S.states, S.lemmas, S.invs, S.heavy = {}, [], [], [], [], [], [], [], False
        w = q = s = 0
        for light in (True, False):
            r = verify_once(mod, u, loop, stripped, timeout_ms, extra, light)
            r.wall, r.queries, r.solver_s = r.wall + w, r.queries + q, r.solver_s + s
            w, q, s = r.wall, r.queries, r.solver_s
            if r.ok:
                return r
        if extra.get('striponly'):
            return r

        def total(S):
            specfn(S)
            S.requires = []
        for light in (True, False):
            r = verify_once(mod, u, loop, total, timeout_ms, extra, light)
            r.wall, r.queries, r.solver_s = r.wall + w, r.queries + q, r.solver_s + s
            w, q, s = r.wall, r.queries, r.solver_s
            if r.ok or r.error is None and not any(o.kind in extra['kinds'] for o in r.obl if not o.ok):
                break
        return r
    r = verify_once(mod, u, loop, specfn, timeout_ms, extra, True)
    if not r.ok and any('f' in contract.TYPES[t][1] for t in loop['types']):
        w, q, s = r.wall, r.queries, r.solver_s
        r = verify_once(mod, u, loop, specfn, timeout_ms, extra, False)
        r.wall += w
        r.queries += q
        r.solver_s += s
    return r


def verify_once(mod, u, loop, specfn, timeout_ms, extra, light):
    t0 = time.time()
    T.reset_atoms()
    C = T.Ctx(timeout_ms, light)
    T.set_ctx(C)
    r = Result()
    r.ufunc, r.func, r.types = u['attr'], loop['func'], loop['types']
    r.obl, r.error, r.assumed = [], None, []
    ex = None
    try:
        S = contract.SymS(u, loop, C)
        specfn(S)
        if light and S.heavy:
            r.error = 'skipped'
            return finish(r, None, C, t0)
        for f in S._facts:
            C.assume(T.zb(f))
        for c in S.dim_requires:
            C.assume(T.zb(c))
        f = ir.expand(mod, ir.get_func(mod, '@' + loop['func']))
        ex = Exec(mod, f, S, C)
        ex.early = light and bool((extra or {}).get('strip') or any('f' in contract.TYPES[t][1] for t in loop['types']))
        st = State()
        names = [p[1] for p in f.params]
        if len(names) != 4:
            raise Unsupported(f"loop function has {len(names)} parameters")
        st.env = {names[0]: PV(ex.args, P(0)), names[1]: PV(ex.dimsR, P(0)), names[2]: PV(ex.stepsR, P(0)), names[3]: S.datap(ex) if hasattr(S, 'datap') else T.UNDEF}
        S.init_mem(ex, st, '')
        ex.run(f.order[0], None, st, [])
        check_lemmas(S, ex, C)
    except (Unsupported, Budget) as e:
        r.error = f"{type(e).__name__}: {e}"
    except Exception as e:
        r.error = f"internal {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
    return finish(r, ex, C, t0)


def finish(r, ex, C, t0):
    if ex is not None:
        r.obl = ex.obl
        r.assumed = sorted(ex.assumed)
        r.invariants = getattr(ex, 'invariants', 0)
        r.nonvac = ex.nonvac
        r.checked = ex.contract_checked
        r.paths = ex.npaths
    else:
        r.invariants, r.nonvac, r.checked, r.paths = 0, False, 0, 0
    r.queries, r.solver_s = C.nq, C.tq
    r.wall = time.time() - t0
    r.ok = r.error is None and all(o.ok for o in r.obl) and r.checked > 0 and r.nonvac
    return r


def check_lemmas(S, ex, C):
    from .terms import Implies, And, zb
    import z3
    for name, f in S.lemmas:
        if name.startswith('stable:'):
            C.push()
            j = C.int('lem_j')
            C.assume(zb(j >= f.start))
            ps = [C.int('lem_p') for _ in range(f.params)]
            v = f.raw(j, ps)
            C.assume(zb(f.stable(*v, *ps)))
            nx = f.tupl(f.step(j, *v, *ps))
            g = And(*[T.same_strict(f.co(x, k), y) for x, y, k in zip(nx, v, f.kinds)])
            ex.oblige('lemma', f"fold {f.name} is stable once finished", g)
            C.pop()
        else:
            f(S, ex, C)
