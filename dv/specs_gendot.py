"""Contract of the loop of the gufuncs created by gendot, for every element-wise ufunc `prod` and every `sum` that is an
element-wise ufunc or a gufunc with signature (n)->().

gendot_loop(args, dims, steps, data):
  requires  data describes a loop of prod (types T1,T2 -> T3), a loop of sum (T3,T3 -> T3, or (n) of T3 -> T4), their data
            pointers, the sizes of T3 and T4, and the identity of sum if it has one
  ensures   n > 0:   out[J] == sum(...sum(sum(p0, p1), p2)..., p_{n-1})  or  sumgufunc(p0, ..., p_{n-1}),  p_k == prod(x[J,k], y[J,k])
            n == 0:  out[J] == identity of sum, or a ValueError where it has none
            each called loop gets its own data pointer; the temporary memory is released
The functions called through pointers appear as contracts: gendot_harness.c."""
import os, subprocess, json
import z3
from . import terms as T, ir, verify, extract as X
from .terms import P, FV, IV, Poly
from .sx import FT

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gendot_harness.c')
NUM = {c: i for i, c in enumerate('?bBhHiIlLqQfdgFDGO')}
# instance -> types of x, y, prod, out; gufunc; identity
CASES = dict(e1=('dfbb', 0, 1), e2=('fihh', 0, 1), e4=('hdff', 0, 1), e8=('fbdd', 0, 1), e8n=('ifdd', 0, 0), e16=('dfgg', 0, 1),
             g1=('dfbl', 1, 1), g4=('hdfb', 1, 1), g8=('fbdf', 1, 1), g8n=('ifdl', 1, 0), g16=('dfgd', 1, 1))
INFO = {'b': 8, 'h': 16, 'i': 32, 'l': 64, 'f': 'f32', 'd': 'f64', 'g': 'f80'}


def build(root):
    b = os.path.join(root, 'build')
    ll = os.path.join(b, 'gendot_harness.ll')
    raw, p = ll + '.raw', ll + '.p'
    X.sh([X.LLVM + 'clang', '-std=c99'] + X.cflags() + ['-I../src', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers',
         '-funroll-loops', '-ffp-contract=off', '-fno-discard-value-names', '-fno-exceptions', '-S', '-emit-llvm', HARNESS, '-o', raw], cwd=b)
    with open(raw) as f:
        t = X.prepare(f.read())
    with open(p, 'w') as f:
        f.write(t)
    s = 'always-inline,function(sroa,instsimplify,simplifycfg)'
    X.sh([X.LLVM + 'opt', '-S', f'-passes={s},{s},{s},function(loop-simplify,lcssa,loop-unroll<O2;full-unroll-max=8;no-peeling;no-partial;no-runtime;'
          'no-upperbound>,sroa,instsimplify,simplifycfg,loop-simplify,lcssa)', p, '-o', ll], cwd=b)
    return ll


def sort(k):
    return T.SORT[INFO[k]] if k in 'fdg' else z3.IntSort()


def func(name, ins, out):
    """an uninterpreted function on machine values"""
    f = T.uf(name, *[sort(k) for k in ins], sort(out))

    def app(*args):
        zs = []
        for k, a in zip(ins, args):
            if k in 'fdg':
                zs.append(a.t)
            elif isinstance(a, IV):
                zs.append(a.s().z())
            else:
                zs.append(P(a).z())
        t = f(*zs)
        if out in 'fdg':
            return FV(INFO[out], t)
        p = Poly.atom(t)
        h = 1 << (INFO[out] - 1)
        if T.C is not None and T.C.mark(('rng', t.get_id())):
            T.C.axiom(T.zb(T.And(p >= -h, p < h)))
        return p
    return app


def spec(name):
    ty, guf, ident = CASES[name]
    t1, t2, t3, t4 = ty
    prod = func('gdp_' + name, (t1, t2), t3)
    idv = func('gdi_' + name, (), t4)
    fs = {'gdp_': prod, 'gdi_': idv}
    if guf:
        g0, g, gf = func('gdg0_' + name, (), 'l'), func('gdg_' + name, ('l', t3), 'l'), func('gdgf_' + name, ('l',), t4)
        fs.update({'gdg0_': g0, 'gdg_': g, 'gdgf_': gf})
    else:
        sm = func('gds_' + name, (t3, t3), t3)
        fs['gds_'] = sm

    def contract(S):
        n, x, y = S.dim('n'), S.x(0), S.x(1)
        S.require_dim(n * 16 < (1 << 62))
        S.calls = {k + name: call(f) for k, f in fs.items()}
        p = lambda k: prod(x(k), y(k))
        S.aux(None, p)
        if guf:
            s = S.fold('acc', lambda: g0(), lambda k, a: g(a, p(k)))
            res = lambda: gf(s(n))
        else:
            s = S.fold('acc', lambda: p(0), lambda k, a: sm(a, p(k)), start=1)
            res = lambda: s(n)
            S.state(0, lambda a: s(a))
        if ident:
            S.out(0, lambda: T.ite(n.eq(0), idv(), res()))
        else:
            S.out(0, res)
            S.raises(n.eq(0))
    return contract


def call(f):
    def h(ex, i, st, args):
        if T.UNDEF in args:
            return T.UNDEF
        r = f(*args)
        return r if isinstance(r, FV) else IV(i.ty[1] if i.ty[0] == 'i' else 64, s=r)
    return h


def run(ll, name, ms=5000, extra=None):
    mod = ir.parse_module(ll)
    ty, guf, ident = CASES[name]
    u = dict(attr='gendot', nin=2, nout=1, sig='(n),(n)->()')
    loop = dict(func='gd_entry_' + name, types=[NUM[c] for c in ty[:2] + ty[3]])
    return verify.verify_loop(mod, u, loop, spec(name), timeout_ms=ms, extra=extra or {})



MEMORY = ('memory', 'frame', 'type', 'termination', 'division', 'unreachable', 'conversion', 'overflow', 'coverage')
PAIRS = os.path.join(os.path.dirname(HARNESS), 'gendot_pairs.py')
ASSUMED = ("gendot: the functions called through pointers are loops of ufuncs as NumPy defines them: they read their inputs, write their outputs, and their "
           "result is a function of the elements read (gendot_harness.c)",
           "gendot: the temporary array, n elements of up to 16 bytes, is below 2**62 bytes")


def verify_all(root, kinds, ms=5000):
    from .check import Failure
    r = dict(obligations=0, discharged=0, failures=[], functions=[], queries=0, solver_s=0.0, kinds={}, assumed=set(ASSUMED), coverage={})
    ll = build(root)
    for name, (ty, guf, ident) in CASES.items():
        v = run(ll, name, ms)
        bad = [o for o in v.obl if not o.ok]
        r['obligations'] += len(v.obl)
        r['discharged'] += len(v.obl) - len(bad)
        r['queries'] += v.queries
        r['solver_s'] += v.solver_s
        r['assumed'] |= set(v.assumed)
        r['functions'].append(f"_gendot.gendot_loop[{ty[0]},{ty[1]}->{ty[2]};{'(n)' if guf else ty[2]}->{ty[3]}{'' if ident else ',no identity'}]:{len(v.obl)}")
        for o in v.obl:
            r['kinds'][o.kind] = r['kinds'].get(o.kind, 0) + 1
        if v.ok or kinds and bad and not v.error and v.nonvac and not any(o.kind in kinds for o in bad):
            continue
        if kinds:
            bad = [o for o in bad if o.kind in kinds] or bad
        what = '; '.join(o.name for o in bad[:4]) or v.error or 'the postcondition is never reached'
        r['failures'].append(Failure('_gendot', 'gendot_loop', ty, 0, what, [o.name for o in bad],
                                     '\n'.join(f"{o.name}: {o.why[:800]}" for o in bad[:6]) + ('\n' + v.error if v.error else ''), kind='gendot'))
    return r


def pairs(root, tier, asan):
    """the bounded enumeration -> (list of failures, statistics, what went wrong)"""
    tag = 'ga' if asan else 'gn'
    for m in ('_gendot', '_kbnsum', '_all_same', '_minmax'):
        so = X.build_so(root, m, native=True, tag=tag, extra=('-fsanitize=address', '-O1') if asan and m == '_gendot' else ('-O1',))
    env = X.clean_env()
    if asan:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env.update(PYTHONMALLOC='malloc', LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1')
    try:
        p = subprocess.run([X.PY, PAIRS, os.path.dirname(so), tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=400)
    except subprocess.TimeoutExpired:
        return [], None, "the enumeration of ufunc pairs did not finish in 400 s"
    bad = [json.loads(l[2:]) for l in p.stdout.splitlines() if l.startswith('@@')]
    stat = [json.loads(l[2:]) for l in p.stdout.splitlines() if l.startswith('##')]
    if not stat:
        e = '\n'.join(l for l in p.stderr.splitlines() if not l.startswith('>>'))
        k = e.find('AddressSanitizer')
        what = ' '.join(e[k:k + 300].split()) if k >= 0 else e[-300:]
        prog = [l[2:] for l in p.stderr.splitlines() if l.startswith('>>')]
        return bad, None, f"{prog[-1] if prog else 'gendot'}: " + (f"killed by signal {-p.returncode}: " if p.returncode < 0 else '') + what
    return bad, stat[0], None


def gendot(root, tables, o):
    from .check import Failure
    try:
        r = verify_all(root, None)
    except X.ExtractError as e:
        r = dict(obligations=1, discharged=0, functions=[], assumed=set(ASSUMED), coverage={},
                 failures=[Failure('_gendot', 'gendot_loop', '', 0, "the contracts do not compile with the code", output=str(e), kind='gendot')])
    runs = [(o['tier'], False), (o['tier'], True)]
    if r['failures'] and o['tier'] == 'quick':
        runs += [('thorough', False), ('thorough', True)]
    found = []
    for tier, asan in runs:
        bad, stat, wrong = pairs(root, tier, asan)
        if stat and not asan:
            r['coverage']['gendot_pairs (bounded, not counted as proved)'] = dict(
                stat, bound="all pairs of the ufuncs of the installed NumPy and kbnsum, all_same, argmax; vectors of length " + ('0, 3' if tier == 'quick' else '0, 1, 2, 3, 7'))
        if wrong and not bad:
            bad = [dict(what=wrong, input=None)]
        if bad:
            for b in bad:
                b.setdefault('input', {k: b[k] for k in ('prod', 'sum', 'types', 'inputs') if k in b})
                b['function'] = 'gendot'
            found = bad
            break
    if found:
        if r['failures']:
            r['failures'][0].found = found[0]
        else:
            f = Failure('_gendot', 'gendot', found[0].get('types', ''), 0, found[0]['what'][:300], ["bounded: the loops of gendot over the installed ufuncs"], kind='gendot')
            f.found = found[0]
            r['failures'].append(f)
    return r


def memory(root, tables, o):
    """the memory obligations of gendot_loop, for the property about memory"""
    r = verify_all(root, MEMORY)
    if r['failures']:
        for tier in ('quick', 'thorough'):
            bad, stat, wrong = pairs(root, tier, True)
            if wrong:
                r['failures'][0].found = dict(what=wrong, input=None, function='gendot')
                break
    return r


if __name__ == '__main__':
    import sys
    for nm in sys.argv[2:] or CASES:
        r = run(sys.argv[1], nm)
        print(nm, r.ok, r.error, len(r.obl), r.checked, r.nonvac, round(r.wall, 1))
        for o in r.obl:
            if not o.ok:
                print('   ', o.kind, o.name, o.why[:300])
