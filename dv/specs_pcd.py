"""Contracts of the process_core_dims functions and of the errors raised for empty arrays.

pcd(ufunc, core_dim_sizes):  requires  every size is a non-negative integer
                             ensures   result == -1 and a ValueError is set  <==>  the size of the named dimension is below its minimum
                                       result == 0 and no exception is set   otherwise
                             frame     core_dim_sizes is not modified
The minimum established here is what the loop contracts require of the dimension (require_dim)."""
import time, json, os, subprocess, sys
from . import ir, terms as T, contract, registry, extract as X
from .terms import P, And, Or, Not, Implies, Iff, zb, Unsupported

# ufunc -> (module, {dimension name: least size}); enforced by process_core_dims
MINIMUM = {a: ('_minmax', {'n': 1}) for a in ('argmin', 'argmax', 'min_argmin', 'max_argmax', 'minmax', 'argminmax')}
MINIMUM.update({a: ('_mad', {'n': 1}) for a in ('mad', 'rmad', 'gini')})
MINIMUM.update({'meanvar': ('_meanvar', {'n': 1}), 'rms': ('_vnorm', {'n': 1}), 'wjaccard': ('_wjaccard', {'n': 1}), 'pearson_corr': ('_corr', {'n': 2})})
# enforced by the loop itself (obligations of kind 'exception')
INLOOP = [('_peaktopeak', 'peaktopeak'), ('_means', 'gmean'), ('_means', 'gmeanw'), ('_means', 'hmean'), ('_means', 'hmeanw'), ('_means', 'pmean'),
          ('_means', 'pmeanw')]


def verify_pcd(mod, u, mins, ms=5000):
    from .sx import Exec, State, PV, TableRegion, Budget
    T.reset_atoms()
    C = T.Ctx(ms, True)
    T.set_ctx(C)
    S = contract.SymS(u, u['loops'][0], C)
    for f in S._facts:
        C.assume(T.zb(f))
    bad = Or(*[S.dims[d] < m for d, m in mins.items()])
    S.raise_conds = [bad]
    ends = [0]

    def at_return(ex, st, v):
        ends[0] += 1
        err = st.gh.get('err', False)
        ex.oblige('post', "result is -1 exactly when a dimension is too small", T.Iff(bad, v.s().eq(-1)))
        ex.oblige('post', "result is 0 otherwise", Or(bad, v.s().eq(0)))
        ex.oblige('exception', "an exception is set exactly when -1 is returned", T.Iff(bad, err))
        if err is True:
            ex.oblige('exception', "the exception is a ValueError", 'PyExc_ValueError' in str(st.gh.get('exctype')))
    S.at_return = at_return
    ex = None
    err = None
    try:
        f = ir.get_func(mod, '@' + u['pcd'])
        ex = Exec(mod, f, S, C)
        names = [p[1] for p in f.params]
        if len(names) != 2:
            raise Unsupported(f"process_core_dims function has {len(names)} parameters")
        st = State()
        st.env = {names[0]: T.UNDEF, names[1]: PV(TableRegion('coredims'), P(0))}
        ex.run(f.order[0], None, st, [])
    except (Unsupported, Budget) as e:
        err = f"{type(e).__name__}: {e}"
    obl = ex.obl if ex else []
    if err is None and not ends[0]:
        err = 'no return is reachable'
    return obl, err, C, sorted(ex.assumed) if ex else []


TRY = r'''
import sys, json, itertools, importlib.util
import numpy as np
so, mod, attr, mins = sys.argv[1], sys.argv[2], sys.argv[3], json.loads(sys.argv[4])
spec = importlib.util.spec_from_file_location(mod, so)
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
f = getattr(m, attr)
ins = f.signature.split('->')[0]
import re
ins = [[d for d in re.findall(r'\w+', g)] for g in re.findall(r'\(([^)]*)\)', ins)]
names = sorted({d for g in ins for d in g if not d.isdigit()})
for sizes in itertools.product(range(5), repeat=len(names)):
    D = dict(zip(names, sizes))
    for batch in ((), (2,), (3, 2), (0,)):
        for ty in f.types:
            ar = [np.zeros(batch + tuple(int(d) if d.isdigit() else D[d] for d in g), dtype=c) for g, c in zip(ins, ty)]
            bad = any(D[d] < k for d, k in mins.items())
            try:
                with np.errstate(all='ignore'):
                    f(*ar)
                e = None
            except Exception as x:
                e = type(x).__name__
            if e not in (None, 'ValueError') or (e is not None) != bad:
                print('@@' + json.dumps(dict(function=attr, types=ty, shapes=[a.shape for a in ar], values='zeros',
                      what=f"{attr} on arrays with core dimensions {D}: " + ("no exception" if e is None else e) + ", expected " + ("ValueError" if bad else "no exception"))))
                sys.exit(0)
'''


def native_try(root, m, attr, mins):
    so = f'{root}/build/pkgn/ufunclab/{m}.cpython-312-x86_64-linux-gnu.so'
    try:
        if not os.path.exists(so):
            so = X.build_so(root, m, native=True, tag='n')
        p = subprocess.run([X.PY, '-c', TRY, so, m, attr, json.dumps(mins)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=X.clean_env(), timeout=60)
    except Exception as e:
        return None
    for line in p.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:])
    if p.returncode < 0:
        return dict(function=attr, what=f"the process died with signal {-p.returncode} on arrays with a too small core dimension", input=None)
    return None


def core_dims(root, tables, o):
    from .check import Failure
    r = dict(obligations=0, discharged=0, failures=[], functions=[], queries=0, solver_s=0.0, kinds={}, assumed=set())
    r['assumed'].add("NumPy calls process_core_dims_func before any loop and stops when it returns a negative value")
    for attr, (m, mins) in MINIMUM.items():
        if m not in tables:
            continue
        us = [u for u in tables[m]['ufuncs'] if u['attr'] == attr]
        if not us:
            r['failures'].append(Failure(m, attr, '', 0, f"{attr} is not registered", kind='missing'))
            continue
        u = us[0]
        name = 'process_core_dims'
        r['obligations'] += 1
        out = ''
        if not u['pcd']:
            bad = [f"{attr} has no process_core_dims function: the loops require " + ', '.join(f"{d} >= {k}" for d, k in mins.items())]
        elif any(not any(d in l for l in contract.parse_sig(u['sig'], u['nin'], u['nout'])) for d in mins):
            bad = [f"{attr}: signature {u['sig']} has no dimension {list(mins)}"]
        else:
            r['discharged'] += 1
            mod = ir.parse_module(f'{root}/build/{m}.ll')
            obl, err, C, ass = verify_pcd(mod, u, mins)
            r['obligations'] += len(obl)
            r['discharged'] += sum(x.ok for x in obl)
            r['queries'] += C.nq
            r['solver_s'] += C.tq
            r['assumed'] |= set(ass)
            for x in obl:
                r['kinds'][x.kind] = r['kinds'].get(x.kind, 0) + 1
            r['functions'].append(f"{m}.{attr}.{name}={u['pcd']}:{len(obl)}")
            bad = [x.name for x in obl if not x.ok] + ([err] if err else [])
            out = '\n'.join(f"{x.name}: {x.why[:600]}" for x in obl if not x.ok)
        if bad:
            f = Failure(m, attr, name, 0, '; '.join(bad), bad, out, kind='pcd')
            f.found = native_try(root, m, attr, mins)
            r['failures'].append(f)
    # lemma: the minima imply the dimension preconditions of the loop contracts
    T.reset_atoms()
    for m, t in tables.items():
        for u in t['ufuncs']:
            sp = registry.lookup(m, u['attr'])
            mins = MINIMUM.get(u['attr'], (m, {}))[1]
            for loop in u['loops'] if sp else ():
                T.reset_atoms()
                C = T.Ctx(5000)
                T.set_ctx(C)
                S = contract.SymS(u, loop, C)
                sp(S)
                if not S.dim_requires:
                    continue
                for f in S._facts:
                    C.assume(T.zb(f))
                for d, k in mins.items():
                    if any(d == n.rstrip('?') for n in S.dims):
                        C.assume(T.zb(S.dim(d) >= k))
                ok = all(C.prove(T.zb(c)) for c in S.dim_requires)
                r['obligations'] += 1
                r['discharged'] += ok
                r['queries'] += C.nq
                r['solver_s'] += C.tq
                r['kinds']['lemma'] = r['kinds'].get('lemma', 0) + 1
                if not ok:
                    r['failures'].append(Failure(m, u['attr'], 'process_core_dims', 0, f"the core dimension check of {u['attr']} does not establish what its loops require", kind='pcd'))
    for m, t in tables.items():
        for u in t['ufuncs']:
            if u['pcd'] and u['attr'] not in MINIMUM:
                f = Failure(m, u['attr'], 'process_core_dims', 0, f"{u['attr']} has an unexpected process_core_dims function {u['pcd']}", kind='pcd')
                f.found = native_try(root, m, u['attr'], {})
                r['failures'].append(f)
    return r
