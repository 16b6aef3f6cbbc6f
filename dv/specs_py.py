"""Contracts of the Python wrappers (ufunclab/_wrapped.py): bincount, convert_to_base, nextn_greater, nextn_less, one_hot."""
import ast, json, os, subprocess, time
import multiprocessing as mp
import z3
from . import pyv, extract as X
from .pyv import Seq, Arr, Any, DT, Unsupported, PyRaise, Z, ZB, ALLINT, CODE, broadcast, gufunc, concat

GUF = {'bincount': (1, [True], True), 'bincountw': (2, [True, True], True), 'convert_to_base': (2, [False, False], True),
       'nextn_greater': (1, [False], True), 'nextn_less': (1, [False], True), 'one_hot': (1, [False], True)}
MODS = ('_bincount', '_convert_to_base', '_nextn', '_one_hot')


def load(root, types):
    """top-level functions, constants and imported gufunc names of _wrapped.py"""
    src = open(os.path.join(root, 'ufunclab', '_wrapped.py')).read()
    t = ast.parse(src)
    fns, consts, guf = {}, {}, {}

    def scan(body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                fns[s.name] = s
            elif isinstance(s, ast.ImportFrom) and s.module and s.module.split('.')[0] == 'ufunclab' or isinstance(s, ast.ImportFrom) and s.level:
                for n in s.names:
                    if n.name in GUF:
                        guf[n.asname or n.name] = gufunc(n.name, *GUF[n.name], types[n.name], accumulates=n.name.startswith('bincount'))
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.If):
                scan(s.body)
                scan(s.orelse)
    scan(t.body)
    return fns, consts, guf


def shape(ip, name):
    f = z3.Function(name + '.shape', z3.IntSort(), z3.IntSort())
    n = z3.Int(name + '.ndim')
    ip.base += [n >= 0, n <= 64]
    return Seq(n, lambda j: f(j))


def arr(ip, name, chars):
    dt = z3.Int(name + '.dtype')
    a = Arr(name, shape(ip, name), dt)
    ip.base.append(z3.Or(*[dt == CODE[c] for c in chars]))
    return a


NUMERIC = '?bBhHiIlLqQefdgFDG'


class W:
    """one wrapper: parameters, expected outcome"""


def insert(sh, k, v):
    n = Z(sh.n)
    return Seq(n + 1, lambda i: z3.If(i < k, Z(sh.get(i)), z3.If(i == k, Z(v), Z(sh.get(i - 1)))))


def remove(sh, k):
    return Seq(Z(sh.n) - 1, lambda i: z3.If(i < k, Z(sh.get(i)), Z(sh.get(i + 1))))


def replace(sh, k, v):
    return Seq(sh.n, lambda i: z3.If(i == k, Z(v), Z(sh.get(i))))


def not_(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def spec_onearg(ip, name, anychar, okchars, variant):
    """one_hot, nextn_*: f(k, n, *, out, axis)"""
    k = arr(ip, 'k', anychar)
    n = Any('n')
    axis = z3.Int('axis')
    out = arr(ip, 'out', NUMERIC) if variant['out'] else None
    nd = Z(k.shape.n)
    ax = z3.If(axis < 0, axis + nd + 1, axis)
    exp = insert(k.shape, ax, n.index)
    bad_type = z3.Not(z3.Or(*[k.dt == CODE[c] for c in okchars]))
    bad_axis = z3.Or(axis < -(nd + 1), axis > nd)
    bad_shape = z3.Not(pyv.seq_eq(out.shape, exp)) if out is not None else False
    V = z3.Or(bad_type, z3.Not(n.isindex), n.index < 0, ZB(bad_shape))
    return dict(args=[k, n], kw=dict(out=out, axis=axis), call=name, ins=[k], out=out, shape=exp, axes=[None, ax], dtype=k.dt, swapped=k.swapped, zero=False,
                errors={'AxisError': bad_axis, 'ValueError': V}, may=out is not None and z3.Not(pyv.equiv(out.dt, k.dt)))


def member(dt, chars):
    return z3.Or(*[dt == CODE[c] for c in chars])


def spec_base(ip, name, variant):
    k = arr(ip, 'k', NUMERIC)
    b = arr(ip, 'base', NUMERIC)
    n = Any('ndigits')
    axis = z3.Int('axis')
    out = arr(ip, 'out', NUMERIC) if variant['out'] else None
    ok, bc = broadcast(k.shape, b.shape)
    nd = Z(bc.n)
    ax = z3.If(axis < 0, axis + nd + 1, axis)
    exp = insert(bc, ax, n.index)
    bad_shape = z3.Not(pyv.seq_eq(out.shape, exp)) if out is not None else False
    return dict(args=[k, b, n], kw=dict(out=out, axis=axis), call=name, ins=[k, b], out=out, shape=exp, axes=[None, None, ax], dtype=z3.IntVal(CODE['l']), zero=False,
                errors={'AxisError': z3.And(ok, z3.Or(axis < -(nd + 1), axis > nd)), 'ValueError': z3.Or(z3.Not(ok), z3.Not(n.isindex), n.index < 0, ZB(bad_shape))},
                may=z3.Not(z3.And(z3.Or(z3.And(member(k.dt, 'bhilq?'), member(b.dt, 'bhilq?')), z3.And(k.dt == b.dt, member(k.dt, 'BHILQ'))), pyv.equiv(out.dt, z3.IntVal(CODE['l'])) if out is not None else True)))


def spec_bincount(ip, name, variant):
    x = arr(ip, 'x', NUMERIC)
    m = Any('m') if variant['m'] else None
    axis = z3.Int('axis')
    out = arr(ip, 'out', NUMERIC) if variant['out'] else None
    w = arr(ip, 'weights', NUMERIC) if variant['weights'] else None
    # the bound of the integer types
    mv = m.index if m is not None else z3.If(x.max + 1 > 0, x.max + 1, 0)
    bad_type = z3.Not(z3.Or(*[x.dt == CODE[c] for c in ALLINT]))
    V = [bad_type]
    if m is not None:
        V += [z3.Not(m.isindex), m.index < 0]
    else:
        V.append(x.empty)
    nx = Z(x.shape.n)
    if w is None:
        ax = z3.If(axis < 0, axis + nx, axis)
        exp = replace(x.shape, ax, mv)
        bad_axis = z3.Or(axis < -nx, axis >= nx)
        ins, axes, dt, call = [x], [ax, ax], z3.IntVal(CODE['l']), 'bincount'
    else:
        nw = Z(w.shape.n)
        bad_axis = z3.Or(axis < -nx, axis >= nx, axis < -nw, axis >= nw)
        ax, aw = z3.If(axis < 0, axis + nx, axis), z3.If(axis < 0, axis + nw, axis)
        ok, bc = broadcast(remove(x.shape, ax), remove(w.shape, aw))
        no = Z(bc.n) + 1
        ao = z3.If(axis < 0, axis + no, axis)
        exp = insert(bc, ao, mv)
        V += [z3.And(z3.Not(bad_axis), z3.Not(ok)), z3.And(z3.Not(bad_axis), Z(x.shape.get(ax)) != Z(w.shape.get(aw)))]
        ins, axes, dt, call = [x, w], [ax, aw, ao], w.dt, 'bincountw'
    if out is not None:
        V.append(z3.And(z3.Not(bad_axis), z3.Not(pyv.seq_eq(out.shape, exp))))
    return dict(args=[x], kw=dict(m=m, weights=w, out=out, axis=axis), call=call, ins=ins, out=out, shape=exp, axes=axes, dtype=dt, zero=True, swapped=False if w is None else w.swapped,
                errors={'AxisError': bad_axis, 'ValueError': z3.Or(*[ZB(v) for v in V])},
                may=z3.Or(z3.Not(z3.And(True if w is None else member(w.dt, 'bBhHiIlLqQefdFD'))), ZB(out is not None and z3.Not(pyv.equiv(out.dt, dt)))))


WRAPPERS = {
    'one_hot': (lambda ip, v: spec_onearg(ip, 'one_hot', NUMERIC, ALLINT, v), [dict(out=o) for o in (0, 1)]),
    'nextn_greater': (lambda ip, v: spec_onearg(ip, 'nextn_greater', NUMERIC, 'fdg', v), [dict(out=o) for o in (0, 1)]),
    'nextn_less': (lambda ip, v: spec_onearg(ip, 'nextn_less', NUMERIC, 'fdg', v), [dict(out=o) for o in (0, 1)]),
    'convert_to_base': (lambda ip, v: spec_base(ip, 'convert_to_base', v), [dict(out=o) for o in (0, 1)]),
    'bincount': (lambda ip, v: spec_bincount(ip, 'bincount', v), [dict(out=o, m=m, weights=w) for o in (0, 1) for m in (0, 1) for w in (0, 1)]),
}


def verify(fns, consts, guf, name, variant):
    ip = pyv.Interp(fns, consts, guf)
    ip.base = []
    pyv.QUANT.clear()
    del pyv.HINTS[:]
    obl = []
    sp = WRAPPERS[name][0](ip, variant)
    pyv.HINTS.append(sp['axes'][-1])
    tag = name + '(' + ', '.join(k if v else f'{k}=None' for k, v in variant.items()) + ')'

    def need(what, pc, goal):
        ok, why = ip.valid(pc, goal if isinstance(goal, bool) else goal)
        obl.append((f"{tag}: {what}", ok, why))

    ip.need = lambda what, goal: need(what, list(ip.pc), goal)

    def body():
        # arguments that the caller passes are fresh for every path
        ip.pc = list(ip.base)
        try:
            return ('return', ip.call_fn(fns[name], sp['args'], {k: v for k, v in sp['kw'].items()}))
        except PyRaise as e:
            return ('raise', e.cls)
    n = 0
    for kind, v in ip.paths(body):
        n += 1
        pc = list(ip.pc)
        E = sp['errors']
        if kind == 'raise':
            if v in E:
                if v == 'ValueError':           # AxisError is a ValueError
                    E = dict(E, ValueError=z3.Or(E['ValueError'], E['AxisError']))
                need(f"{v} is raised only for an argument that deserves it (path {n})", pc, E[v])
            elif v == 'TypeError':
                need(f"TypeError is raised only for element types that are not supported (path {n})", pc, ZB(sp['may']))
            else:
                need(f"no {v} is raised (path {n})", pc, False)
            continue
        for k, c in E.items():
            need(f"{k} is raised whenever it should be (path {n})", pc, z3.Not(ZB(c)))
        need(f"exactly one call of {sp['call']} (path {n})", pc, len(ip.calls) == 1 and ip.calls[0][0] == sp['call'])
        if len(ip.calls) != 1 or ip.calls[0][0] != sp['call']:
            continue
        nm, args, out, axes = ip.calls[0]
        need(f"operands (path {n})", pc, all(a.name == b.name for a, b in zip(args, sp['ins'])))
        # the call writes the result array, or an array of zeros that is then added to it
        target = out
        if v is not out and sp['zero'] and out.origin == 'zeros' and isinstance(v, Arr) and [x[0] for x in ip.log] == ['call', 'add'] and ip.log[1][1] is v and ip.log[1][2] is out:
            need(f"shape of the temporary (path {n})", pc, pyv.seq_eq(out.shape, v.shape))
            out = v
        need(f"the result is the output array (path {n})", pc, v is out)
        need(f"nothing else is added to the result (path {n})", pc, len(ip.log) == 1 + (target is not out))
        need(f"shape of the output (path {n})", pc, pyv.seq_eq(out.shape, sp['shape']))
        for a, b, o in zip(axes, sp['axes'], args + [out]):
            if b is not None:
                need(f"axis of {o.name if o.origin == 'arg' else 'out'} (path {n})", pc, a == b)
        if sp['out'] is not None:
            need(f"the result goes to out (path {n})", pc, out is sp['out'])
        else:
            need(f"dtype of the new output array (path {n})", pc, z3.And(pyv.equiv(out.dt, sp['dtype']), ZB(out.swapped) == ZB(sp.get('swapped', False))))
            need(f"the new output array is fresh{' and zero' if sp['zero'] else ''} (path {n})", pc, out.origin in (('zeros',) if sp['zero'] else ('zeros', 'empty', 'full')))
    if not n:
        obl.append((f"{tag}: no path", False, ''))
    return obl, ip, n


def one(a):
    root, types, name, v = a
    try:
        obl, ip, n = verify(*load(root, types), name, v)
        return name, [(w, ok, why) for w, ok, why in obl], ip.queries, n, set(ip.assumed), None
    except Unsupported as e:
        return name, [], 0, 0, set(), f"outside the verified subset: {e}"
    except z3.Z3Exception as e:
        return name, [], 0, 0, set(), f"z3: {e}"


def wrappers(root, tables, info):
    """extra() of the driver"""
    from .check import Failure, chars
    t0 = time.time()
    types = {}
    for m in MODS:
        for u in tables.get(m, {}).get('ufuncs', ()):
            types[u['attr']] = [chars(l['types'][:u['nin']]) + '->' + chars(l['types'][u['nin']:]) for l in u['loops']]
    missing = [g for g in GUF if g not in types]
    if missing:
        return dict(obligations=0, discharged=0, failures=[Failure('_wrapped', g, '', 0, f"gufunc {g} is not available", kind='py') for g in missing])
    fns, consts, guf = load(root, types)
    nobl = ndis = q = 0
    functions, failures, assumed, paths = [], [], set(), 0
    todo = [(name, v) for name, (mk, variants) in WRAPPERS.items() if name in fns for v in variants]
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 4)) as pool:
        res = pool.map(one, [(root, types, name, v) for name, v in sorted(todo, key=lambda t: -len(t[1]))], chunksize=1)
    for name in WRAPPERS:
        if name not in fns:
            failures.append(Failure('_wrapped', name, '', 0, f"{name} is not defined in _wrapped.py", kind='py'))
            continue
        bad, err, k0 = [], None, nobl
        for nm, obl, q1, n1, a1, e1 in res:
            if nm != name:
                continue
            nobl += len(obl)
            ndis += sum(o[1] for o in obl)
            q += q1
            paths += n1
            assumed |= a1
            err = err or e1
            bad += [o for o in obl if not o[1]]
        functions.append(f"ufunclab/_wrapped.py:{name}:{nobl - k0}")
        if bad or err:
            failures.append(Failure('_wrapped', name, '', 0, '; '.join(b[0] for b in bad[:3]) or err, [b[0] for b in bad],
                                    '\n'.join(f"{b[0]}: {b[2]}" for b in bad[:8]) + ('\n' + err if err else ''), kind='py'))
    if failures:
        search(root, failures, info)
    return dict(obligations=nobl, discharged=ndis, functions=functions, queries=q, failures=failures, assumed=assumed,
                solver_s=time.time() - t0, kinds={'python': nobl}, coverage=dict(python_paths=paths))


def search(root, failures, info):
    """run the real wrappers against a reference"""
    import shutil
    for m in MODS:
        X.build_so(root, m, native=True, tag='w')
    p = os.path.join(root, 'build', 'pkgw', 'ufunclab')
    shutil.copy(os.path.join(root, 'ufunclab', '_wrapped.py'), p)
    open(os.path.join(p, '__init__.py'), 'w').close()
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run([X.PY, os.path.join(here, 'replay_py.py'), os.path.dirname(p), str(info['seed']), '40' if info['tier'] == 'quick' else '200'] + [f.attr for f in failures],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=X.clean_env(), timeout=600)
    for line in r.stdout.splitlines():
        if line.startswith('@@'):
            d = json.loads(line[2:])
            for f in failures:
                if f.attr == d['function']:
                    f.found = d
    for f in failures:
        if not f.found:
            f.output += '\n' + r.stdout[-600:]
