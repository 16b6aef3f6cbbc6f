"""Bounded companion of the contract of gendot_loop: the table of loops that gendot builds, over all pairs of the ufuncs of the
installed NumPy (and some gufuncs), against sum(prod(x, y)) evaluated with the same loops.
   python gendot_pairs.py PKGDIR quick|thorough    ->  lines '@@' + json (first failures), '##' + json (statistics)"""
import sys, json, types, importlib, itertools, warnings
import numpy as np
warnings.simplefilter('ignore')
np.seterr(all='ignore')
pk, tier = sys.argv[1:3]
M = types.ModuleType('ufunclab')
M.__path__ = [pk]
sys.modules['ufunclab'] = M
gendot = importlib.import_module('ufunclab._gendot_wrap').gendot
guf = []
for m, a in (('_kbnsum', 'kbnsum'), ('_all_same', 'all_same'), ('_minmax', 'argmax')):
    try:
        guf.append(getattr(importlib.import_module('ufunclab.' + m), a))
    except ImportError:
        pass
US, seen = [], set()
for n in sorted(dir(np)):
    u = getattr(np, n)
    if isinstance(u, np.ufunc) and u.__name__ not in seen:
        seen.add(u.__name__)
        US.append(u)
fails, stat = [], dict(pairs=0, rejected=0, loops=0, evaluations=0)


def fail(**k):
    if len(fails) < 4:
        fails.append(k)


def isew(u):
    return u.signature is None and u.nin == 2 and u.nout == 1


def isn1(u):
    return u.signature is not None and u.nin == 1 and u.nout == 1 and u.signature.replace(' ', '') == '(n)->()'


def expected(p, s):
    r = []
    for a in p.types:
        ai, ao = a.split('->')
        if 'O' in a:
            continue
        for b in s.types:
            bi, bo = b.split('->')
            if bi == ao*s.nin and (s.nin == 1 or bo == ao):
                r.append((ai + '->' + bo, a, b))
    return r


rng = np.random.default_rng(1)


def data(c, shape):
    n = int(np.prod(shape))
    if c == '?':
        v = rng.integers(0, 2, n).astype(bool)
    elif c in 'FDG':
        v = (rng.integers(-3, 4, n) + 1j*rng.integers(-3, 4, n)).astype(c)
    elif c in 'efdg':
        v = (rng.integers(-6, 7, n)/2).astype(c)
    elif c in 'bhilq':
        v = rng.integers(-3, 4, n).astype(c)
    else:
        v = rng.integers(0, 5, n).astype(c)
    return v.reshape(shape)


def strided(v, k):
    """the same values in an array whose last axis is not contiguous"""
    if k == 0:
        return v
    w = np.zeros(v.shape[:-1] + (2*v.shape[-1] + 1,), v.dtype)
    w[..., 1::2] = v[..., ::-1]
    return w[..., 1::2][..., ::-1]


def reference(p, s, a, b, x, y):
    """the composition on one pair of vectors, with the loops a of prod and b of sum"""
    n = len(x)
    sa = tuple(a.replace('->', ''))
    sb = tuple(b.replace('->', ''))
    if n == 0:
        if s.identity is None:
            return None
        return np.array(s.identity).astype(sb[-1])[()]
    t = p(x, y, signature=sa)
    if s.nin == 1:
        return s(t, signature=sb)
    r = t[0]
    for k in range(1, n):
        r = s(r, t[k], signature=sb)
    return np.asarray(r, dtype=sb[-1])[()]


def same(u, v):
    u, v = np.asarray(u), np.asarray(v)
    if u.dtype != v.dtype or u.shape != v.shape:
        return False
    ok = (u == v) | ((u != u) & (v != v))
    if u.dtype.kind in 'fc':
        # NumPy's loops take different code paths (vector, scalar exponent) with different rounding
        ok |= np.abs(u - v) <= (1e-2 if u.dtype.char == 'e' else 1e-4)*np.abs(v)
    return bool(np.all(ok))


def one(p, s):
    stat['pairs'] += 1
    print(f">>gendot({p.__name__}, {s.__name__})", file=sys.stderr)
    ok = isew(p) and (isew(s) or isn1(s))
    try:
        g = gendot(p, s)
        err = None
    except Exception as e:
        err = type(e).__name__
    if not ok:
        stat['rejected'] += 1
        if err != 'ValueError':
            fail(prod=p.__name__, sum=s.__name__, what=f"gendot({p.__name__}, {s.__name__}): " + (err or 'no exception') + ", expected ValueError")
        return
    ex = expected(p, s)
    if err is not None:
        if ex:
            fail(prod=p.__name__, sum=s.__name__, what=f"gendot({p.__name__}, {s.__name__}) raised {err}")
        return
    if set(g.types) != {t for t, a, b in ex}:
        fail(prod=p.__name__, sum=s.__name__, what=f"gendot({p.__name__}, {s.__name__}).types is {g.types}, expected the types {[t for t, a, b in ex]}")
        return
    if g.nin != 2 or g.nout != 1 or g.signature.replace(' ', '') != '(n),(n)->()':
        fail(prod=p.__name__, sum=s.__name__, what=f"gendot({p.__name__}, {s.__name__}) has signature {g.signature}")
        return
    done = set()
    for ty, a, b in ex:
        if ty in done or 'm' in ty or 'M' in ty:
            continue
        done.add(ty)
        alt = [(x, z) for t, x, z in ex if t == ty]
        stat['loops'] += 1
        ins, o = ty.split('->')
        for n in (0, 3) if tier == 'quick' else (0, 1, 2, 3, 7):
            for sh in ((2,),) if tier == 'quick' else ((), (2,)):
                for k in (n % 2,) if tier == 'quick' else (0, 1):
                    x, y = (strided(data(c, sh + (n,)), k) for c in ins)
                    stat['evaluations'] += 1
                    out = np.full(sh, 1).astype(o)
                    try:
                        r = g(x, y, out=out, signature=tuple(ins + o))
                    except Exception as e:
                        r = type(e).__name__
                    opts = []
                    for x1, z1 in alt:
                        try:
                            q = [reference(p, s, x1, z1, x[i], y[i]) for i in np.ndindex(*sh)]
                            q = 'ValueError' if any(v is None for v in q) else np.array(q, dtype=o).reshape(sh)
                        except Exception as e:
                            q = type(e).__name__
                        opts.append(q)
                    if not any(type(r) is str and type(q) is str and r == q or type(r) is not str and type(q) is not str and same(r, q) for q in opts):
                        fail(prod=p.__name__, sum=s.__name__, types=ty, inputs=[repr(x.tolist()), repr(y.tolist())],
                             what=f"gendot({p.__name__}, {s.__name__})({x.tolist()}, {y.tolist()}) with types {ty} is {r if type(r) is str else r.tolist()}, "
                                  f"expected {opts[0] if type(opts[0]) is str else opts[0].tolist()}")


for p, s in itertools.product(US, US + guf):
    if tier == 'quick' and len(fails) >= 4:
        break
    if isew(p) or s is np.add:
        one(p, s)
for f in fails:
    print('@@' + json.dumps(f))
print('##' + json.dumps(stat))
