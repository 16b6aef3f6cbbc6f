"""Run the wrappers of ufunclab/_wrapped.py against a plain reference.   replay_py.py DIR SEED SECONDS NAME..."""
import sys, json, time, random, warnings
import numpy as np
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from ufunclab import _wrapped as W
try:
    from numpy.exceptions import AxisError
except ImportError:
    AxisError = np.AxisError
warnings.simplefilter('ignore')
ALLINT = 'bBhHiIlLqQ'


class Obj:
    pass


def desc(v):
    if isinstance(v, np.ndarray):
        return dict(dtype=v.dtype.char, shape=list(v.shape), values=[str(t) for t in v.ravel()[:40]])
    return repr(v)


def ref_insert(name, k, n, out, axis, base=None):
    k = np.asarray(k)
    if name == 'one_hot' and k.dtype.char not in ALLINT or name.startswith('nextn') and k.dtype.char not in 'fdg':
        return ('raise', (ValueError,))
    if isinstance(n, Obj):
        return ('raise', (ValueError,))
    n = int(n)
    if base is not None:
        try:
            kb, bb = np.broadcast_arrays(k, base)
        except ValueError:
            return ('raise', (ValueError,))
    else:
        kb = k
    nd = kb.ndim
    bad = []
    if not -(nd + 1) <= axis <= nd:
        bad += [AxisError, ValueError]
    if n < 0:
        bad.append(ValueError)
    if not bad:
        ax = axis + nd + 1 if axis < 0 else axis
        sh = kb.shape[:ax] + (n,) + kb.shape[ax:]
        if out is not None and out.shape != sh:
            bad.append(ValueError)
    if bad:
        return ('raise', tuple(bad))
    res = np.zeros(kb.shape + (n,), dtype=object)
    for idx in np.ndindex(kb.shape):
        v = kb[idx]
        if name == 'one_hot':
            for j in range(n):
                res[idx + (j,)] = int(int(v) == j)
        elif base is not None:
            t, b = int(v), int(bb[idx])
            for j in range(n):
                if b < 2 or t < 0:
                    res[idx + (j,)] = None
                else:
                    res[idx + (j,)] = t % b
                    t //= b
        else:
            for j in range(n):
                v = np.nextafter(v, kb.dtype.type(np.inf if name == 'nextn_greater' else -np.inf))
                res[idx + (j,)] = v
    res = np.moveaxis(res, -1, ax)
    dt = None if out is not None else (np.dtype(int) if base is not None else k.dtype)
    return ('return', res, dt)


def ref_bincount(x, m, w, out, axis, before):
    if x.dtype.char not in ALLINT:
        return ('raise', (ValueError,))
    bad = []
    if m is None:
        if x.size == 0:
            return ('raise', (ValueError, AxisError))
        mm = max(int(x.max()) + 1, 0)
    elif isinstance(m, Obj) or int(m) < 0:
        return ('raise', (ValueError, AxisError))
    else:
        mm = int(m)
    if not -x.ndim <= axis < x.ndim or w is not None and not -w.ndim <= axis < w.ndim:
        return ('raise', (AxisError, ValueError))
    xm = np.moveaxis(x, axis, -1)
    if w is not None:
        wm = np.moveaxis(w, axis, -1)
        try:
            bc = np.broadcast_shapes(xm.shape[:-1], wm.shape[:-1])
        except ValueError:
            return ('raise', (ValueError,))
        if xm.shape[-1] != wm.shape[-1]:
            return ('raise', (ValueError,))
        wm = np.broadcast_to(wm, bc + wm.shape[-1:])
    else:
        bc = xm.shape[:-1]
    xm = np.broadcast_to(xm, bc + xm.shape[-1:])
    nd = len(bc) + 1
    if mm > 100000:
        return None
    dt = (np.dtype(np.intp) if w is None else w.dtype)
    ax = axis + nd if axis < 0 else axis
    sh = bc[:ax] + (mm,) + bc[ax:]
    if out is not None and out.shape != sh:
        return ('raise', (ValueError,))
    res = np.moveaxis(before.copy(), ax, -1) if out is not None else np.zeros(bc + (mm,), dt)
    for idx in np.ndindex(bc):
        for i, v in enumerate(xm[idx]):
            if 0 <= int(v) < mm:
                res[idx + (int(v),)] += (1 if w is None else wm[idx][i])
    return ('return', np.moveaxis(res, -1, ax), None if out is not None else dt)


def poison():
    """leave non-zero values in the memory that temporaries get"""
    for n in (16, 32, 64, 128, 256, 512, 1024, 8192, 65536):
        a = [np.full(n, 0x5a, np.uint8) for _ in range(4)]
        del a


def rshape(r, nd=None):
    return tuple(r.choice((0, 1, 1, 2, 2, 3)) for _ in range(r.randint(0, 3) if nd is None else nd))


def one(name, r):
    axis = r.randint(-5, 4) if r.random() < .3 else r.randint(-2, 1)
    rng = np.random.default_rng(r.randrange(1 << 30))
    if name == 'bincount':
        sh = rshape(r)
        dt = r.choice(ALLINT + 'd?')
        hi = r.choice((3, 3, 8, 8, 300))
        x = rng.integers(0 if r.random() < .5 else -2, hi, size=sh).astype(dt)
        if r.random() < .3 and dt in 'bB' and x.size:
            x.flat[0] = np.iinfo(dt).max
        w = None
        if r.random() < .5:
            wsh = sh if r.random() < .5 else (sh[r.randint(0, len(sh)):] if r.random() < .5 else rshape(r))
            w = rng.integers(0, 9, size=wsh).astype(r.choice('dfFDbBhHiIlLqQe'))
        if w is not None and r.random() < .2:
            w = w.astype(w.dtype.newbyteorder())
        m = None if r.random() < .4 else r.choice((0, 1, 4, 7, -1, np.int8(3), Obj()))
        if x.size > 60:
            return None
        out = before = None
        exp = ref_bincount(x, m, w, None, axis, None)
        if exp is None:
            return None
        if r.random() < .5 and exp[0] == 'return':
            osh = exp[1].shape if r.random() < .8 else rshape(r)
            out = rng.integers(0, 5, size=osh).astype(w.dtype if w is not None else np.intp)
            if r.random() < .3:
                o2 = np.frombuffer(bytearray(out.nbytes + 1), dtype=out.dtype, count=out.size, offset=1).reshape(osh)
                o2[...] = out
                out = o2
            elif r.random() < .3:
                out = out.astype(out.dtype.newbyteorder())
            elif w is None and r.random() < .4:
                out = out.astype(r.choice('ihl'))
            before = out.copy()
            exp = ref_bincount(x, m, w, out, axis, before)
        args, kw = [x], dict(m=m, weights=w, out=out, axis=axis)
        inp = dict(x=desc(x), m=desc(m), weights=desc(w), out=desc(before), axis=axis)
        f = W.bincount
    else:
        sh = rshape(r)
        n = r.choice((0, 1, 2, 3, 5, -1, np.int16(2), Obj()))
        base = None
        if name == 'convert_to_base':
            c = r.choice(ALLINT)
            k = rng.integers(0, 50, size=sh).astype(c)
            base = rng.integers(2, 12, size=sh if r.random() < .5 else rshape(r)).astype(c if r.random() < .5 or c not in 'bhilq' else r.choice('bhilq'))
        elif name == 'one_hot':
            k = rng.integers(-1, 5, size=sh).astype(r.choice('bhilq' if r.random() < .5 else ALLINT + 'd?')) if r.random() < .7 else rng.integers(0, 5, size=sh).astype(r.choice(ALLINT))
        else:
            k = rng.normal(size=sh).astype(r.choice('fdg' if r.random() < .9 else 'li'))
        exp = ref_insert(name, k, n, None, axis, base)
        out = None
        if r.random() < .5 and exp[0] == 'return':
            osh = exp[1].shape if r.random() < .7 else rshape(r)
            out = np.zeros(osh, dtype=k.dtype if base is None else int)
            exp = ref_insert(name, k, n, out, axis, base)
        args = [k, n] if base is None else [k, base, n]
        kw = dict(out=out, axis=axis)
        inp = dict(k=desc(k), base=desc(base), n=desc(n), out_shape=None if out is None else list(out.shape), axis=axis)
        f = getattr(W, name)
    poison()
    try:
        got = ('return', f(*args, **kw))
    except MemoryError:
        return None
    except Exception as e:
        got = ('raise', e)
    why = None
    if exp[0] == 'raise':
        if got[0] != 'raise':
            why = f"expected {' or '.join(c.__name__ for c in exp[1])}, got a result of shape {got[1].shape}"
        elif not isinstance(got[1], exp[1]):
            why = f"expected {' or '.join(c.__name__ for c in exp[1])}, got {type(got[1]).__name__}: {got[1]}"
        elif isinstance(got[1], AxisError) and AxisError not in exp[1]:
            why = f"expected ValueError, got AxisError: {got[1]}"
    elif got[0] == 'raise':
        why = f"expected a result of shape {exp[1].shape}, got {type(got[1]).__name__}: {got[1]}"
    else:
        g = got[1]
        if out is not None and g is not out:
            why = "the result is not out"
        elif g.shape != exp[1].shape:
            why = f"expected shape {exp[1].shape}, got {g.shape}"
        elif exp[2] is not None and g.dtype != exp[2]:
            why = f"expected dtype {exp[2]}, got {g.dtype}"
        else:
            for idx in np.ndindex(g.shape):
                e = exp[1][idx]
                if e is not None and g[idx] != e:
                    why = f"element {idx}: expected {e}, got {g[idx]}"
                    break
    return dict(function=name, what=why, input=inp) if why else None


def main():
    seed, secs = int(sys.argv[2]), float(sys.argv[3])
    for name in sys.argv[4:]:
        if not hasattr(W, name):
            print('@@' + json.dumps(dict(function=name, what='missing', input=None)))
            continue
        t = time.time()
        k = 0
        while time.time() - t < secs / len(sys.argv[4:]):
            k += 1
            d = one(name, random.Random(seed * 1000003 + k))
            if d:
                print('@@' + json.dumps(d))
                break
        print(name, k, 'samples')


main()
