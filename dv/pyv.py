"""Deductive verification of the Python functions in ufunclab/_wrapped.py.

The function's AST is taken from /repo's current source and executed symbolically, path by path, for every value of its parameters: an array is
(shape, dtype, identity) with a shape of any length, a Python object is what operator.index makes of it.  NumPy's functions and the gufuncs are
replaced by their contracts.  At each return and each raise the wrapper's own contract is an obligation for z3."""
import ast, itertools
import numpy as np
import z3

CH = '?bBhHiIlLqQefdgFDGOSUVMm'
CODE = {c: i for i, c in enumerate(CH)}
KIND = dict(zip('?bBhHiIlLqQefdgFDGOSUVMm', 'biuiuiuiuiuffffcccOSUVMm'))
ITYPE = {'b': (8, 1), 'h': (16, 1), 'i': (32, 1), 'l': (64, 1), 'q': (64, 1), 'B': (8, 0), 'H': (16, 0), 'I': (32, 0), 'L': (64, 0), 'Q': (64, 0)}
ALLINT = 'bBhHiIlLqQ'


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls):
        self.cls = cls


class Infeasible(Exception):
    pass


EXC_BASES = {'AxisError': ('ValueError', 'IndexError', 'Exception', 'LookupError'), 'ValueError': ('Exception',), 'TypeError': ('Exception',),
             'IndexError': ('LookupError', 'Exception'), 'OverflowError': ('ArithmeticError', 'Exception'), 'KeyError': ('LookupError', 'Exception'),
             'UnboundLocalError': ('NameError', 'Exception'), 'AttributeError': ('Exception',), 'Exception': (), 'RuntimeError': ('Exception',),
             'NotImplementedError': ('RuntimeError', 'Exception'), 'AssertionError': ('Exception',), 'MemoryError': ('Exception',)}


def is_sub(c, base):
    return c == base or base in EXC_BASES.get(c, ())


def isz(v):
    return isinstance(v, z3.ExprRef)


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == z3.IntSort()) or isinstance(v, NInt)


def num(v):
    if isinstance(v, NInt):
        return v.t
    if isinstance(v, bool):
        return int(v)
    if isz(v) and v.sort() == z3.BoolSort():
        return z3.If(v, 1, 0)
    return v


def Z(v):
    v = num(v)
    return z3.IntVal(v) if isinstance(v, int) else v


def ZB(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, Z(a), Z(b))


class NInt:
    """a NumPy integer scalar: arithmetic wraps in its type"""
    def __init__(self, t, dt):
        self.t, self.dt = t, dt


class Ch:
    """dtype.char / dtype.kind of a symbolic dtype"""
    def __init__(self, dt, kind=False):
        self.dt, self.kind = dt, kind

    def isin(self, s):
        cs = [c for c in CH if (KIND[c] if self.kind else c) in s]
        return z3.Or(*[self.dt == CODE[c] for c in cs]) if cs else False


class DT:
    def __init__(self, t, swapped=False):
        self.t, self.swapped = Z(t), swapped


class Seq:
    """tuple or list; n: length (int or z3 Int), at(i): the element at 0 <= i < n"""
    def __init__(self, n, at, kind='tuple', items=None):
        self.n, self.at, self.kind, self.items = n, at, kind, items

    @staticmethod
    def of(items, kind='tuple'):
        items = list(items)
        return Seq(len(items), None, kind, items)

    def get(self, i):
        if self.items is not None:
            if isinstance(i, int):
                return self.items[i]
            r = Z(self.items[-1]) if self.items else z3.IntVal(0)
            for k in range(len(self.items) - 2, -1, -1):
                r = z3.If(i == k, Z(self.items[k]), r)
            return r
        return self.at(Z(i))

    def assign(self, o):
        self.n, self.at, self.items = o.n, o.at, o.items

    def copy(self, kind):
        return Seq(self.n, self.at, kind, None if self.items is None else list(self.items))


def concat(a, b, kind):
    if a.items is not None and b.items is not None:
        return Seq.of(a.items + b.items, kind)
    a, b = a.copy(kind), b.copy(kind)
    n = a.n
    return Seq(Z(a.n) + Z(b.n), lambda i: z3.If(i < Z(n), Z(a.get(i)), Z(b.get(i - Z(n)))), kind)


def seq_eq(a, b):
    """(equal) as a z3 Bool"""
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        return z3.And(*[Z(x) == Z(y) for x, y in zip(a.items, b.items)]) if a.items else True
    return z3.And(Z(a.n) == Z(b.n), forall(a.n, lambda i: Z(a.get(i)) == Z(b.get(i))))


_cnt = itertools.count()
QUANT = {}
HINTS = []         # further positions at which quantified facts are instantiated (the inserted axis)


def forall(n, body):
    """a Bool that stands for: body(i) for all 0 <= i < n.  Its definition is instantiated where it is used."""
    k = next(_cnt)
    p = z3.Bool(f"all!{k}")
    QUANT[p.decl().name()] = (p, Z(n), body, z3.Int(f"w!{k}"))
    return p


def scan(fs):
    """quantifier atoms and shape terms in the formulas"""
    seen, atoms, shapes, todo = set(), [], [], list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            nm = e.decl().name()
            if nm in QUANT:
                atoms.append(nm)
            elif nm.endswith('.shape') and e.num_args() == 1:
                shapes.append(e)
            todo.extend(e.children())
    return atoms, shapes


def close(fs):
    """fs with the definitions of its quantifier atoms: a witness where one is false, an instance at every witness where it is true"""
    fs = [ZB(f) for f in fs]
    atoms, _ = scan(fs)
    ws = [QUANT[a][3] for a in atoms] + HINTS
    out = list(fs)
    for a in atoms:
        p, n, body, w = QUANT[a]
        out.append(z3.Implies(z3.Not(p), z3.And(0 <= w, w < n, z3.Not(body(w)))))
        for v in ws:
            out.append(z3.Implies(z3.And(p, 0 <= v, v < n), body(v)))
    _, shapes = scan(out)
    return out + [t >= 0 for t in shapes]


class Arr:
    def __init__(self, name, shape, dt, origin='arg'):
        self.name, self.shape, self.dt, self.origin = name, shape, dt, origin
        self.swapped = z3.Bool(f"{name}.swapped") if origin == 'arg' else False     # not in native byte order
        self.aligned = z3.Bool(f"{name}.aligned") if origin == 'arg' else True
        self.adds = []
        self.max = z3.Int(f"{name}.max")
        self.empty = z3.Bool(f"{name}.empty")


class Any:
    """any Python object, seen only through operator.index"""
    def __init__(self, name):
        self.name = name
        self.isindex = z3.Bool(f"{name}.isindex")
        self.index = z3.Int(f"{name}.index")


class Fn:
    def __init__(self, name, call=None, node=None, env=None):
        self.name, self.call, self.node, self.env = name, call, node, env


class Exc:
    def __init__(self, cls):
        self.cls = cls


class Mod:
    def __init__(self, name):
        self.name = name


class Str:
    """a string whose value does not matter"""


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Interp:
    def __init__(self, fns, consts, gufuncs, timeout=20000):
        self.fns, self.consts, self.guf = fns, consts, gufuncs
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout)
        self.queries = 0
        self.assumed = set()

    # ------------------------------------------------------------ solver
    def valid(self, pc, goal):
        if isinstance(goal, bool):
            if goal:
                return True, None
            goal = z3.BoolVal(False)
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*close(list(pc) + [z3.Not(goal)]))
        r = s.check()
        if r == z3.unsat:
            return True, None
        return False, (str(s.model())[:800] if r == z3.sat else f"solver: {r}")

    def feasible(self, extra):
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*close(self.pc + [extra]))
        return s.check() != z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                self.work.append(self.taken + [False])
                v = True
            else:
                v = t
        self.taken.append(v)
        self.pc.append(c if v else z3.Not(c))
        return v

    def paths(self, body):
        """run body() for every path; yields its results"""
        self.work = [[]]
        n = 0
        while self.work:
            n += 1
            if n > 600:
                raise Unsupported("too many paths")
            self.prefix = self.work.pop()
            self.taken, self.pc, self.calls, self.log = [], [], [], []
            self.depth = 0
            yield body()

    # ------------------------------------------------------------ calls
    def call_fn(self, fn, args, kw):
        a = fn.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) or a.vararg or a.kwarg:
            raise Unsupported(f"call of {fn.name}")
        env.update(zip(names, args))
        for k, v in kw.items():
            if k in env:
                raise PyRaise('TypeError')
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in env:
                if k not in defs:
                    raise PyRaise('TypeError')
                env[k] = self.ev(defs[k], {})
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("recursion")
        try:
            self.block(fn.body, env)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1

    # ------------------------------------------------------------ statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if not (isinstance(s.value, ast.Constant)):
                self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t) if isinstance(t, ast.Name) else None
            if load is None:
                if isinstance(t, ast.Subscript):
                    load = ast.Subscript(t.value, t.slice, ast.Load())
                else:
                    raise Unsupported("augmented assignment")
            cur = self.ev(load.value if isinstance(t, ast.Subscript) else load, env)
            if isinstance(cur, Arr):
                if not isinstance(s.op, ast.Add):
                    raise Unsupported('augmented assignment')
                self.b_add(cur, self.ev(s.value, env), out=cur)
                return
            self.assign(t, self.binop(s.op, self.ev(load, env), self.ev(s.value, env)), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return):
            raise Return(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.Raise):
            if s.exc is None:
                raise PyRaise(env.get('!exc', 'RuntimeError'))
            v = self.ev(s.exc, env)
            if isinstance(v, Exc):
                raise PyRaise(v.cls)
            raise Unsupported("raise of " + str(type(v)))
        elif isinstance(s, ast.Try):
            done = False
            try:
                try:
                    self.block(s.body, env)
                    done = True
                except PyRaise as e:
                    for h in s.handlers:
                        if self.matches(h.type, e.cls, env):
                            env2 = env
                            if h.name:
                                env2[h.name] = Exc(e.cls)
                            old = env2.get('!exc')
                            env2['!exc'] = e.cls
                            self.block(h.body, env2)
                            env2['!exc'] = old
                            break
                    else:
                        raise
                if done:
                    self.block(s.orelse, env)
            finally:
                if s.finalbody:
                    self.block(s.finalbody, env)
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    self.method(self.ev(t.value, env), 'pop', [self.ev(t.slice, env)], {})
                else:
                    raise Unsupported("del")
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env)):
                raise PyRaise('AssertionError')
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if not isinstance(it, Seq) or it.items is None:
                raise Unsupported("loop over a sequence of unknown length")
            for v in it.items:
                self.assign(s.target, v, env)
                self.block(s.body, env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for n in s.names:
                nm = n.name.split('.')[0]
                env[n.asname or nm] = Mod(n.name) if isinstance(s, ast.Import) else Fn(n.name)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(s.name, node=s, env=env)
        else:
            raise Unsupported("statement " + type(s).__name__)

    def matches(self, t, cls, env):
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.matches(x, cls, env) for x in t.elts)
        v = self.ev(t, env)
        if isinstance(v, Fn):
            return is_sub(cls, v.name)
        raise Unsupported("except clause")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, Seq) or v.items is None or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("unpacking")
            if len(v.items) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, v.items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            if not isinstance(o, Seq) or o.kind != 'list':
                raise Unsupported("item assignment")
            if isinstance(i, tuple):
                if not isinstance(v, Seq):
                    raise Unsupported("slice assignment")
                lo, hi = self.bounds(o, i)
                o.assign(concat(concat(self.slice(o, 0, lo), v, 'list'), self.slice(o, self.mx(lo, hi), o.n), 'list'))
                return
            i = self.index(o, i)
            if o.items is not None and isinstance(i, int):
                o.items[i] = v
            else:
                c = o.copy('list')
                o.assign(Seq(c.n, lambda j: z3.If(j == Z(i), Z(v), Z(c.get(j))), 'list'))
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isint(v):
            v = num(v)
            return bool(v) if isinstance(v, int) else self.branch(v != 0)
        if isz(v):
            return self.branch(v)
        if isinstance(v, Seq):
            return self.truth(v.n)
        if isinstance(v, str):
            return bool(v)
        raise Unsupported("truth value of " + type(v).__name__)

    @staticmethod
    def mx(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b)
        return z3.If(Z(a) >= Z(b), Z(a), Z(b))

    def index(self, o, i):
        i = num(i)
        if isinstance(i, int) and isinstance(o.n, int):
            if not -o.n <= i < o.n:
                raise PyRaise('IndexError')
            return i + o.n if i < 0 else i
        if not self.branch(z3.And(Z(i) >= -Z(o.n), Z(i) < Z(o.n))):
            raise PyRaise('IndexError')
        if isinstance(i, int):
            return i if i >= 0 else Z(o.n) + i
        return z3.If(i < 0, i + Z(o.n), i)

    def bounds(self, o, sl):
        lo, hi, step = sl
        if step not in (None, 1):
            raise Unsupported("slice step")
        n = o.n

        def norm(v, d):
            if v is None:
                return d
            v = num(v)
            if not isint(v):
                raise Unsupported("slice bound")
            if isinstance(v, int) and isinstance(n, int):
                return min(max(v + n if v < 0 else v, 0), n)
            w = z3.If(Z(v) < 0, Z(v) + Z(n), Z(v))
            return z3.simplify(z3.If(w < 0, 0, z3.If(w > Z(n), Z(n), w)))
        return norm(lo, 0), norm(hi, n)

    def slice(self, o, lo, hi):
        if o.items is not None and isinstance(lo, int) and isinstance(hi, int):
            return Seq.of(o.items[lo:hi], o.kind)
        c = o.copy(o.kind)
        return Seq(z3.If(Z(hi) > Z(lo), Z(hi) - Z(lo), 0), lambda j: Z(c.get(j + Z(lo))), o.kind)

    def ev(self, e, env):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression " + type(e).__name__)
        return f(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return Str()

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.guf:
            return Fn(e.id, call=self.guf[e.id])
        if e.id in self.fns:
            return Fn(e.id, node=self.fns[e.id])
        if e.id in self.consts:
            return self.ev(self.consts[e.id], {})
        if e.id in ('np', 'numpy', 'operator'):
            return Mod('numpy' if e.id == 'np' else e.id)
        if e.id in EXC_BASES or e.id in ('len', 'max', 'min', 'tuple', 'list', 'int', 'float', 'bool', 'isinstance', 'range', 'sum', 'abs', 'enumerate', 'repr', 'str', 'type', 'index',
                                         'zip', 'reversed', 'any', 'all'):
            return Fn(e.id)
        raise Unsupported("name " + e.id)

    def e_Tuple(self, e, env):
        r = Seq.of([], 'tuple')
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, Seq):
                    raise Unsupported("starred")
                r = concat(r, v, 'tuple')
            else:
                r = concat(r, Seq.of([self.ev(x, env)]), 'tuple')
        return r

    def e_List(self, e, env):
        return self.e_Tuple(e, env).copy('list')

    def e_Dict(self, e, env):
        return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        a = e.attr
        if isinstance(o, Mod):
            if o.name == 'numpy' and a == 'typecodes':
                return {'AllInteger': ALLINT, 'Integer': 'bhilq', 'UnsignedInteger': 'BHILQ', 'Float': 'efdg', 'AllFloat': 'efdgFDG', 'Complex': 'FDG',
                        'All': CH}
            if o.name == 'numpy' and a == 'newaxis':
                return None
            if o.name in ('numpy', 'operator'):
                return Mod('numpy.exceptions') if a == 'exceptions' else Fn('np_' + a if a in ('max', 'min', 'amax', 'size', 'abs', 'sum', 'all', 'any') else a)
            if o.name == 'numpy.exceptions':
                return Fn(a)
        if isinstance(o, Arr):
            if a == 'shape':
                return o.shape
            if a == 'ndim':
                return o.shape.n
            if a == 'dtype':
                return DT(o.dt, o.swapped)
            if a == 'flags':
                return ('flags', o)
            if a == 'size':
                self.assumed.add("numpy: size is 0 exactly for an array without elements")
                s = z3.Int(o.name + '.size')
                self.pc.append(z3.And(s >= 0, (s == 0) == o.empty))
                return s
            return ('method', o, a)
        if isinstance(o, tuple) and o[0] == 'flags' and a in ('aligned', 'writeable'):
            return o[1].aligned if a == 'aligned' else True
        if isinstance(o, DT):
            if a == 'newbyteorder':
                return ('method', o, a)
            if a == 'isnative':
                return z3.Not(ZB(o.swapped))
            if a == 'char':
                return Ch(o.t)
            if a == 'kind':
                return Ch(o.t, True)
            if a == 'type':
                return o
        if isinstance(o, Seq):
            return ('method', o, a)
        if isinstance(o, NInt) and a == 'dtype':
            return DT(o.dt)
        if isinstance(o, Str) or isinstance(o, str):
            return ('method', Str(), a)
        if isinstance(o, Fn) and (a in ('__name__', '__doc__')):
            return Str()
        raise Unsupported("attribute " + a)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        if isinstance(o, dict):
            if i in o:
                return o[i]
            raise PyRaise('KeyError')
        if isinstance(o, Seq):
            if isinstance(i, tuple):
                return self.slice(o, *self.bounds(o, i))
            return o.get(self.index(o, i))
        raise Unsupported("subscript")

    def e_Slice(self, e, env):
        return tuple(None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub) and isint(v):
            return -num(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
            return a + b if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add) else Str()
        if isinstance(a, Seq) and isinstance(b, Seq) and isinstance(op, ast.Add):
            if a.kind != b.kind:
                raise PyRaise('TypeError')
            return concat(a, b, a.kind)
        if isinstance(op, ast.Mult) and isinstance(a, Seq) and isinstance(b, int) and a.items is not None:
            return Seq.of(a.items * b, a.kind)
        if isinstance(op, ast.Mult) and isinstance(b, Seq) and isinstance(a, int) and b.items is not None:
            return Seq.of(b.items * a, b.kind)
        if isint(a) and isint(b) or (isinstance(a, bool) or isinstance(b, bool)) and isint(num(a)) and isint(num(b)):
            x, y = num(a), num(b)
            if isinstance(op, ast.Add):
                r = x + y
            elif isinstance(op, ast.Sub):
                r = x - y
            elif isinstance(op, ast.Mult) and (isinstance(x, int) or isinstance(y, int)):
                r = x * y
            elif isinstance(op, ast.Mod) and isz(y) or isinstance(op, ast.Mod) and isinstance(y, int):
                if self.branch(Z(y) == 0):
                    raise PyRaise('ZeroDivisionError')
                if not self.branch(Z(y) > 0):
                    raise Unsupported("modulus by a negative number")
                r = Z(x) % Z(y)
            else:
                raise Unsupported("operator")
            if isinstance(a, NInt) or isinstance(b, NInt):
                return self.wrap(r, a if isinstance(a, NInt) else b)
            return r
        raise Unsupported("operands of " + type(op).__name__)

    def wrap(self, r, like):
        """the result of NumPy integer scalar arithmetic, in the scalar's type"""
        out = Z(r)
        for c, (w, sg) in ITYPE.items():
            lo = -(1 << (w - 1)) if sg else 0
            out = z3.If(like.dt == CODE[c], (Z(r) - lo) % (1 << w) + lo, out)
        self.assumed.add("numpy: integer scalar arithmetic wraps in the scalar's type")
        return NInt(out, like.dt)

    def e_BoolOp(self, e, env):
        r = None
        for x in e.values:
            r = self.ev(x, env)
            t = self.truth(r)
            if isinstance(e.op, ast.And) and not t:
                return r if not isz(r) else False
            if isinstance(e.op, ast.Or) and t:
                return r if not (isz(r) and r.sort() == z3.BoolSort()) else True
        return r if not (isz(r) and r.sort() == z3.BoolSort()) else isinstance(e.op, ast.And)

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        if getattr(self, 'pointwise', False) and isz(c):
            return ite(c, self.ev(e.body, env), self.ev(e.orelse, env))
        return self.ev(e.body if self.truth(c) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        if len(e.ops) == 1:
            return self.cmp(e.ops[0], l, self.ev(e.comparators[0], env))
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c, env)
            if not self.truth(self.cmp(o, l, r)):
                return False
            l = r
        return True

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Maybe) or isinstance(b, Maybe):
                raise Unsupported("is")
            r = (a is b) if a is None or b is None or isinstance(a, Arr) and isinstance(b, Arr) else None
            if r is None:
                raise Unsupported("is")
            return r == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(a, Ch) and isinstance(b, str):
                r = a.isin(b)
            elif isinstance(a, Ch) and isinstance(b, Seq) and b.items is not None and all(isinstance(x, str) for x in b.items):
                r = a.isin([x for x in b.items])
            elif isinstance(b, Seq) and b.items is not None and isint(a) and all(isint(x) for x in b.items):
                r = z3.Or(*[Z(a) == Z(x) for x in b.items])
            elif isinstance(a, str) and isinstance(b, str):
                r = a in b
            elif isinstance(a, DT) and isinstance(b, Seq) and b.items is not None:
                r = z3.Or(*[a.t == self.dtype(x) for x in b.items])
            elif isint(a) and isinstance(b, Rng):
                r = z3.And(Z(a) >= Z(b.lo), Z(a) < Z(b.hi))
            else:
                raise Unsupported("in")
            return r if isinstance(op, ast.In) else (not r if isinstance(r, bool) else z3.Not(r))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(a, Seq) and isinstance(b, Seq):
                r = seq_eq(a, b) if a.kind == b.kind else False
            elif isint(num(a)) and isint(num(b)):
                r = Z(a) == Z(b)
            elif isinstance(a, DT) or isinstance(b, DT):
                r = z3.And(equiv(self.dtype(a), self.dtype(b)), ZB(getattr(a, 'swapped', False)) == ZB(getattr(b, 'swapped', False)))
            elif isinstance(a, Ch) and isinstance(b, str):
                r = a.isin([b])
            elif a is None or b is None:
                r = a is b
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            elif isinstance(a, Ch) and isinstance(b, Ch) and not a.kind and not b.kind:
                r = a.dt == b.dt
            else:
                raise Unsupported("==")
            return r if isinstance(op, ast.Eq) else (not r if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, Any) or isinstance(b, Any):
            raise Unsupported("comparison of an arbitrary object")
        x, y = num(a), num(b)
        if isint(x) and isint(y):
            if isinstance(op, ast.Lt):
                return x < y
            if isinstance(op, ast.LtE):
                return x <= y
            if isinstance(op, ast.Gt):
                return x > y
            if isinstance(op, ast.GtE):
                return x >= y
        raise Unsupported("comparison")

    def comp(self, e, env, kind):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported("comprehension")
        g = e.generators[0]
        it = self.ev(g.iter, env)
        if isinstance(it, Rng):
            lo = it.lo
            it = Seq(z3.If(Z(it.hi) > Z(it.lo), Z(it.hi) - Z(it.lo), 0), lambda i: i + Z(lo))
        if isinstance(it, Seq) and it.items is not None:
            out = []
            for v in it.items:
                env2 = dict(env)
                self.assign(g.target, v, env2)
                out.append(self.ev(e.elt, env2))
            return Seq.of(out, kind)
        if isinstance(it, Enum):
            base = it.seq
            mk = lambda i: Seq.of([i, base.get(i)])
            n = base.n
        elif isinstance(it, Seq):
            base = it
            mk = lambda i: base.get(i)
            n = base.n
        else:
            raise Unsupported("comprehension")

        def at(i):
            env2 = dict(env)
            self.assign(g.target, mk(i), env2)
            old = getattr(self, 'pointwise', False)
            self.pointwise = True
            try:
                v = self.ev(e.elt, env2)
            finally:
                self.pointwise = old
            return Z(v)
        return Seq(n, at, kind)

    def e_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, 'tuple')

    def e_Lambda(self, e, env):
        raise Unsupported("lambda")

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if not isinstance(v, Seq) or v.items is None:
                    raise Unsupported("starred argument")
                args += v.items
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** argument")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, tuple):
            return self.method(f[1], f[2], args, kw)
        if not isinstance(f, Fn):
            raise Unsupported("call of " + type(f).__name__)
        if f.node is not None:
            return self.call_fn(f.node, args, kw)
        if f.call is not None:
            return f.call(self, args, kw)
        if f.name in EXC_BASES:
            return Exc(f.name)
        g = getattr(self, 'b_' + f.name, None)
        if g is None:
            raise Unsupported("call of " + f.name)
        return g(*args, **kw)

    # ------------------------------------------------------------ builtins
    def b_len(self, s):
        if isinstance(s, Seq):
            return s.n
        raise Unsupported("len")

    def b_repr(self, *a):
        return Str()
    b_str = b_format = b_repr

    def pick(self, a, lt):
        if len(a) == 1 and isinstance(a[0], Seq) and a[0].items is not None:
            a = a[0].items
        if not a or not all(isint(x) for x in a):
            raise Unsupported("max/min")
        r = a[0]
        for x in a[1:]:
            c = lt(Z(r), Z(x))
            if self.branch(c):
                r = x
        return r

    def b_max(self, *a):
        return self.pick(a, lambda r, x: r < x)

    def b_min(self, *a):
        return self.pick(a, lambda r, x: r > x)

    def b_abs(self, v):
        return z3.If(Z(v) < 0, -Z(v), Z(v))

    def b_int(self, v):
        if isint(v) or isinstance(v, bool):
            return num(v)
        raise Unsupported("int()")

    def b_index(self, v):
        if isinstance(v, Any):
            if not self.branch(v.isindex):
                raise PyRaise('TypeError')
            return v.index
        if isint(v):
            return num(v)
        if isinstance(v, (Arr, Seq, Str, str)) or v is None:
            raise PyRaise('TypeError')
        raise Unsupported("operator.index")

    def b_tuple(self, s=None):
        if s is None:
            return Seq.of([])
        if isinstance(s, Seq):
            return s.copy('tuple')
        raise Unsupported("tuple()")

    def b_list(self, s=None):
        return self.b_tuple(s).copy('list')

    def b_range(self, a, b=None):
        return Rng(0, a) if b is None else Rng(a, b)

    def b_enumerate(self, s):
        if isinstance(s, Seq) and s.items is not None:
            return Seq.of([Seq.of([i, v]) for i, v in enumerate(s.items)])
        return Enum(s)

    def method(self, o, a, args, kw):
        if isinstance(o, DT) and a == 'newbyteorder':
            if args in (['='], ['N'], ['native']):
                return DT(o.t, False)
            raise Unsupported("newbyteorder")
        if isinstance(o, Str):
            return Str()
        if isinstance(o, Arr):
            if a == 'max' and not args and not kw:
                return self.b_amax(o)
            if a in ('copy', 'view') and not args:
                return self.b_array(o)
            raise Unsupported("array method " + a)
        if isinstance(o, Seq):
            if a == 'copy':
                return o.copy(o.kind)
            if o.kind == 'list':
                if a == 'append':
                    o.assign(concat(o.copy('list'), Seq.of(args), 'list'))
                    return None
                if a == 'extend':
                    o.assign(concat(o.copy('list'), args[0], 'list'))
                    return None
                if a == 'insert':
                    lo, _ = self.bounds(o, (args[0], None, None))
                    c = o.copy('list')
                    o.assign(concat(concat(self.slice(c, 0, lo), Seq.of([args[1]], 'list'), 'list'), self.slice(c, lo, c.n), 'list'))
                    return None
                if a == 'pop':
                    i = self.index(o, args[0] if args else -1)
                    v = o.get(i)
                    c = o.copy('list')
                    o.assign(concat(self.slice(c, 0, i), self.slice(c, Z(i) + 1 if isz(i) else i + 1, c.n), 'list'))
                    return v
        raise Unsupported("method " + a)

    # ------------------------------------------------------------ numpy contracts
    def b_asarray(self, v, dtype=None):
        if isinstance(v, Arr) and dtype is None:
            return v
        raise Unsupported("np.asarray")
    b_asanyarray = b_asarray

    def b_array(self, v, copy=None):
        if isinstance(v, Arr):
            w = Arr(v.name, v.shape, v.dt, 'copy')
            w.max, w.empty = v.max, v.empty
            return w
        raise Unsupported("np.array")

    def b_shape(self, v):
        if isinstance(v, Arr):
            return v.shape
        raise Unsupported("np.shape")

    def b_ndim(self, v):
        return self.b_shape(v).n

    def b_amax(self, v):
        if not isinstance(v, Arr):
            raise Unsupported("np.max")
        self.assumed.add("numpy: max of an integer array is its largest element, as a scalar of its type; ValueError when empty")
        if self.branch(v.empty):
            raise PyRaise('ValueError')
        for c, (w, sg) in ITYPE.items():
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            self.pc.append(z3.Implies(v.dt == CODE[c], z3.And(v.max >= lo, v.max <= hi)))
        return NInt(v.max, v.dt)

    def b_np_max(self, v):
        return self.b_amax(v)
    b_np_amax = b_np_max

    def b_broadcast_shapes(self, *ss):
        self.assumed.add("numpy: broadcast_shapes")
        r = ss[0]
        for s in ss[1:]:
            ok, r = broadcast(r, s)
            if not self.branch(ok):
                raise PyRaise('ValueError')
        return r

    def dtype(self, d):
        if isinstance(d, DT):
            return d.t
        if isinstance(d, Ch):
            return d.dt
        if isinstance(d, Fn):
            m = {'int': 'l', 'intp': 'l', 'int_': 'l', 'int64': 'l', 'float': 'd', 'float64': 'd', 'float32': 'f', 'longdouble': 'g', 'bool': '?', 'bool_': '?',
                 'uint64': 'L', 'uintp': 'L', 'int32': 'i', 'intc': 'i', 'uint8': 'B', 'int8': 'b', 'int16': 'h', 'uint16': 'H', 'uint32': 'I', 'longlong': 'q',
                 'float16': 'e', 'double': 'd', 'single': 'f', 'ulonglong': 'Q', 'uint': 'L'}
            if d.name in m:
                return z3.IntVal(CODE[m[d.name]])
        if isinstance(d, str) and d in CODE:
            return z3.IntVal(CODE[d])
        raise Unsupported("dtype")

    def b_dtype(self, d):
        return DT(self.dtype(d), getattr(d, 'swapped', False))

    def b_add(self, a, b, out=None, casting='same_kind'):
        """np.add(a, b, out=a)"""
        if out is None or out is not a or not isinstance(b, Arr):
            raise Unsupported("np.add")
        self.assumed.add("numpy: add(a, b, out=a) adds b to a in place and raises TypeError when the sum cannot be cast to a's type")
        ok = z3.Or(*[z3.And(a.dt == CODE[x], b.dt == CODE[y]) for x in NUM for y in NUM if np.can_cast(np.result_type(x, y), x, casting)])
        if not self.branch(ok):
            raise PyRaise('TypeError')
        if not self.branch(seq_eq(a.shape, b.shape)):
            raise Unsupported("np.add of arrays of different shape")
        a.adds.append(b)
        self.log.append(('add', a, b))
        return a

    def b_issubdtype(self, d, k):
        t = self.dtype(d)
        if isinstance(k, Fn):
            s = {'integer': 'iu', 'signedinteger': 'i', 'unsignedinteger': 'u', 'floating': 'f', 'inexact': 'fc', 'complexfloating': 'c', 'number': 'iufc'}.get(k.name)
            if s:
                return z3.Or(*[t == CODE[c] for c in CH if KIND[c] in s and not (c == 'm')])
        return t == self.dtype(k)

    def alloc(self, shape, dtype, how):
        self.assumed.add(f"numpy: {how}(shape, dtype) is a new array of that shape and dtype; ValueError when a dimension is negative")
        if isint(shape):
            shape = Seq.of([num(shape)])
        if not isinstance(shape, Seq):
            raise Unsupported("shape")
        ok = forall(shape.n, lambda i: Z(shape.get(i)) >= 0) if shape.items is None else z3.And(*[Z(x) >= 0 for x in shape.items])
        if not self.branch(ok):
            raise PyRaise('ValueError')
        r = Arr(f"new!{next(_cnt)}", shape.copy('tuple'), self.dtype(dtype), how)
        r.swapped = getattr(dtype, 'swapped', False)
        return r

    def b_zeros(self, shape, dtype=None, **k):
        return self.alloc(shape, dtype if dtype is not None else Fn('float'), 'zeros')

    def b_empty(self, shape, dtype=None, **k):
        return self.alloc(shape, dtype if dtype is not None else Fn('float'), 'empty')

    def b_full(self, shape, fill_value, dtype=None):
        return self.alloc(shape, dtype if dtype is not None else Fn('int'), 'zeros' if isinstance(fill_value, (int, float)) and fill_value == 0 else 'full')

    def b_isinstance(self, v, k):
        if isinstance(k, Fn) and k.name == 'ndarray':
            return isinstance(v, Arr)
        raise Unsupported("isinstance")


class Rng:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class Enum:
    def __init__(self, seq):
        self.seq = seq


class Maybe:
    pass


def broadcast(a, b):
    """(compatible, shape) of numpy broadcasting"""
    la, lb = Z(a.n), Z(b.n)
    n = z3.If(la >= lb, la, lb)

    def da(i):
        return z3.If(i - (n - la) >= 0, Z(a.get(i - (n - la))), 1)

    def db(i):
        return z3.If(i - (n - lb) >= 0, Z(b.get(i - (n - lb))), 1)
    ok = forall(n, lambda i: z3.Or(da(i) == db(i), da(i) == 1, db(i) == 1))
    return ok, Seq(n, lambda j: z3.If(da(j) == 1, db(j), da(j)))


# ------------------------------------------------------------------ gufuncs
def equiv(a, b):
    """the same type, or two integer types of the same size and sign"""
    l, q, L, Q = (CODE[c] for c in 'lqLQ')
    return z3.Or(a == b, z3.And(z3.Or(a == l, a == q), z3.Or(b == l, b == q)), z3.And(z3.Or(a == L, a == Q), z3.Or(b == L, b == Q)))


_sel = {}


def selection(loops, rule, nin):
    """(input types) -> output type of the first loop that takes them"""
    if (loops, rule) not in _sel:
        r = {}
        for cs in itertools.product(NUM, repeat=nin):
            for i, o in loops:
                if all(rule == 'unsafe' or np.can_cast(np.dtype(c), np.dtype(x), rule) for c, x in zip(cs, i)):
                    r[cs] = o
                    break
        _sel[loops, rule] = r
    return _sel[loops, rule]


def storable(frm, dt, rule):
    return z3.Or(*[dt == CODE[c] for c in NUM if rule == 'unsafe' or np.can_cast(np.dtype(frm), np.dtype(c), rule)])


NUM = '?bBhHiIlLqQefdgFDG'


def gufunc(name, nin, incore, outcore, types=None, accumulates=False):
    """contract of a gufunc call with out=; incore / outcore: whether each input / the output has a core dimension; types: its loops ('bl->l')"""

    def call(ip, args, kw):
        kw = dict(kw)
        args = list(args)
        out = kw.pop('out', None)
        if len(args) == nin + 1 and out is None:
            out = args.pop()
        if isinstance(out, Seq) and out.items is not None and len(out.items) == 1:
            out = out.items[0]
        if len(args) != nin or not all(isinstance(a, Arr) for a in args):
            raise Unsupported(f"arguments of {name}")
        axis, axes = kw.pop('axis', None), kw.pop('axes', None)
        casting = kw.pop('casting', 'same_kind')
        sig = kw.pop('signature', kw.pop('sig', None))
        if not isinstance(casting, str):
            raise Unsupported("casting")
        if kw:
            raise Unsupported(f"keyword {sorted(kw)} of {name}")
        ops = args + [out]
        core = list(incore) + [outcore]
        if axes is not None:
            if not isinstance(axes, Seq) or axes.items is None:
                raise Unsupported("axes")
            it = list(axes.items)
            if len(it) == nin + 1:
                ax = []
                for a in it:
                    if isinstance(a, Seq):
                        if a.items is None or len(a.items) > 1:
                            raise Unsupported("axes entry")
                        a = a.items[0] if a.items else None
                    ax.append(a)
            else:
                raise Unsupported("length of axes")
        elif axis is not None:
            ax = [axis if c else None for c in core]
        else:
            ax = [-1 if c else None for c in core]
        norm = []
        if out is None:
            raise Unsupported(f"{name} without out")
        for o, a, c in zip(ops, ax, core):
            if not c:
                norm.append(None)
                continue
            if not isint(a):
                raise Unsupported("axis")
            nd = Z(o.shape.n)
            if not ip.branch(z3.And(Z(a) >= -nd, Z(a) < nd)):
                raise PyRaise('AxisError')
            norm.append(z3.If(Z(a) < 0, Z(a) + nd, Z(a)))
        ip.assumed.add("numpy: a gufunc call applies the loop to the named operands along the given axes, broadcasts the remaining dimensions, returns out, and raises "
                       "AxisError for an axis out of bounds and ValueError for core or broadcast dimensions that do not match")
        # core dimensions shared between inputs
        cores = [o.shape.get(n) for o, n, c in zip(args, norm, incore) if c]
        for c in cores[1:]:
            if not ip.branch(Z(c) == Z(cores[0])):
                raise PyRaise('ValueError')
        loops = [t.split('->') for t in (types or ())]
        inrule = casting
        if sig is not None:
            if isinstance(sig, Seq) and sig.items is not None:
                ks = [z3.simplify(ip.dtype(x)) for x in sig.items]
                want = ''.join(CH[x.as_long()] for x in ks)
            elif isinstance(sig, str):
                want = sig.replace('->', '')
            else:
                raise Unsupported("signature")
            loops = [l for l in loops if ''.join(l) == want]
        elif casting in ('same_kind', 'unsafe'):
            inrule = 'safe'
        sel = selection(tuple(map(tuple, loops)), inrule, nin)
        # {output type: condition on the inputs' types}
        conds = {}
        for cs, o in sel.items():
            conds.setdefault(o, {}).setdefault(cs[1:], []).append(cs[0])
        chosen = {}
        for o, byrest in conds.items():
            groups = {}
            for rest, c0 in byrest.items():
                groups.setdefault(tuple(c0), []).append(rest)
            alts = []
            for c0, rests in groups.items():
                c = [z3.Or(*[args[0].dt == CODE[x] for x in c0])]
                if nin > 1:
                    c.append(z3.Or(*[z3.And(*[a.dt == CODE[x] for a, x in zip(args[1:], rest)]) for rest in rests]))
                alts.append(z3.And(*c))
            chosen[o] = z3.Or(*alts)
        ok = z3.Or(*[z3.And(c, storable(o, out.dt, casting)) for o, c in chosen.items()])
        ip.assumed.add("numpy: a gufunc call uses the first loop whose inputs can be cast safely (the given signature, with the given casting) and raises TypeError when "
                       "there is none or its output cannot be cast")
        if types is not None and not ip.branch(ok):
            raise PyRaise('TypeError')
        if accumulates:
            # NumPy hands the loop an uninitialised temporary in place of an output that needs a cast
            here = z3.Or(*[z3.And(c, equiv(out.dt, z3.IntVal(CODE[o]))) for o, c in chosen.items()])
            ip.need(f"{name} reads its output: out has the loop's type, native byte order and alignment", z3.And(here, z3.Not(ZB(out.swapped)), ZB(out.aligned)))
        ip.calls.append((name, args, out, norm))
        ip.log.append(('call', name, out))
        return out
    return call
