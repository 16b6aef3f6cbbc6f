"""Parser for the subset of textual LLVM 18 IR that clang emits for the code under contract."""
import re

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<local>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
  | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
  | (?P<meta>![a-zA-Z0-9._]*|\#[0-9]+)
  | (?P<num>0x[KLMH]?[0-9A-Fa-f]+|-?[0-9]+\.[0-9]*(?:e[+-]?[0-9]+)?|-?[0-9]+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


class ParseError(Exception):
    pass


def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise ParseError("tok: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


# ---- types: ('i',n) ('f','float'|'double'|'x86_fp80'|'half') ('ptr',) ('void',) ('arr',n,t) ('st',[t],packed) ('vec',n,t) ('named',name)
class Cur:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError(f"expected {v} at {self.t[self.i:self.i+6]}")

    def eof(self):
        return self.i >= len(self.t)


def is_type_start(tok):
    k, v = tok
    if k == 'word':
        return bool(re.fullmatch(r'i[0-9]+', v)) or v in ('float', 'double', 'x86_fp80', 'half', 'ptr', 'void',
                                                        'fp128', 'label', 'metadata', 'token', 'opaque')
    return v in ('[', '{', '<') or k == 'local'


def ptype(c):
    k, v = c.next()
    if k == 'word':
        if v == 'ptr':
            return ('ptr',)
        if v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            return ('f', v)
        if v in ('void', 'label', 'metadata', 'token', 'opaque'):
            return (v,)
        m = re.fullmatch(r'i([0-9]+)', v)
        if m:
            return ('i', int(m.group(1)))
        raise ParseError("type " + v)
    if k == 'local':
        return ('named', v)
    if v == '[':
        n = int(c.next()[1])
        c.expect('x')
        t = ptype(c)
        c.expect(']')
        return ('arr', n, t)
    if v == '{':
        fs = []
        if not c.accept('}'):
            while True:
                fs.append(ptype(c))
                if c.accept('}'):
                    break
                c.expect(',')
        return ('st', tuple(fs), False)
    if v == '<':
        if c.accept('{'):
            fs = []
            if not c.accept('}'):
                while True:
                    fs.append(ptype(c))
                    if c.accept('}'):
                        break
                    c.expect(',')
            c.expect('>')
            return ('st', tuple(fs), True)
        n = int(c.next()[1])
        c.expect('x')
        t = ptype(c)
        c.expect('>')
        return ('vec', n, t)
    raise ParseError("type " + v)


ATTRW = set('''noundef nonnull signext zeroext noalias nocapture readonly readnone writeonly returned inreg nofree
 dead_on_unwind writable immarg swiftself nest noext allocptr'''.split())


def skip_attrs(c):
    al = None
    while True:
        k, v = c.peek()
        if v in ATTRW:
            c.next()
        elif v == 'align':
            c.next()
            if c.accept('('):
                al = int(c.next()[1])
                c.expect(')')
            else:
                al = int(c.next()[1])
        elif v in ('dereferenceable', 'dereferenceable_or_null', 'captures', 'nofpclass', 'range', 'memory', 'initializes', 'allocsize'):
            c.next()
            skip_paren(c)
        elif v in ('sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated'):
            c.next()
            c.expect('(')
            t = ptype(c)
            c.expect(')')
            yield_attr.append((v, t))
        else:
            return al


yield_attr = []


def skip_paren(c):
    c.expect('(')
    d = 1
    while d:
        v = c.next()[1]
        if v == '(':
            d += 1
        elif v == ')':
            d -= 1


# values: ('reg',name) ('glob',name) ('int',v) ('fp',text) ('null',) ('undef',) ('poison',) ('zero',) ('true'..as int 1)
# ('cexpr', op, ...) ('agg',[ (t,v) ])  ('cstr', bytes)
def pvalue(c, ty):
    k, v = c.next()
    if k == 'local':
        return ('reg', v)
    if k == 'glob':
        return ('glob', v)
    if k == 'num':
        if ty[0] == 'f':
            return ('fp', v)
        return ('int', int(v))
    if k == 'str':
        return ('cstr', v)
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('null', 'undef', 'poison', 'none'):
            return (v,)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            fl = []
            while c.peek()[0] == 'word' and c.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if c.next()[1] == 'inrange' and c.peek()[1] == '(':
                    skip_paren(c)
            c.expect('(')
            t = ptype(c)
            ops = []
            while c.accept(','):
                if c.peek()[1] == 'inrange':
                    c.next()
                tt = ptype(c)
                ops.append((tt, pvalue(c, tt)))
            c.expect(')')
            return ('cexpr', 'gep', t, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'trunc', 'zext', 'sext'):
            c.expect('(')
            t = ptype(c)
            x = pvalue(c, t)
            c.expect('to')
            t2 = ptype(c)
            c.expect(')')
            return ('cexpr', v, t, x, t2)
        if v in ('add', 'sub', 'mul'):
            while c.peek()[1] in ('nuw', 'nsw'):
                c.next()
            c.expect('(')
            t = ptype(c)
            x = pvalue(c, t)
            c.expect(',')
            t2 = ptype(c)
            y = pvalue(c, t2)
            c.expect(')')
            return ('cexpr', v, t, x, y)
        if v == 'splat':
            c.expect('(')
            t = ptype(c)
            x = pvalue(c, t)
            c.expect(')')
            return ('agg', [(t, x)] * ty[1])
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi'):
            return ('undef',)
        raise ParseError('value ' + v)
    if v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        packed = False
        if v == '<' and c.accept('{'):
            close = '}'
            packed = True
        items = []
        if not c.accept(close):
            while True:
                t = ptype(c)
                items.append((t, pvalue(c, t)))
                if c.accept(close):
                    break
                c.expect(',')
        if packed:
            c.expect('>')
        return ('agg', items)
    if k == 'meta':
        return ('undef',)
    raise ParseError('value ' + str(v))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res, ty, a, x=None, line=''):
        self.op, self.res, self.ty, self.a, self.x, self.line = op, res, ty, a, x, line

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, name, ret, params, line):
        self.name, self.ret, self.params, self.line = name, ret, params, line
        self.blocks = {}
        self.order = []
        self.attrs = line


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.raw = None

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1]) or (t[1] + 7) // 8
        if k == 'f':
            return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'ptr':
            return 8
        if k in ('arr', 'vec'):
            return t[1] * self.size(t[2])
        if k == 'st':
            o = 0
            al = 1
            for f in t[1]:
                a = 1 if t[2] else self.align(f)
                al = max(al, a)
                o = (o + a - 1) // a * a + self.size(f)
            return (o + al - 1) // al * al
        raise ParseError('size of ' + str(t))

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        if k == 'st':
            return 1 if t[2] else max([self.align(f) for f in t[1]] or [1])
        return self.size(t)

    def offset(self, t, idx):
        t = self.resolve(t)
        o = 0
        for i, f in enumerate(t[1]):
            a = 1 if t[2] else self.align(f)
            o = (o + a - 1) // a * a
            if i == idx:
                return o
            o += self.size(f)
        raise ParseError('offset')


FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'nneg',
         'disjoint', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}


def pinst(line, mod):
    c = Cur(tokens(line), mod)
    res = None
    if c.peek()[0] == 'local' and c.peek(1)[1] == '=':
        res = c.next()[1]
        c.next()
    k, op = c.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = c.next()
    flags = set()
    while c.peek()[0] == 'word' and c.peek()[1] in FLAGS:
        flags.add(c.next()[1])
    if op in BIN:
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        b = pvalue(c, t)
        return Inst(op, res, t, [a, b], flags, line)
    if op == 'fneg':
        t = ptype(c)
        return Inst(op, res, t, [pvalue(c, t)], flags, line)
    if op in ('icmp', 'fcmp'):
        pred = c.next()[1]
        while pred in FLAGS:
            pred = c.next()[1]
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        b = pvalue(c, t)
        return Inst(op, res, t, [a, b], pred, line)
    if op in CAST:
        t = ptype(c)
        a = pvalue(c, t)
        c.expect('to')
        t2 = ptype(c)
        return Inst(op, res, t2, [a], t, line)
    if op == 'br':
        if c.peek()[1] == 'label':
            c.next()
            return Inst('br', None, None, [], [c.next()[1]], line)
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        c.expect('label')
        x = c.next()[1]
        c.expect(',')
        c.expect('label')
        y = c.next()[1]
        return Inst('br', None, t, [a], [x, y], line)
    if op == 'switch':
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        c.expect('label')
        d = c.next()[1]
        c.expect('[')
        cases = []
        while not c.accept(']'):
            tt = ptype(c)
            v = pvalue(c, tt)
            c.expect(',')
            c.expect('label')
            cases.append((v[1], c.next()[1]))
        return Inst('switch', None, t, [a], (d, cases), line)
    if op == 'ret':
        t = ptype(c)
        if t == ('void',):
            return Inst('ret', None, t, [], None, line)
        return Inst('ret', None, t, [pvalue(c, t)], None, line)
    if op in ('unreachable', 'resume', 'fence'):
        return Inst(op, None, None, [], None, line)
    if op == 'phi':
        t = ptype(c)
        inc = []
        while True:
            c.expect('[')
            v = pvalue(c, t)
            c.expect(',')
            b = c.next()[1]
            c.expect(']')
            inc.append((v, b))
            if not c.accept(','):
                break
            if c.peek()[1] != '[':
                break
        return Inst('phi', res, t, inc, None, line)
    if op == 'select':
        t0 = ptype(c)
        a = pvalue(c, t0)
        c.expect(',')
        t = ptype(c)
        x = pvalue(c, t)
        c.expect(',')
        t2 = ptype(c)
        y = pvalue(c, t2)
        return Inst('select', res, t, [a, x, y], t0, line)
    if op == 'alloca':
        if c.peek()[1] == 'inalloca':
            c.next()
        t = ptype(c)
        n = ('int', 1)
        if c.accept(','):
            if c.peek()[1] != 'align':
                tt = ptype(c)
                n = pvalue(c, tt)
        return Inst('alloca', res, t, [n], None, line)
    if op == 'load':
        if c.peek()[1] in ('volatile', 'atomic'):
            c.next()
        t = ptype(c)
        c.expect(',')
        tt = ptype(c)
        a = pvalue(c, tt)
        return Inst('load', res, t, [a], None, line)
    if op == 'store':
        if c.peek()[1] in ('volatile', 'atomic'):
            c.next()
        t = ptype(c)
        v = pvalue(c, t)
        c.expect(',')
        tt = ptype(c)
        a = pvalue(c, tt)
        return Inst('store', None, t, [v, a], None, line)
    if op == 'getelementptr':
        t = ptype(c)
        ops = []
        while c.accept(','):
            if c.peek()[0] == 'meta':
                break
            tt = ptype(c)
            ops.append((tt, pvalue(c, tt)))
        return Inst('gep', res, t, ops, flags, line)
    if op in ('call', 'invoke'):
        while c.peek()[1] in ('fastcc', 'ccc', 'coldcc') or c.peek()[1] in FLAGS:
            c.next()
        del yield_attr[:]
        skip_attrs(c)
        rt = ptype(c)
        if c.peek()[1] == '(':  # function type
            skip_paren(c)
        fn = pvalue(c, ('ptr',))
        c.expect('(')
        args = []
        if not c.accept(')'):
            while True:
                t = ptype(c)
                if t == ('metadata',):
                    # skip operand
                    d = 0
                    while not (d == 0 and c.peek()[1] in (',', ')')):
                        v = c.next()[1]
                        if v in '([{<':
                            d += 1
                        if v in ')]}>':
                            d -= 1
                    args.append((t, ('undef',)))
                else:
                    skip_attrs(c)
                    args.append((t, pvalue(c, t)))
                if c.accept(')'):
                    break
                c.expect(',')
        x = None
        if op == 'invoke':
            while c.peek()[0] == 'meta':
                c.next()
            c.expect('to')
            c.expect('label')
            n = c.next()[1]
            c.expect('unwind')
            c.expect('label')
            u = c.next()[1]
            x = (n, u)
        return Inst(op, res, rt, [fn] + args, x, line)
    if op in ('extractvalue', 'insertvalue'):
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        if op == 'insertvalue':
            t2 = ptype(c)
            v = pvalue(c, t2)
            c.expect(',')
            idx = [int(c.next()[1])]
            while c.accept(','):
                if c.peek()[0] != 'num':
                    break
                idx.append(int(c.next()[1]))
            return Inst(op, res, t, [a, (t2, v)], idx, line)
        idx = [int(c.next()[1])]
        while c.accept(','):
            if c.peek()[0] != 'num':
                break
            idx.append(int(c.next()[1]))
        return Inst(op, res, t, [a], idx, line)
    if op == 'extractelement':
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        t2 = ptype(c)
        return Inst(op, res, t, [a, (t2, pvalue(c, t2))], None, line)
    if op == 'insertelement':
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        t1 = ptype(c)
        v = pvalue(c, t1)
        c.expect(',')
        t2 = ptype(c)
        return Inst(op, res, t, [a, (t1, v), (t2, pvalue(c, t2))], None, line)
    if op == 'shufflevector':
        t = ptype(c)
        a = pvalue(c, t)
        c.expect(',')
        t1 = ptype(c)
        b = pvalue(c, t1)
        c.expect(',')
        t2 = ptype(c)
        return Inst(op, res, t, [a, b, (t2, pvalue(c, t2))], None, line)
    if op == 'freeze':
        t = ptype(c)
        return Inst(op, res, t, [pvalue(c, t)], None, line)
    if op in ('landingpad',):
        return Inst(op, res, None, [], None, line)
    return Inst('?' + op, res, None, [], None, line)


DEF = re.compile(r'^define\b')


def parse_module(path, want=None):
    """want: optional predicate on function name to parse bodies"""
    mod = Module()
    lines = open(path).read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            name, t = ln.split(' = type ', 1)
            mod.types[name.strip()] = ('opaque',) if t.strip() == 'opaque' else ptype(Cur(tokens(t), mod))
        elif ln.startswith('@'):
            m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
            mod.globals[m.group(1)] = m.group(2)
        elif ln.startswith('declare'):
            m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
            mod.decls[m.group(1)] = ln
        elif DEF.match(ln):
            m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
            name = m.group(1)
            body = []
            j = i + 1
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            mod.funcs[name] = (ln, body)
            i = j
        i += 1
    mod._parsed = {}
    return mod


def get_func(mod, name):
    if name in mod._parsed:
        return mod._parsed[name]
    ln, body = mod.funcs[name]
    m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
    pre = ln[len('define'):m.start()]
    c = Cur(tokens(pre), mod)
    while True:
        k, v = c.peek()
        if is_type_start((k, v)):
            break
        if v in ('dereferenceable', 'align', 'range', 'nofpclass'):
            skip_attrs(c)
        else:
            c.next()
    ret = ptype(c)
    c = Cur(tokens(ln[m.end() - 1:]), mod)
    c.expect('(')
    params = []
    if not c.accept(')'):
        while True:
            if c.accept('...'):
                c.expect(')')
                break
            t = ptype(c)
            skip_attrs(c)
            k, v = c.peek()
            if k == 'local':
                c.next()
            else:
                v = None
            params.append((t, v))
            if c.accept(')'):
                break
            c.expect(',')
    f = Func(name, ret, params, ln)
    # implicit numbering of unnamed params
    num = 0
    for idx, (t, v) in enumerate(params):
        if v is None:
            params[idx] = (t, f'%{num}')
        if params[idx][1] == f'%{num}':
            num += 1
    cur = None
    k = 0
    while k < len(body):
        b = body[k]
        s = b.strip()
        k += 1
        if not s or s.startswith(';'):
            continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', b)
        if m:
            cur = '%' + m.group(1)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = f'%{num}'
            f.blocks[cur] = []
            f.order.append(cur)
        if re.match(r'switch\b', s) and s.endswith('['):
            while not body[k].strip().startswith(']'):
                s += ' ' + body[k].strip()
                k += 1
            s += ' ]'
            k += 1
        if 'invoke ' in s and ' unwind label ' not in s:
            s += ' ' + body[k].strip()
            k += 1
        if re.search(r'=\s*landingpad\b', s):
            while k < len(body) and body[k].strip().split(' ')[0] in ('catch', 'filter', 'cleanup'):
                k += 1
        # strip metadata attachments
        s = re.sub(r',\s*!(?:[a-zA-Z_.]+)\s+![0-9]+', '', s)
        s = re.sub(r'(\s#[0-9]+)(?=$|,|\s)', '', s)
        f.blocks[cur].append(pinst(s, mod))
    mod._parsed[name] = f
    return f


def expand(mod, f, depth=2):
    """f with the calls of functions defined in the module (after always-inline: the recursive ones) replaced by the callee's
    body, to the given nesting depth. Deeper calls stay, and are rejected where they can be reached."""
    memo = mod.__dict__.setdefault('_recursive', {})

    def recursive(name):
        if name not in memo:
            seen, work = set(), [name]
            memo[name] = False
            while work:
                ln, body = mod.funcs[work.pop()]
                for b in body:
                    if 'call' not in b and 'invoke' not in b:
                        continue
                    for m in re.findall(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', b):
                        if m == name:
                            memo[name] = True
                            return True
                        if m in mod.funcs and m not in seen:
                            seen.add(m)
                            work.append(m)
        return memo[name]

    def callee(i):
        return i.op == 'call' and isinstance(i.a[0], tuple) and i.a[0][0] == 'glob' and i.a[0][1] in mod.funcs and recursive(i.a[0][1])
    if not any(callee(i) for b in f.blocks.values() for i in b):
        return f
    g = Func(f.name, f.ret, f.params, f.line)
    g.blocks = {b: list(x) for b, x in f.blocks.items()}
    g.order = list(f.order)
    level, n, k = {}, 0, 0
    while k < len(g.order):
        b = g.order[k]
        ins = g.blocks[b]
        at = next((j for j, i in enumerate(ins) if callee(i) and level.get(id(i), 0) < depth), None)
        if at is None:
            k += 1
            continue
        call = ins[at]
        n += 1
        sfx = f".i{n}"
        h = get_func(mod, call.a[0][1])
        lv = level.get(id(call), 0) + 1
        if len(h.params) != len(call.a) - 1:
            k += 1
            continue
        sub = {p[1]: v for p, (t, v) in zip(h.params, call.a[1:])}

        def ren(v):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'reg':
                    return sub.get(v[1], ('reg', v[1] + sfx))
                return tuple(ren(x) for x in v)
            if isinstance(v, list):
                return [ren(x) for x in v]
            return v
        cont = b + sfx + '.cont'
        rets, new = [], []
        for hb in h.order:
            out = []
            for i in h.blocks[hb]:
                res = i.res + sfx if i.res else i.res
                if i.op == 'phi':
                    q = Inst('phi', res, i.ty, [(ren(v), pb + sfx) for v, pb in i.a], None, i.line)
                elif i.op == 'br':
                    q = Inst('br', res, i.ty, ren(i.a), [y + sfx for y in i.x], i.line)
                elif i.op == 'switch':
                    q = Inst('switch', res, i.ty, ren(i.a), (i.x[0] + sfx, [(c, y + sfx) for c, y in i.x[1]]), i.line)
                elif i.op == 'invoke':
                    q = Inst('invoke', res, i.ty, ren(i.a), tuple(y + sfx for y in i.x), i.line)
                elif i.op == 'ret':
                    if i.a:
                        rets.append((ren(i.a[0]), hb + sfx))
                    q = Inst('br', None, None, [], [cont], i.line)
                else:
                    q = Inst(i.op, res, i.ty, ren(i.a), ren(i.x) if isinstance(i.x, (tuple, list)) else i.x, i.line)
                if callee(q):
                    level[id(q)] = lv
                out.append(q)
            new.append(hb + sfx)
            g.blocks[hb + sfx] = out
        tail = ins[at + 1:]
        if call.res and rets:
            tail = [Inst('phi', call.res, call.ty, rets, None, call.line)] + tail
        g.blocks[b] = ins[:at] + [Inst('br', None, None, [], [h.order[0] + sfx], call.line)]
        g.blocks[cont] = tail
        t = tail[-1]
        succ = t.x if t.op in ('br', 'invoke') else [t.x[0]] + [c[1] for c in t.x[1]] if t.op == 'switch' else []
        for sb in set(succ):
            if sb in g.blocks:
                g.blocks[sb] = [Inst('phi', i.res, i.ty, [(v, cont if pb == b else pb) for v, pb in i.a], i.x, i.line) if i.op == 'phi' else i for i in g.blocks[sb]]
        g.order[k + 1:k + 1] = new + [cont]
    return g


if __name__ == '__main__':
    import sys
    for p in sys.argv[1:]:
        m = parse_module(p)
        ops = {}
        for nme in m.funcs:
            f = get_func(m, nme)
            for b in f.blocks.values():
                for ins in b:
                    ops[ins.op] = ops.get(ins.op, 0) + 1
        print(p, len(m.funcs), {k: v for k, v in ops.items() if k.startswith('?')})
