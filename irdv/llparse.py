"""Parser for the textual LLVM IR (clang/opt 18, opaque pointers) that the
verifier generates from /repo's sources on every run.

Only the constructs that clang emits for C++ code without optimisation beyond
SROA / early-cse / simplifycfg are supported; anything else raises ParseError
when (and only when) the function that contains it is needed: function bodies
are parsed lazily."""
import re, struct
from fractions import Fraction


class ParseError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<ell>\.\.\.)
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token at: ' + s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a')

    def __init__(self, k, a=None):
        self.k = k
        self.a = a

    def __repr__(self):
        return f'{self.k}:{self.a}' if self.a is not None else self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash(self.k)


VOID, PTR, DOUBLE, FLOAT, LABEL = Ty('void'), Ty('ptr'), Ty('double'), Ty('float'), Ty('label')
META = Ty('metadata')


def INT(n):
    return Ty('int', n)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'readonly', 'nocapture', 'writeonly', 'returned',
    'immarg', 'inreg', 'nest', 'swiftself', 'readnone', 'dead_on_unwind', 'writable', 'noinline', 'allocptr',
    'allocalign', 'dead_on_return', 'nofree', 'nofpclass', 'initializes', 'captures'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
                   'preallocated', 'inalloca', 'range'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'flags')

    def __init__(self, op, res, ty, a, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.flags = flags

    def __repr__(self):
        return f'<{self.res} = {self.op} {self.a}>'


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None


class Function:
    def __init__(self, name, module, header, bodylines):
        self.name = name
        self.module = module
        self.header = header
        self.bodylines = bodylines
        self._parsed = False
        self.demangled = None

    def parse(self):
        if self._parsed:
            return self
        p = P(tokenize(self.header), self.module)
        p.function_header(self)
        self.blocks = {}
        self.order = []
        cur = None
        lines = self.bodylines
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            st = ln.strip()
            if not st or st.startswith(';'):
                i += 1
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = '%' + m.group(1)
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
                i += 1
                first = False
                continue
            if cur is None:
                nm = '%' + str(len(self.params)) if first else None
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
                first = False
            # multi-line: switch [ ... ], invoke ... to label, landingpad clauses
            while True:
                nxt = lines[i + 1].strip() if i + 1 < len(lines) else ''
                if st.startswith('switch') or ' switch ' in st:
                    if st.rstrip().endswith(']') or ']' in st.split('[', 1)[1] if '[' in st else False:
                        break
                    i += 1
                    st += ' ' + nxt
                    if nxt.startswith(']'):
                        break
                    continue
                if nxt.startswith('to label') or nxt.startswith('catch ') or nxt.startswith('filter ') or nxt == 'cleanup':
                    st += ' ' + nxt
                    i += 1
                    continue
                break
            i += 1
            ins = P(tokenize(st), self.module).instruction()
            if ins is None:
                continue
            ins.line = st
            if ins.op == 'phi':
                cur.phis.append(ins)
            elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke', 'resume', 'indirectbr'):
                cur.term = ins
            else:
                cur.ins.append(ins)
        self.entry = self.order[0]
        self._parsed = True
        return self


class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.functions = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln.startswith('define '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                nm = m.group(1)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.functions[nm] = Function(nm, self, ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', ln)
                self.decls[m.group(1)] = ln
            elif ln.startswith('@'):
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
                if re.search(r'\balias\b', m.group(2)) and not re.search(r'\b(global|constant)\b', m.group(2)):
                    self.aliases[m.group(1)] = m.group(2).split()[-1]
                else:
                    self.globals[m.group(1)] = m.group(2)
            i += 1
        self._tycache = {}
        self._glob = {}

    def resolve(self, ty):
        if ty.k == 'named':
            if ty.a not in self._tycache:
                body = self.types.get(ty.a, 'opaque')
                if body == 'opaque':
                    self._tycache[ty.a] = Ty('opaque')
                else:
                    self._tycache[ty.a] = P(tokenize(body), self).type()
            return self._tycache[ty.a]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            return max(1, min(16, (ty.a + 7) // 8 if ty.a != 1 else 1))
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'x86_fp80':
            return 16
        if ty.k == 'array':
            return self.align(ty.a[1])
        if ty.k == 'struct':
            return max([self.align(t) for t in ty.a] or [1])
        if ty.k == 'pstruct':
            return 1
        if ty.k == 'vector':
            return self.size(ty)
        raise ParseError('align ' + repr(ty))

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int':
            b = (ty.a + 7) // 8
            r = 1
            while r < b:
                r *= 2
            return r
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'x86_fp80':
            return 16
        if ty.k == 'array':
            return ty.a[0] * self.size(ty.a[1])
        if ty.k == 'vector':
            return ty.a[0] * self.size(ty.a[1])
        if ty.k == 'pstruct':
            return sum(self.size(t) for t in ty.a)
        if ty.k == 'struct':
            off = 0
            for t in ty.a:
                al = self.align(t)
                off = (off + al - 1) // al * al + self.size(t)
            al = self.align(ty)
            return (off + al - 1) // al * al
        raise ParseError('size ' + repr(ty))

    def field_off(self, ty, i):
        ty = self.resolve(ty)
        if ty.k == 'pstruct':
            return sum(self.size(t) for t in ty.a[:i]), ty.a[i]
        off = 0
        for j, t in enumerate(ty.a):
            al = self.align(t)
            off = (off + al - 1) // al * al
            if j == i:
                return off, t
            off += self.size(t)
        raise ParseError('field')

    def global_init(self, name):
        """(ty, value, is_constant) of a global with initializer, or None"""
        if name in self._glob:
            return self._glob[name]
        txt = self.globals.get(name)
        r = None
        if txt is not None:
            toks = tokenize(txt)
            p = P(toks, self)
            const = None
            ext = False
            while p.i < len(p.t):
                w = p.peek()[1]
                if w == 'external' or w == 'extern_weak':
                    ext = True
                if w in ('global', 'constant'):
                    const = (w == 'constant')
                    p.i += 1
                    break
                p.i += 1
            ty = p.type()
            if ext:
                r = (ty, None, const)
            else:
                r = (ty, p.value(ty), const)
        self._glob[name] = r
        return r


def hexdouble(h):
    v = struct.unpack('>d', struct.pack('>Q', int(h, 16)))[0]
    return v


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError(f'expected {s} got {self.peek()} in ' + ' '.join(x[1] for x in self.t[max(0, self.i-12):self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i[0-9]+', v):
                ty = INT(int(v[1:]))
            elif v == 'ptr':
                ty = PTR
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
            elif v == 'opaque':
                ty = Ty('opaque')
            elif v in ('void', 'double', 'float', 'label', 'metadata', 'x86_fp80', 'token', 'half', 'fp128'):
                ty = Ty(v)
            else:
                raise ParseError('type ' + v)
        elif k == 'local':
            ty = Ty('named', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = Ty('array', (n, e))
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                ty = Ty('pstruct', tuple(fs))
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = Ty('vector', (n, e))
        elif v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            ty = Ty('struct', tuple(fs))
        else:
            raise ParseError(f'type {k} {v}')
        # function type suffix:  ret (args)
        if self.peek()[1] == '(' and ty.k != 'label':
            j = self.i
            try:
                self.next()
                args = []
                while not self.accept(')'):
                    if self.peek()[0] == 'ell':
                        self.next()
                        args.append('...')
                    else:
                        args.append(self.type())
                    self.accept(',')
                ty = Ty('func', (ty, tuple(args)))
            except ParseError:
                self.i = j
        return ty

    def param_attrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                at[v] = True
                if v in ('nofpclass', 'captures', 'initializes') and self.peek()[1] == '(':
                    self.skip_parens()
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.accept('('):
                    if v in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                        at[v] = self.type()
                        self.expect(')')
                    else:
                        at[v] = self.next()[1]
                        while not self.accept(')'):
                            self.next()
                else:
                    at[v] = self.next()[1]
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return at

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def value(self, ty):
        """operand -> tuple tagged value"""
        k, v = self.peek()
        rt = self.m.resolve(ty)
        if k == 'local':
            self.next()
            return ('local', v)
        if k == 'glob':
            self.next()
            return ('global', v)
        if k == 'num':
            self.next()
            if rt.k in ('double', 'float'):
                return ('fp', Fraction(v) if 'e' not in v.lower() else Fraction(float(v)))
            return ('int', int(v))
        if k == 'hex':
            self.next()
            if v[2] in 'KMLHR':
                return ('fpx', v)
            d = hexdouble(v[2:])
            if d != d:
                return ('fpnan',)
            if d in (float('inf'), float('-inf')):
                return ('fpinf', 1 if d > 0 else -1)
            return ('fp', Fraction(d))
        if k == 'str':
            self.next()
            return ('str', v)
        if k == 'word':
            if v in ('true', 'false'):
                self.next()
                return ('int', 1 if v == 'true' else 0)
            if v == 'null':
                self.next()
                return ('null',)
            if v in ('undef', 'poison'):
                self.next()
                return ('undef',)
            if v == 'zeroinitializer':
                self.next()
                return ('zero',)
            if v == 'none':
                self.next()
                return ('null',)
            if v == 'getelementptr':
                self.next()
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.accept('inrange'):
                    self.skip_parens()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    if self.accept('inrange'):
                        if self.peek()[1] == '(':
                            self.skip_parens()
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.next()
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'icmp', 'and', 'or', 'xor', 'select', 'shl', 'lshr'):
                self.next()
                while self.peek()[0] == 'word' and self.peek()[1] not in ('(',):
                    self.next()
                self.skip_parens()
                return ('cexpr', v)
        if v == '[' or v == '{' or v == '<':
            self.next()
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]
            xs = []
            while not self.accept(close):
                t = self.type()
                xs.append((t, self.value(t)))
                self.accept(',')
            if v == '<' and close == '}':
                self.expect('>')
            return ('agg', xs)
        raise ParseError(f'value {k} {v} of type {ty}')

    def tv(self):
        t = self.type()
        self.param_attrs()
        return t, self.value(t)

    def function_header(self, f):
        self.expect('define')
        while True:
            k, v = self.peek()
            if k == 'word' and v in ('dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'hidden', 'private', 'weak',
                                     'available_externally', 'unnamed_addr', 'local_unnamed_addr', 'noundef', 'linkonce',
                                     'protected', 'dso_preemptable', 'external', 'fastcc', 'ccc', 'coldcc', 'default'):
                self.next()
            else:
                at = self.param_attrs()
                if not at:
                    break
        f.ret = self.type()
        k, v = self.next()
        self.expect('(')
        f.params = []
        n = 0
        f.vararg = False
        while not self.accept(')'):
            if self.peek()[0] == 'ell':
                self.next()
                f.vararg = True
                continue
            t = self.type()
            at = self.param_attrs()
            if self.peek()[0] == 'local':
                nm = self.next()[1]
            else:
                nm = '%' + str(n)
            n += 1
            f.params.append((t, nm, at))
            self.accept(',')

    def callargs(self):
        self.expect('(')
        args = []
        while not self.accept(')'):
            t = self.type()
            at = self.param_attrs()
            if t.k == 'metadata':
                # swallow metadata operand
                d = 0
                while not (d == 0 and self.peek()[1] in (',', ')')):
                    w = self.next()[1]
                    if w == '(':
                        d += 1
                    elif w == ')':
                        d -= 1
                args.append((t, ('undef',), at))
            else:
                args.append((t, self.value(t), at))
            self.accept(',')
        return args

    def call(self):
        while self.peek()[1] in FMF:
            self.next()
        while self.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            self.next()
        self.param_attrs()
        t = self.type()
        if t.k == 'func':
            t = t.a[0]
        k, v = self.peek()
        if k == 'word' and v == 'asm':
            raise ParseError('asm')
        callee = self.value(PTR)
        args = self.callargs()
        return t, callee, args

    def instruction(self):
        res = None
        if self.peek()[0] == 'local' and self.peek(1)[1] == '=':
            res = self.next()[1]
            self.next()
        op = self.next()[1]
        fl = []
        if op in ('tail', 'musttail', 'notail'):
            op = self.next()[1]
        if op == 'ret':
            if self.peek()[1] == 'void':
                return Instr('ret', None, VOID, None)
            t, v = self.tv()
            return Instr('ret', None, t, v)
        if op == 'br':
            t = self.type()
            if t.k == 'label':
                return Instr('br', None, None, self.next()[1])
            c = self.value(t)
            self.expect(',')
            self.expect('label')
            a = self.next()[1]
            self.expect(',')
            self.expect('label')
            b = self.next()[1]
            return Instr('condbr', None, None, (c, a, b))
        if op == 'switch':
            t = self.type()
            c = self.value(t)
            self.expect(',')
            self.expect('label')
            d = self.next()[1]
            self.expect('[')
            cases = []
            while not self.accept(']'):
                tt = self.type()
                vv = self.value(tt)
                self.expect(',')
                self.expect('label')
                cases.append((vv[1], self.next()[1]))
            return Instr('switch', None, t, (c, d, cases))
        if op == 'unreachable':
            return Instr('unreachable', None, None, None)
        if op == 'resume':
            return Instr('resume', None, None, None)
        if op == 'invoke':
            t, c, args = self.call()
            while self.peek()[1] != 'to':
                self.next()
            self.expect('to')
            self.expect('label')
            n = self.next()[1]
            self.expect('unwind')
            self.expect('label')
            u = self.next()[1]
            return Instr('invoke', res, t, (c, args, n, u))
        if op == 'call':
            t, c, args = self.call()
            return Instr('call', res, t, (c, args))
        if op == 'phi':
            while self.peek()[1] in FMF:
                self.next()
            t = self.type()
            inc = []
            while True:
                self.expect('[')
                v = self.value(t)
                self.expect(',')
                b = self.next()[1]
                self.expect(']')
                inc.append((v, b))
                if not self.accept(','):
                    break
                if self.peek()[0] == 'meta':
                    break
            return Instr('phi', res, t, inc)
        if op == 'alloca':
            self.accept('inalloca')
            t = self.type()
            n = ('int', 1)
            nt = INT(32)
            while self.accept(','):
                if self.peek()[1] == 'align':
                    self.next()
                    self.next()
                elif self.peek()[0] == 'meta' or self.peek()[1] == 'addrspace':
                    break
                else:
                    nt = self.type()
                    n = self.value(nt)
            return Instr('alloca', res, t, n)
        if op == 'load':
            self.accept('atomic')
            self.accept('volatile')
            t = self.type()
            self.expect(',')
            _, p = self.tv()
            return Instr('load', res, t, p)
        if op == 'store':
            self.accept('atomic')
            self.accept('volatile')
            t, v = self.tv()
            self.expect(',')
            _, p = self.tv()
            return Instr('store', None, t, (v, p))
        if op == 'getelementptr':
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                fl.append(self.next()[1])
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                ops.append(self.tv())
                if not self.accept(',') or self.peek()[0] == 'meta':
                    break
            return Instr('gep', res, bt, ops)
        if op in ('icmp', 'fcmp'):
            while self.peek()[1] in FMF:
                self.next()
            pred = self.next()[1]
            t = self.type()
            a = self.value(t)
            self.expect(',')
            b = self.value(t)
            return Instr(op, res, t, (pred, a, b))
        if op == 'fneg':
            while self.peek()[1] in FMF:
                self.next()
            t, v = self.tv()
            return Instr('fneg', res, t, v)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while self.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint') or self.peek()[1] in FMF:
                fl.append(self.next()[1])
            t = self.type()
            a = self.value(t)
            self.expect(',')
            b = self.value(t)
            return Instr(op, res, t, (a, b), tuple(fl))
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while self.peek()[1] in ('nneg', 'nuw', 'nsw'):
                self.next()
            t, v = self.tv()
            self.expect('to')
            t2 = self.type()
            return Instr(op, res, t2, (t, v))
        if op == 'select':
            while self.peek()[1] in FMF:
                self.next()
            t0, c = self.tv()
            self.expect(',')
            t, a = self.tv()
            self.expect(',')
            _, b = self.tv()
            return Instr('select', res, t, (c, a, b))
        if op == 'extractvalue':
            t, v = self.tv()
            idx = []
            while self.accept(','):
                if self.peek()[0] == 'meta':
                    break
                idx.append(int(self.next()[1]))
            return Instr('extractvalue', res, t, (v, idx))
        if op == 'insertvalue':
            t, v = self.tv()
            self.expect(',')
            t2, w = self.tv()
            idx = []
            while self.accept(','):
                if self.peek()[0] == 'meta':
                    break
                idx.append(int(self.next()[1]))
            return Instr('insertvalue', res, t, (v, t2, w, idx))
        if op == 'freeze':
            t, v = self.tv()
            return Instr('freeze', res, t, v)
        if op == 'landingpad':
            return Instr('landingpad', res, None, None)
        if op == 'fence':
            return None
        if op in ('atomicrmw', 'cmpxchg', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
            return Instr('unsupported', res, None, op)
        raise ParseError('instr ' + op)
