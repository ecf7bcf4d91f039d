"""What user expressions on active variables mean: the expression as a user
writes it (compiled against /repo) and the function it denotes, written from
the mathematical definition."""
import math
from fractions import Fraction
from expr import *

EXPRS = []
HALF = rc(Fraction(1, 2))
ONE = R1
TWO = rc(2)


class X:
    def __init__(self, name, code, spec, inputs='a', changed='', kind='value', pre=None, gpre=None, param=False):
        self.name, self.code, self.spec, self.inputs, self.changed = name, code, spec, inputs, changed
        self.kind, self.pre, self.gpre, self.param = kind, pre, gpre, param


def X_(name, code, spec, *a, **k):
    if ';' not in code:
        code = f'{{ adouble r({code}); RES(r); }}'
    EXPRS.append(X(name, code, spec, *a, **k))


def sq(t):
    return rmul(t, t)


def fn(n):
    return lambda t: rfn(n, t)


mv = lambda n: f'std::move({n})'
nz = lambda t: bnot(req(t, R0))
ne = lambda s, t: bnot(req(s, t))

# ------------------------------------------------------------ + - * /
for nm, sym, f in (('add', '+', radd), ('sub', '-', rsub), ('mul', '*', rmul), ('div', '/', rdiv)):
    dv = nm == 'div'
    pre = (lambda x: [nz(x['b'])]) if dv else None
    ab = (lambda f: lambda x: f(x['a'], x['b']))(f)
    X_(nm, f'a {sym} b', ab, 'ab', pre=pre)
    X_(nm + '_rl', f'{mv("a")} {sym} b', ab, 'ab', 'a', pre=pre)
    X_(nm + '_lr', f'a {sym} {mv("b")}', ab, 'ab', 'b', pre=pre)
    X_(nm + '_rr', f'{mv("a")} {sym} {mv("b")}', ab, 'ab', 'ab', pre=pre)
    X_(nm + '_same', f'a {sym} a', (lambda f: lambda x: f(x['a'], x['a']))(f), pre=(lambda x: [nz(x['a'])]) if dv else None)
    cp = (lambda x: [nz(x['a'])]) if dv else None
    va = (lambda f: lambda x: f(x['v'], x['a']))(f)
    av = (lambda f: lambda x: f(x['a'], x['v']))(f)
    X_('c' + nm, f'v {sym} a', va, pre=cp)
    X_('c' + nm + '_r', f'v {sym} {mv("a")}', va, 'a', 'a', pre=cp)
    vp = (lambda x: [nz(x['v'])]) if dv else None
    X_(nm + 'c', f'a {sym} v', av, pre=vp)
    X_(nm + 'c_r', f'{mv("a")} {sym} v', av, 'a', 'a', pre=vp)
    # compound
    X_(nm + '_eq', f'a {sym}= b; RES(a);', ab, 'ab', 'a', pre=pre)
    X_(nm + '_eq_r', f'a {sym}= {mv("b")}; RES(a);', ab, 'ab', 'ab', pre=pre)
    X_(nm + '_eq_c', f'a {sym}= v; RES(a);', av, 'a', 'a', pre=vp)
    X_(nm + '_eq_same', f'a {sym}= a; RES(a);', (lambda f: lambda x: f(x['a'], x['a']))(f), 'a', 'a', pre=(lambda x: [nz(x['a'])]) if dv else None)
    if not dv:
        X_(nm + '_eq_prod', f'a {sym}= b * c; RES(a);', (lambda f: lambda x: f(x['a'], rmul(x['b'], x['c'])))(f), 'abc', 'a')
        X_(nm + '_eq_square', f'a {sym}= b * b; RES(a);', (lambda f: lambda x: f(x['a'], rmul(x['b'], x['b'])))(f), 'ab', 'a')
        X_(nm + '_eq_ownprod', f'a {sym}= a * b; RES(a);', (lambda f: lambda x: f(x['a'], rmul(x['a'], x['b'])))(f), 'ab', 'a')
        X_(nm + '_eq_ownprod2', f'a {sym}= b * a; RES(a);', (lambda f: lambda x: f(x['a'], rmul(x['a'], x['b'])))(f), 'ab', 'a')
        X_(nm + '_eq_prodsum', f'a {sym}= b * c + b; RES(a);', (lambda f: lambda x: f(x['a'], radd(rmul(x['b'], x['c']), x['b'])))(f), 'abc', 'a')
        X_(nm + '_eq_sum', f'a {sym}= b + c; RES(a);', (lambda f: lambda x: f(x['a'], radd(x['b'], x['c'])))(f), 'abc', 'a')
        X_(nm + '_eq_kept_prod', f'adouble t(b * c); a {sym}= t; RES(a); RES2(t);',
           (lambda f: lambda x: [f(x['a'], rmul(x['b'], x['c'])), rmul(x['b'], x['c'])])(f), 'abc', 'a')
    # parameters
    X_('p' + nm, f'p {sym} a', va, 'a', param=True, pre=cp)
    X_('p' + nm + '_r', f'p {sym} {mv("a")}', va, 'a', 'a', param=True, pre=cp)
    pp = (lambda x: [nz(x['v'])]) if dv else None
    X_(nm + 'p', f'a {sym} p', av, 'a', param=True, pre=pp)
    X_(nm + 'p_r', f'{mv("a")} {sym} p', av, 'a', 'a', param=True, pre=pp)
    X_(nm + '_eq_p', f'a {sym}= p; RES(a);', av, 'a', 'a', param=True, pre=pp)
    X_('p' + nm + 'c', f'p {sym} w', (lambda f: lambda x: f(x['v'], x['w']))(f), 'a', param=True, pre=(lambda x: [nz(x['w'])]) if dv else None)
    X_('c' + nm + 'p', f'w {sym} p', (lambda f: lambda x: f(x['w'], x['v']))(f), 'a', param=True, pre=pp)
X_('neg', '-a', lambda x: rneg(x['a']))
X_('neg_r', f'-{mv("a")}', lambda x: rneg(x['a']), 'a', 'a')
X_('pos', '+a', lambda x: x['a'])
X_('pos_r', f'+{mv("a")}', lambda x: x['a'], 'a', 'a')
X_('neg_p', '-p', lambda x: rneg(x['v']), 'a', param=True)
X_('preinc', '++a; RES(a);', lambda x: radd(x['a'], ONE), 'a', 'a')
X_('predec', '--a; RES(a);', lambda x: rsub(x['a'], ONE), 'a', 'a')
X_('postinc', 'adouble r(a++); RES(r); RES2(a);', lambda x: [x['a'], radd(x['a'], ONE)], 'a', 'a')
X_('postdec', 'adouble r(a--); RES(r); RES2(a);', lambda x: [x['a'], rsub(x['a'], ONE)], 'a', 'a')
# ------------------------------------------------------------ construction, assignment
X_('ctor', '{ adouble r; RES(r); }', lambda x: R0)
X_('ctor_c', 'v', lambda x: x['v'])
X_('ctor_a', 'a', lambda x: x['a'])
X_('ctor_move', mv('a'), lambda x: x['a'], 'a', 'a')
X_('ctor_p', '{ adouble r = adouble(p); RES(r); }', lambda x: x['v'], 'a', param=True)
X_('assign_c', 'a = v; RES(a);', lambda x: x['v'], 'a', 'a')
X_('assign_a', 'a = b; RES(a);', lambda x: x['b'], 'ab', 'a')
X_('assign_own', 'a = a; RES(a);', lambda x: x['a'], 'a', 'a')
X_('assign_move', f'a = {mv("b")}; RES(a);', lambda x: x['b'], 'ab', 'ab')
X_('assign_expr', 'a = b + c; RES(a);', lambda x: radd(x['b'], x['c']), 'abc', 'a')
X_('assign_ownexpr', 'a = a * b; RES(a);', lambda x: rmul(x['a'], x['b']), 'ab', 'a')
X_('assign_p', 'a = p; RES(a);', lambda x: x['v'], 'a', 'a', param=True)
X_('swap', f'adouble t({mv("a")}); a = {mv("b")}; b = {mv("t")}; RES(a); RES2(b);', lambda x: [x['b'], x['a']], 'ab', 'ab')
X_('chain', 'a = b = c; RES(a); RES2(b);', lambda x: [x['c'], x['c']], 'abc', 'ab')
X_('temporaries', '(a + b) * (a - c) / (b * c)', lambda x: rdiv(rmul(radd(x['a'], x['b']), rsub(x['a'], x['c'])), rmul(x['b'], x['c'])), 'abc',
   pre=lambda x: [nz(x['b']), nz(x['c'])])
X_('to_double', 'OUT(double(a + b) + a.value()); a >>= v; ', lambda x: x['a'], 'a') if False else None
X_('independent', 'a <<= v; RES(a);', lambda x: x['v'], 'a', 'a', kind='ind')
X_('dependent', 'double o; a >>= o; OUT(o);', lambda x: x['a'], 'a', kind='out')
# ------------------------------------------------------------ functions
E_ = lambda t: rfn('exp', t)
S_ = lambda t: rfn('sqrt', t)
pos = lambda x: [rlt(R0, x['a'])]
open1 = lambda x: [rlt(rc(-1), x['a']), rlt(x['a'], R1)]
FUN = {
    'exp': (fn('exp'), None), 'log': (fn('log'), pos), 'sqrt': (fn('sqrt'), pos), 'cbrt': (fn('cbrt'), lambda x: [nz(x['a'])]),
    'sin': (fn('sin'), None), 'cos': (fn('cos'), None), 'tan': (lambda t: rdiv(rfn('sin', t), rfn('cos', t)), None),
    'asin': (fn('asin'), open1), 'acos': (fn('acos'), open1), 'atan': (fn('atan'), None),
    'sinh': (lambda t: rmul(HALF, rsub(E_(t), rdiv(R1, E_(t)))), None), 'cosh': (lambda t: rmul(HALF, radd(E_(t), rdiv(R1, E_(t)))), None),
    'tanh': (lambda t: rdiv(rsub(sq(E_(t)), R1), radd(sq(E_(t)), R1)), None),
    'asinh': (fn('asinh'), None), 'acosh': (fn('acosh'), lambda x: [rlt(R1, x['a'])]), 'atanh': (fn('atanh'), open1),
    'erf': (fn('erf'), None), 'erfc': (fn('erfc'), None), 'ceil': (fn('ceil'), None), 'floor': (fn('floor'), None),
    'log10': (lambda t: rdiv(rfn('log', t), rfn('log', rc(10))), pos),
}
for n, (f, pre) in FUN.items():
    g = (lambda f: lambda x: f(x['a']))(f)
    X_(n, f'{n}(a)', g, pre=pre)
    X_(n + '_r', f'{n}({mv("a")})', g, 'a', 'a', pre=pre)
    X_(n + '_own', f'a = {n}(a); RES(a);', g, 'a', 'a', pre=pre)
ab_ = lambda x: rite(rlt(x['a'], R0), rneg(x['a']), x['a'])
for n in ('fabs', 'abs'):
    X_(n, f'{n}(a)', ab_, gpre=lambda x: [nz(x['a'])])
    X_(n + '_r', f'{n}({mv("a")})', ab_, 'a', 'a', gpre=lambda x: [nz(x['a'])])
mn = lambda s, t: rite(rlt(t, s), t, s)
mx = lambda s, t: rite(rlt(s, t), t, s)
for n, f in (('fmin', mn), ('fmax', mx), ('min', mn), ('max', mx)):
    ab = (lambda f: lambda x: f(x['a'], x['b']))(f)
    gp = lambda x: [ne(x['a'], x['b'])]
    X_(n, f'{n}(a, b)', ab, 'ab', gpre=gp)
    X_(n + '_rl', f'{n}({mv("a")}, b)', ab, 'ab', 'a', gpre=gp)
    X_(n + '_lr', f'{n}(a, {mv("b")})', ab, 'ab', 'b', gpre=gp)
    X_(n + '_rr', f'{n}({mv("a")}, {mv("b")})', ab, 'ab', 'ab', gpre=gp)
    av = (lambda f: lambda x: f(x['a'], x['v']))(f)
    gv = lambda x: [ne(x['a'], x['v'])]
    X_(n + 'c', f'{n}(a, v)', av, gpre=gv)
    X_('c' + n, f'{n}(v, a)', av, gpre=gv)
    X_(n + 'c_r', f'{n}({mv("a")}, v)', av, 'a', 'a', gpre=gv)
    X_('c' + n + '_r', f'{n}(v, {mv("a")})', av, 'a', 'a', gpre=gv)
pw = lambda x: rfn('pow', x['a'], x['v'])
X_('powc', 'pow(a, v)', pw, pre=pos)
X_('powc_r', f'pow({mv("a")}, v)', pw, 'a', 'a', pre=pos)
X_('cpow', 'pow(v, a)', lambda x: E_(rmul(x['a'], rfn('log', x['v']))), pre=lambda x: [rlt(R0, x['v'])])
X_('pow', 'pow(a, b)', lambda x: E_(rmul(x['b'], rfn('log', x['a']))), 'ab', pre=pos)
pih = rfn('asin', R1)
at = lambda t: rfn('atan', t)


def atan2(x):
    a, b = x['a'], x['b']
    ge = rle(R0, a)
    absa, absb = ab_({'a': a}), ab_({'a': b})
    s = rite(ge, pih, rneg(pih))
    return rite(rlt(absa, absb), rite(rlt(R0, b), at(rdiv(a, b)), radd(at(rdiv(a, b)), rmul(TWO, s))), rsub(s, at(rdiv(b, a))))


X_('atan2', 'atan2(a, b)', atan2, 'ab', pre=lambda x: [nz(x['b'])], gpre=lambda x: [nz(x['a']), nz(x['b'])])
X_('ldexp', 'ldexp(a, 5)', lambda x: rmul(rc(32), x['a']))
X_('ldexp_r', f'ldexp({mv("a")}, -3)', lambda x: rmul(rc(Fraction(1, 8)), x['a']), 'a', 'a')
# ------------------------------------------------------------ conditional assignments
for n, c in (('condassign', lambda t: rlt(R0, t)), ('condeqassign', lambda t: rle(R0, t))):
    if4 = (lambda c: lambda k, p, q: lambda x: rite(c(x[k]), x[p], x[q]))(c)
    X_(n, f'adouble r(v); {n}(r, a, b, c); RES(r);', if4('a', 'b', 'c'), 'abc')
    X_(n + '_res_cond', f'{n}(a, a, b, c); RES(a);', if4('a', 'b', 'c'), 'abc', 'a')
    X_(n + '_res_then', f'{n}(b, a, b, c); RES(b);', if4('a', 'b', 'c'), 'abc', 'b')
    X_(n + '_res_else', f'{n}(c, a, b, c); RES(c);', if4('a', 'b', 'c'), 'abc', 'c')
    X_(n + '_cond_then', f'adouble r(v); {n}(r, a, a, c); RES(r);', if4('a', 'a', 'c'), 'ac')
    X_(n + '3', f'{n}(a, b, c); RES(a);', if4('b', 'c', 'a'), 'abc', 'a')
    X_(n + '3_res_cond', f'{n}(a, a, c); RES(a);', if4('a', 'c', 'a'), 'ac', 'a')
    X_(n + '3_res_then', f'{n}(a, b, a); RES(a);', if4('b', 'a', 'a'), 'ab', 'a')
    X_(n + '_temps', f'adouble r(v); {n}(r, a - b, a * b, b + c); RES(r);',
       (lambda c: lambda x: rite(c(rsub(x['a'], x['b'])), rmul(x['a'], x['b']), radd(x['b'], x['c'])))(c), 'abc')
# ------------------------------------------------------------ comparisons
CMP = {'lt': ('<', rlt), 'le': ('<=', rle), 'gt': ('>', lambda s, t: rlt(t, s)), 'ge': ('>=', lambda s, t: rle(t, s)),
       'eq': ('==', req), 'ne': ('!=', lambda s, t: bnot(req(s, t)))}
for n, (sym, f) in CMP.items():
    X_(n + 'c', f'BOOL(a {sym} v);', (lambda f: lambda x: f(x['a'], x['v']))(f), kind='bool')
    X_('c' + n, f'BOOL(v {sym} a);', (lambda f: lambda x: f(x['v'], x['a']))(f), kind='bool')
    X_(n, f'BOOL(a {sym} b);', (lambda f: lambda x: f(x['a'], x['b']))(f), 'ab', kind='bool')
    X_(n + '0', f'BOOL(a {sym} 0.0);', (lambda f: lambda x: f(x['a'], R0))(f), kind='bool')
EXPRS = [e for e in EXPRS if e is not None]


# ------------------------------------------------------------ calculus
def dfn(name, a, rest):
    t = a
    if name == 'exp':
        return rfn('exp', t)
    if name == 'log':
        return rdiv(R1, t)
    if name == 'sqrt':
        return rdiv(HALF, rfn('sqrt', t))
    if name == 'cbrt':
        return rdiv(R1, rmul(rc(3), sq(rfn('cbrt', t))))
    if name == 'sin':
        return rfn('cos', t)
    if name == 'cos':
        return rneg(rfn('sin', t))
    if name in ('asin', 'acos'):
        d = rdiv(R1, rfn('sqrt', rsub(R1, sq(t))))
        return d if name == 'asin' else rneg(d)
    if name == 'atan':
        return rdiv(R1, radd(R1, sq(t)))
    if name == 'asinh':
        return rdiv(R1, rfn('sqrt', radd(R1, sq(t))))
    if name == 'acosh':
        return rdiv(R1, rfn('sqrt', rsub(sq(t), R1)))
    if name == 'atanh':
        return rdiv(R1, rsub(R1, sq(t)))
    if name in ('erf', 'erfc'):
        d = rmul(rdiv(TWO, rfn('sqrt', rfn('acos', rc(-1)))), rfn('exp', rneg(sq(t))))
        return d if name == 'erf' else rneg(d)
    if name in ('ceil', 'floor'):
        return R0
    if name == 'pow':
        return rdiv(rmul(rest[0], rfn('pow', t, rest[0])), t)
    raise KeyError(name)


def diff(e, v):
    """derivative of e with respect to the variable v"""
    memo = {}

    def d(y):
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = d1(y)
        return r

    def d1(y):
        op, a = y.op, y.args
        if y is v:
            return R1
        if op in ('radd', 'rsub'):
            return (radd if op == 'radd' else rsub)(d(a[0]), d(a[1]))
        if op == 'rneg':
            return rneg(d(a[0]))
        if op == 'rmul':
            return radd(rmul(d(a[0]), a[1]), rmul(a[0], d(a[1])))
        if op == 'rdiv':
            return rsub(rdiv(d(a[0]), a[1]), rdiv(rmul(a[0], d(a[1])), sq(a[1])))
        if op == 'rite':
            return rite(a[0], d(a[1]), d(a[2]))
        if op == 'rfn':
            in_ = d(a[1])
            if in_ is R0:
                return R0
            return rmul(dfn(a[0], a[1], a[2:]), in_)
        return R0
    return d(e)


NUM = {n: getattr(math, n) for n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'asin', 'acos', 'atan', 'erf', 'erfc')}


def numfold(e):
    """constant function values as numbers; exp(-t) as 1/exp(t), exp(2t) as exp(t)^2"""
    memo = {}

    def cond(c):
        if not isinstance(c, E) or c.op not in ('not', 'and', 'or', 'rlt', 'req'):
            return c
        return rebuild(c, [go(q) if isinstance(q, E) else q for q in c.args])

    def go(y):
        if not isinstance(y, E) or y.sort == 'I':
            return y
        if y.sort == 'B':
            return cond(y)
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = go1(y)
        return r

    def go1(y):
        if y.op in ('rc', 'rv', 'cell') or not any(isinstance(q, E) for q in y.args):
            return y
        if y.op not in ('radd', 'rsub', 'rmul', 'rdiv', 'rneg', 'rite', 'rfn'):
            return y
        a = [go(q) for q in y.args]
        if y.op == 'rfn' and a[0] in NUM and a[1].op == 'rc':
            try:
                return rc(Fraction(NUM[a[0]](float(a[1].args[0]))))
            except ValueError:
                pass
        if y.op == 'rfn' and a[0] == 'exp':
            p = pnorm(a[1])
            if len(p) == 1:
                (m, c), = p.items()
                if c.denominator == 1 and c != 1 and abs(c) <= 4 and m:
                    b = rfn('exp', frompoly({m: Fraction(1)}))
                    t = b
                    for _ in range(abs(int(c)) - 1):
                        t = rmul(t, b)
                    return t if c > 0 else rdiv(R1, t)
        return rebuild(y, a)
    return go(e)
