"""Contracts of the tapeless forward mode: user expressions on adtl::adouble,
executed symbolically through the operators of adtl.h for any number of
directions, against the function they denote and its derivative."""
import os, re
from execu import *
import execu, build, recspec
from llparse import DOUBLE
from expr import mklin
from prover import Prover, Obl
from recspec import X, numfold, sq
from record import NAMES, close
import record

HEAD = r'''
#include <adolc/adtl.h>
#include <cmath>
#include <utility>
using adtl::adouble;
extern "C" { void h_result(double *, int); void h_bool(bool); void h_same(double *, int); void h_out(double); }
#define RES(x) h_result((x).getADValue() - 1, 0)
#define RES2(x) h_result((x).getADValue() - 1, 1)
#define BOOL(x) h_bool(x)
#define OUT(x) h_out(x)
'''
ATAN2 = lambda x: rfn('atan2', x['a'], x['b'])
PRIM = {'tan', 'sinh', 'cosh', 'tanh', 'log10'}
nz = recspec.nz


def table():
    out = []
    skip = {'ctor', 'atan2', 'independent', 'dependent', 'temporaries', 'powc', 'powc_r', 'cpow', 'pow', 'min', 'max'}
    for e in recspec.EXPRS:
        if e.param or e.name in skip or re.match(r'(c?min|c?max|abs)(c|_|$)', e.name):
            continue
        if re.match(r'ldexp', e.name) or '_eq_kept' in e.name:
            if e.name.startswith('ldexp'):
                continue
        base = e.name.split('_')[0]
        spec = e.spec
        if base in PRIM:
            spec = (lambda n: lambda x: rfn(n, x['a']))(base)
        out.append(X(e.name, e.code, spec, e.inputs, e.changed, e.kind, e.pre, e.gpre))

    def A(name, code, spec, *a, **k):
        if ';' not in code:
            code = f'{{ adouble r({code}); RES(r); }}'
        out.append(X(name, code, spec, *a, **k))
    pos = lambda x: [rlt(R0, x['a'])]
    two = rc(2)
    A('atan2', 'atan2(a, b)', ATAN2, 'ab', gpre=lambda x: [rlt(R0, radd(sq(x['a']), sq(x['b'])))])
    A('powc', 'pow(a, v)', lambda x: rfn('pow', x['a'], x['v']), pre=pos)
    A('cpow', 'pow(v, a)', lambda x: rfn('pow', x['v'], x['a']), pre=lambda x: [rlt(R0, x['v'])])
    A('pow', 'pow(a, b)', lambda x: rfn('pow', x['a'], x['b']), 'ab', pre=pos)
    A('pow_same', 'pow(a, a)', lambda x: rfn('pow', x['a'], x['a']), pre=pos)
    A('pow_own', 'a = pow(a, b); RES(a);', lambda x: rfn('pow', x['a'], x['b']), 'ab', 'a', pre=pos)
    A('ldexp', 'ldexp(a, b)', lambda x: rmul(x['a'], rfn('pow', two, x['b'])), 'ab')
    A('ldexpc', 'ldexp(a, v)', lambda x: rmul(x['a'], rfn('pow', two, x['v'])))
    A('cldexp', 'ldexp(v, a)', lambda x: rmul(x['v'], rfn('pow', two, x['a'])))
    A('not', 'BOOL(!a);', lambda x: req(x['a'], R0), kind='bool')
    A('getvalue', 'OUT(a.getValue());', lambda x: x['a'], kind='out')
    A('todouble', 'const adouble &k(a); OUT(static_cast<double const &>(k));', lambda x: x['a'], kind='out')
    def S(name, code, spec, inputs, changed, deriv):
        A(name, code, spec, inputs, changed)
        out[-1].deriv = deriv
    S('setvalue', 'a.setValue(v); RES(a);', lambda x: x['v'], 'a', 'a', lambda q: rcell('D:a', imul(8, q)))
    S('setadvalues', 'a.setADValue(b.getADValue()); RES(a);', lambda x: x['a'], 'ab', 'a', lambda q: rcell('D:b', imul(8, q)))
    S('setadvalue', 'a.setADValue(2, v); RES(a);', lambda x: x['a'], 'a', 'a', lambda q: rite(ieq(q, 3), rvar('v'), rcell('D:a', imul(8, q))))
    S('ctor_derivatives', 'adouble r(v, b.getADValue()); RES(r);', lambda x: x['v'], 'b', '', lambda q: rcell('D:b', imul(8, q)))
    A('derivative_of', 'OUT(a.getADValue(3));', lambda x: rcell('D:a', 32), kind='out')
    for n in ('fmin', 'fmax'):
        f = recspec.mn if n == 'fmin' else recspec.mx
        A(n + '_own', f'a = {n}(a, b); RES(a);', (lambda f: lambda x: f(x['a'], x['b']))(f), 'ab', 'a', gpre=lambda x: [recspec.ne(x['a'], x['b'])])
    return out


def tangent(e, dot, memo=None):
    """derivative of e when the variable x has the derivative dot[x]"""
    memo = {}

    def d(y):
        r = memo.get(y.id)
        if r is None:
            r = memo[y.id] = d1(y)
        return r

    def d1(y):
        op, a = y.op, y.args
        if y in dot:
            return dot[y]
        if op in ('radd', 'rsub'):
            return (radd if op == 'radd' else rsub)(d(a[0]), d(a[1]))
        if op == 'rneg':
            return rneg(d(a[0]))
        if op == 'rmul':
            return radd(rmul(d(a[0]), a[1]), rmul(a[0], d(a[1])))
        if op == 'rdiv':
            return rsub(rdiv(d(a[0]), a[1]), rdiv(rmul(a[0], d(a[1])), sq(a[1])))
        if op == 'rite':
            return rite(a[0], d(a[1]), d(a[2]))
        if op == 'rfn':
            n, t = a[0], a[1]
            if n == 'pow':
                return radd(rmul(rmul(a[2], rfn('pow', t, rsub(a[2], R1))), d(t)), rmul(rmul(rfn('log', t), y), d(a[2])))
            if n == 'atan2':
                return rdiv(rsub(rmul(a[2], d(t)), rmul(t, d(a[2]))), radd(sq(t), sq(a[2])))
            p = {'tan': lambda: rdiv(R1, sq(rfn('cos', t))), 'sinh': lambda: rfn('cosh', t), 'cosh': lambda: rfn('sinh', t),
                 'tanh': lambda: rdiv(R1, sq(rfn('cosh', t))),
                 'log10': lambda: rdiv(R1, rmul(rfn('log', rc(10)), t))}.get(n)
            if d(t) is R0:
                return R0
            return rmul(p() if p else recspec.dfn(n, t, a[2:]), d(t))
        return R0
    return d(e)


def source(exprs):
    t = HEAD
    for e in exprs:
        args = ', '.join(f'adouble &{n}' for n in e.inputs)
        t += f'extern "C" void h_{e.name}({args}, double v, double w) {{\n  {e.code}\n'
        for n in e.inputs:
            if n not in e.changed:
                t += f'  h_same({n}.getADValue() - 1, {NAMES.index(n)});\n'
        t += '}\n'
    return t


class Tapeless(record.Recording):
    def __init__(self, exprs, seed=1, name='tapeless'):
        self.exprs = exprs
        self.prover = Prover(seed=seed)
        self.fname = self.name = name
        src = os.path.join(build.workdir(), name + '.cpp')
        with open(src, 'w') as f:
            f.write(source(exprs))
        self.mods = [build.compile_ll(src, name=name)]
        self.N = ivar('numDir')
        self.q = ivar('dir')
        self.ex = self.executor()
        self.paths = 0

    def executor(self):
        C = {}

        def read(ex, st, p, then):
            return [(s, None) for s in then(st)]

        def result(kind):
            def f(ex, st, a, ins):
                v0 = ex.load1(st, a[0], DOUBLE)
                v1 = ex.load1(st, Ptr(a[0].obj, a[0].rows, iadd(a[0].off, imul(8, self.q))), DOUBLE)
                st.ev = st.ev + ((kind, a[0], v0, v1, a[1]),)
                return [(st, None)]
            return f

        def scalar(kind):
            def f(ex, st, a, ins):
                st.ev = st.ev + ((kind, a[0]),)
                return [(st, None)]
            return f

        def new(ex, st, a, ins):
            p = ex.alloc(st, 'ad')
            st.ev = st.ev + (('alloc', p.obj),)
            return [(st, p)]

        def free(ex, st, a, ins):
            p = [q for q in a if isinstance(q, Ptr)][-1]
            st.ev = st.ev + (('free', p.obj),)
            return [(st, None)]
        C['h_result'], C['h_same'], C['h_bool'], C['h_out'] = result('result'), result('same'), scalar('bool'), scalar('out')
        for n in ('pool::malloc', 'boost::pool::malloc', 'operator new[]'):
            C[n] = new
        for n in ('pool::free', 'boost::pool::free', 'operator delete[]'):
            C[n] = free
        C['makeNaN'] = C['adtl::makeNaN'] = lambda ex, st, a, ins: [(st, rvar('nan'))]
        C['makeInf'] = C['adtl::makeInf'] = lambda ex, st, a, ins: [(st, rvar('inf'))]
        ex = Executor(self.mods, C)
        ex.nonnull = lambda p: True
        for m in self.mods:
            for g in m.globals:
                if 'numDir' in g:
                    ex.initfn[f'g:{g}'] = lambda rows, off, ty: self.N if ty.k == 'int' else None
        for n in NAMES:
            ex.initfn['X:' + n] = (lambda n: lambda rows, off, ty: Ptr('D:' + n, (), 0) if ty.k == 'ptr' else None)(n)
        return ex

    def check(self, e):
        ex, P = self.ex, self.prover
        ex.fails, ex.unmodelled, ex.bounded = [], {}, []
        T = lambda s: f'tapeless:{e.name}:{s}'
        v, w = rvar('v'), rvar('w')
        x = {n: rcell('D:' + n, 0) for n in e.inputs}
        x.update(v=v, w=w)
        dot = {x[n]: rcell('D:' + n, imul(8, self.q)) for n in e.inputs}
        for n in e.inputs:
            x[n + ':const'] = x[n]
        st = State()
        for c in (ile(1, self.N), ile(1, self.q), ile(self.q, self.N)):
            st.assume(c)
        if e.name in ('derivative_of', 'setadvalue'):
            st.assume(ile(4, self.N))
        pre = list(e.pre(x)) if e.pre else []
        for p in pre:
            st.assume(p)
        paths = ex.call_function(st, ex.fn_index['@h_' + e.name], [Ptr('X:' + n, (), 0) for n in e.inputs] + [v, w])
        self.paths += len(paths)
        for what, ok in (('calls', ex.unmodelled), ('loops', ex.bounded)):
            if ok:
                P.obls.append(Obl(T(what), 'unknown', 'structural', 0, f'{ok}'))
        for pc, what in ex.fails:
            P.holds(T(f'no-failure {what}'), False, list(pc), f'{what} reached under {[show(c) for c in pc]}')
        if not paths:
            P.holds(T('paths'), False, [], 'no path returns')
        smooth = list(e.gpre(x)) if e.gpre else []
        want = e.spec(x)
        wants = want if isinstance(want, (list, tuple)) else [want]
        for s, _ in paths:
            pc, ev = list(s.pc), list(s.ev)
            live, bad = set(), []
            for q in ev:
                if q[0] == 'alloc':
                    live.add(q[1])
                elif q[0] == 'free':
                    if q[1] not in live:
                        bad.append(f'{q[1]} released twice or not owned')
                    live.discard(q[1])
            P.holds(T('memory'), not bad and not live, pc, f'{bad}, not released {live}')
            self.bounds(T('memory-bounds'), s, pc)
            if e.kind == 'bool':
                got = [q[1] for q in ev if q[0] == 'bool'][0]
                got = got if isinstance(got, (E, bool)) and not (isinstance(got, E) and got.sort == 'I') else ieq(got, 1)
                self.boolean(T('value'), pc, got, want)
            elif e.kind == 'out':
                self.prove(T('value[0]'), pc, [q[1] for q in ev if q[0] == 'out'][0], want)
            else:
                res = {q[4]: q for q in ev if q[0] == 'result'}
                for i, wv in enumerate(wants):
                    self.prove(T(f'value[{i}]'), pc, res[i][2], wv)
                    wd = e.deriv(self.q) if hasattr(e, 'deriv') else tangent(wv, dot)
                    if all(P_true(ex, s, c) for c in smooth):
                        got = res[i][3]
                        if ex.decide(s, ieq(self.q, 1)) is True:
                            got, wd = (subst(t, {the_atom(self.q): 1}) for t in (got, wd))
                        self.prove(T(f'derivative[{i}]'), pc + smooth, got, wd)
            for q in ev:
                if q[0] == 'same':
                    n = NAMES[q[4]]
                    P.prove(T(f'operand-value[{n}]'), pc, q[2], x[n])
                    P.prove(T(f'operand-derivative[{n}]'), pc, q[3], dot[x[n]])

    def bounds(self, name, s, pc):
        """every store into a derivative array stays inside it"""
        for obj, (base, log) in s.mem.items():
            if not (obj.startswith('ad.') or obj.startswith('D:')):
                continue
            for k in base:
                self.prover.holds(name, band(ile(0, k[1]), ile(k[1], imul(8, self.N))), [c for c in pc if isinstance(c, E)], f'{obj}: store at {k}')
            while log is not None:
                wr, log = log
                if isinstance(wr, W):
                    g = [wr.guard] if isinstance(wr.guard, E) else []
                    for v, lo, hi in wr.vars:
                        g += [c for c in (ile(lo, mklin(0, {v: 1})), ilt(mklin(0, {v: 1}), hi)) if isinstance(c, E)]
                    if wr.guard is False:
                        continue
                    self.prover.holds(name, band(ile(0, wr.off), ile(wr.off, imul(8, self.N))), [c for c in pc if isinstance(c, E)] + g, f'{obj}: store at {wr!r}')
                else:
                    self.prover.holds(name, False, pc, f'{obj}: {wr!r}')


def P_true(ex, s, c):
    return ex.decide(s, c) is not False


EXPRS = table()
