"""Contracts of the recording side: every overloaded operator and function on
active variables, executed symbolically from the code of /repo (the operators
of adouble.cpp, pdouble.cpp and the inline operators of adtb_types.h), with the
tape and the location manager as ghost state.  The records that are written are
replayed with the contracts of the tape operations (specs.py) at fresh values."""
import os
from fractions import Fraction
from execu import *
import execu, build, specs
from specs import OPS, opcodes
from prover import Prover, Obl
from recspec import EXPRS, diff, numfold

HEAD = r'''
#include <adolc/adtb_types.h>
#include <adolc/oplate.h>
#include <adolc/valuetape/valuetape.h>
#include <cmath>
#include <utility>
extern "C" { void h_input(size_t, int); void h_result(size_t, int); void h_bool(bool); void h_same(size_t, int); void h_begin();
void h_param(size_t, int); void h_out(double); }
extern "C" int h_write() { return (int)TapeInfos::WRITE_ACCESS; }
#define RES(x) h_result((x).loc(), 0)
#define RES2(x) h_result((x).loc(), 1)
#define BOOL(x) h_bool(x)
#define OUT(x) h_out(x)
'''
NAMES = 'abc'


def source(exprs):
    t = HEAD
    for e in exprs:
        t += f'extern "C" void h_{e.name}(double v, double w) {{\n'
        for n in e.inputs:
            t += f'  adouble {n}; h_input({n}.loc(), {NAMES.index(n)});\n'
        if e.param:
            t += '  pdouble p(v); h_param(p.loc(), 0);\n'
        t += f'  h_begin();\n  {e.code}\n'
        for n in e.inputs:
            if n not in e.changed:
                t += f'  h_same({n}.loc(), {NAMES.index(n)});\n'
        t += '}\n'
    return t


def evs(st, *kinds):
    return [e for e in st.ev if e[0] in kinds]


class Rec:
    """contracts of the tape and the location manager during recording"""

    def __init__(self):
        self.n = 0

    def loc(self, pfx='L'):
        self.n += 1
        v = ivar(f'{pfx}{self.n}')
        declare_distinct([v], 'reclocs' + pfx)
        return v

    def ev(self, st, *e):
        st.ev = st.ev + (e,)

    def value(self, st, loc):
        for e in reversed(st.ev):
            if e[0] == 'set' and e[1] is loc:
                return e[2]
        return rcell('STORE', loc)

    def need(self, loc):
        if not (isinstance(loc, E) and is_atom(loc) and the_atom(loc).op == 'iv'):
            raise Unsupported(f'location {loc!r}')
        return loc

    def contracts(self):
        T = Ptr('TAPE', (), 0)
        C = {}

        def c(name):
            def d(f):
                C[name] = f
                return f
            return d

        C['currentTape'] = C['currentTapePtr'] = lambda ex, st, a, ins: [(st, T)]
        C['ValueTape::workMode'] = lambda ex, st, a, ins: [(st, ivar('mode'))] if ins.ty.k == 'int' else NotImplemented
        C['ValueTape::keepTaylors'] = lambda ex, st, a, ins: [(st, ivar('keep'))] if ins.ty.k == 'int' else NotImplemented

        @c('ValueTape::next_loc')
        def _(ex, st, a, ins):
            l = self.loc()
            self.ev(st, 'alloc', l)
            return [(st, l)]

        @c('ValueTape::p_next_loc')
        def _(ex, st, a, ins):
            l = self.loc('P')
            return [(st, l)]

        @c('ValueTape::free_loc')
        def _(ex, st, a, ins):
            self.ev(st, 'free', self.need(a[1]))
            return [(st, None)]

        @c('ValueTape::get_ad_value')
        def _(ex, st, a, ins):
            self.ev(st, 'use', self.need(a[1]))
            return [(st, self.value(st, a[1]))]

        @c('ValueTape::set_ad_value')
        def _(ex, st, a, ins):
            self.ev(st, 'set', self.need(a[1]), a[2])
            return [(st, None)]

        @c('ValueTape::get_pd_value')
        def _(ex, st, a, ins):
            for e in reversed(st.ev):
                if e[0] == 'pset' and e[1] is a[1]:
                    return [(st, e[2])]
            return [(st, rcell('PSTORE', a[1]))]

        @c('ValueTape::set_pd_value')
        def _(ex, st, a, ins):
            self.ev(st, 'pset', a[1], a[2])
            return [(st, None)]

        def fork(ex, st, v):
            """constant alternatives of a value"""
            if not isinstance(v, E):
                return [(st, v)]
            cnd = first_cond(v)
            if cnd is None:
                return [(st, v)]
            out = []
            for cc, val in ((cnd, True), (bnot(cnd), False)):
                s2 = st.copy()
                s2.assume(cc)
                if not ex.feasible(s2):
                    continue
                out += fork(ex, s2, subst(v, {cnd: val}) if False else execu_cond(v, cnd, val))
            return out

        @c('ValueTape::put_op')
        def _(ex, st, a, ins):
            out = []
            for s, o in fork(ex, st, a[1]):
                self.ev(s, 'op', o)
                out.append((s, None))
            return out

        @c('ValueTape::put_loc')
        def _(ex, st, a, ins):
            out = []
            for s, l in fork(ex, st, a[1]):
                self.ev(s, 'loc', l)
                out.append((s, None))
            return out

        def put(kind, k=1):
            def f(ex, st, a, ins):
                self.ev(st, kind, a[k])
                return [(st, None)]
            return f

        C['ValueTape::put_val'] = put('val')
        C['ValueTape::write_scaylor'] = put('push')

        def count(kind, by=None):
            def f(ex, st, a, ins):
                self.ev(st, kind, a[1] if by is None else by)
                return [(st, None)]
            return f
        C['ValueTape::increment_numTays_Tape'] = count('ntay', 1)
        C['ValueTape::decrement_numTays_Tape'] = count('ntay', -1)
        C['ValueTape::add_numTays_Tape'] = count('ntay')
        C['ValueTape::increment_num_eq_prod'] = count('neqprod', 1)
        C['ValueTape::increment_numInds'] = count('ninds', 1)
        C['ValueTape::increment_numDeps'] = count('ndeps', 1)
        C['ValueTape::increment_numSwitches'] = count('nswitch', 1)

        @c('ValueTape::delete_scaylor')
        def _(ex, st, a, ins):
            for i in range(len(st.ev) - 1, -1, -1):
                if st.ev[i][0] == 'push':
                    v = st.ev[i][1]
                    st.ev = st.ev[:i] + st.ev[i + 1:] + (('popset', a[1], v),)
                    break
            else:
                self.ev(st, 'fail', 'delete_scaylor on an empty stack')
                return [(st, None)]
            self.ev(st, 'set', self.need(a[1]), v)
            return [(st, None)]

        @c('ValueTape::upd_resloc_inc_prod')
        def _(ex, st, a, ins):
            temp, new, op = a[1], a[2], a[3]
            locs = [(i, e[1]) for i, e in enumerate(st.ev) if e[0] == 'loc']
            ops = [(i, e[1]) for i, e in enumerate(st.ev) if e[0] == 'op']
            out = [(st, 0)]
            if ops and len(locs) >= 3 and ops[-1][1] == opcodes()['mult_a_a'] and locs[-1][1] is temp \
                    and new is not locs[-2][1] and new is not locs[-3][1]:
                s2 = st.copy()
                e = list(s2.ev)
                e[ops[-1][0]] = ('op', op)
                e[locs[-1][0]] = ('loc', new)
                s2.ev = tuple(e)
                out.append((s2, 1))
            return out

        @c('ldexp')
        def _(ex, st, a, ins):
            if isinstance(a[1], int) and a[0].op == 'rc':
                return [(st, rc(a[0].args[0] * Fraction(2) ** a[1]))]
            return NotImplemented

        # ---- harness
        @c('h_input')
        def _(ex, st, a, ins):
            self.ev(st, 'input', self.need(a[0]), a[1])
            self.ev(st, 'set', a[0], rvar('x:' + NAMES[a[1]]))
            return [(st, None)]

        @c('h_param')
        def _(ex, st, a, ins):
            self.ev(st, 'param', a[0])
            return [(st, None)]

        @c('h_result')
        def _(ex, st, a, ins):
            self.ev(st, 'result', self.need(a[0]), self.value(st, a[0]), a[1])
            return [(st, None)]

        @c('h_same')
        def _(ex, st, a, ins):
            self.ev(st, 'same', self.need(a[0]), self.value(st, a[0]), a[1])
            return [(st, None)]
        C['h_bool'] = put('bool', 0)
        C['h_out'] = put('out', 0)

        @c('h_begin')
        def _(ex, st, a, ins):
            self.ev(st, 'begin')
            return [(st, None)]
        return C


def execu_cond(v, cnd, val):
    """v with the condition cnd decided"""
    return map_conds(v, lambda c: val if c is cnd else ((not val) if c is bnot(cnd) else c))


def close(a, b):
    """the same polynomial up to rounding of the numerical constants"""
    p, q = pnorm(a), pnorm(b)
    return set(p) == set(q) and all(abs(p[m] - q[m]) <= abs(q[m]) * Fraction(1, 10 ** 13) for m in p)


def rounded(e):
    """constants that are no short fractions rounded to 12 digits"""
    m = {}

    def go(y):
        if isinstance(y, E) and y.id not in m:
            m[y.id] = y
            if y.op == 'rc':
                c = y.args[0]
                if c.denominator > 10 ** 6:
                    m[y.id] = rc(Fraction(f'{float(c):.12g}'))
            elif any(isinstance(a, E) for a in y.args) and y.sort == 'R' and y.op in ('radd', 'rsub', 'rmul', 'rdiv', 'rneg', 'rite', 'rfn'):
                m[y.id] = rebuild(y, [go(a) if isinstance(a, E) and a.sort == 'R' else a for a in y.args])
        return m[y.id] if isinstance(y, E) else y
    return go(e)


class Replay:
    """execution of the written records on symbolic values"""

    def __init__(self, init, grads):
        self.v = dict(init)
        self.g = {l: dict(d) for l, d in grads.items()}
        self.pushes = []
        self.branches = []
        self.codes = []
        self.pres = []
        self.deps = []
        self.params = {}

    def val(self, l):
        return self.v[l] if l in self.v else rcell('STORE', l)

    def grad(self, l):
        return self.g.get(l, {})

    def step(self, name, locs, vals, tag):
        if name == 'assign_p':
            p, r = locs
            self.pushes.append(self.val(r))
            self.v[r], self.g[r] = self.params.get(p, rcell('PARAM', p)), {}
            return
        if name == 'assign_ind':
            r = locs[0]
            self.pushes.append(self.val(r))
            self.v[r] = rvar(tag + ':ind')
            self.g[r] = {'ind': R1}
            return
        if name == 'assign_dep':
            self.deps.append(locs[0])
            return
        o = OPS[name]
        m = dict(zip(o.locs, locs))
        x = {r: self.val(l) for r, l in m.items()}
        if o.pre:
            self.pres += list(o.pre(x, vals))
        if o.branch:
            self.branches.append(o.branch(x, vals))
            return
        if o.ret:
            self.codes.append((name, o.ret(x, vals, 3), x.get('c')))
        val = o.value(x, vals)
        d = o.partials(x, vals)
        g = {}
        for r, p in d.items():
            for w, q in self.grad(m[r]).items():
                t = rmul(p, q)
                g[w] = radd(g[w], t) if w in g else t
        new = [(m[o.out], val, g)]
        if o.aux:
            r, f, df = o.aux
            ag = {}
            for q, p in df(x, vals).items():
                for w, z in self.grad(m[q]).items():
                    ag[w] = radd(ag.get(w, R0), rmul(p, z))
            self.pushes.append(self.val(m[r]))
            new.insert(0, (m[r], f(x, vals), ag))
        if o.keep:
            self.pushes.append(self.val(m[o.out]))
        for l, a, b in new:
            self.v[l] = a
            self.g[l] = b


SPECIAL = {'assign_p': (2, 0), 'assign_ind': (1, 0), 'assign_dep': (1, 0)}


class Recording:
    def __init__(self, exprs, seed=1, name='record'):
        self.exprs = exprs
        self.prover = Prover(seed=seed)
        self.fname = name
        self.name = name
        src = os.path.join(build.workdir(), name + '.cpp')
        with open(src, 'w') as f:
            f.write(source(exprs))
        mods = [build.compile_ll(src, name=name)] + [build.compile_ll(s) for s in ('adouble.cpp', 'pdouble.cpp')]
        self.rec = Rec()
        self.mods = mods
        self.ex = self.executor()
        self.opname = {i: n for n, i in opcodes().items()}
        self.paths = 0
        r = self.ex.call_function(State(), self.ex.fn_index['@h_write'], [])
        self.WRITE = r[0][1]

    def executor(self):
        ex = Executor(self.mods, self.rec.contracts())
        ex.nonnull = lambda p: True
        return ex

    # ------------------------------------------------------------ one expression
    def check(self, e):
        ex = self.ex
        ex.fails, ex.unmodelled, ex.bounded = [], {}, []
        P = self.prover
        v, w = rvar('v'), rvar('w')
        T = lambda s: f'recording:{e.name}:{s}'
        x = {n: rvar('x:' + n) for n in e.inputs}
        x.update(v=v, w=w)
        pre = list(e.pre(x)) if e.pre else []
        st = State()
        for p in pre:
            st.assume(p)
        paths = ex.call_function(st, ex.fn_index['@h_' + e.name], [v, w])
        self.paths += len(paths)
        for what, ok in (('calls', ex.unmodelled), ('loops', ex.bounded)):
            if ok:
                P.obls.append(Obl(T(what), 'unknown', 'structural', 0, f'{ok}'))
        for i, (pc, what) in enumerate(ex.fails):
            P.holds(T(f'no-failure {what}'), False, list(pc), f'{what} reached under {[show(c) for c in pc]}')
        if not paths:
            P.holds(T('paths'), False, [], 'no path returns')
        for k, (s, _) in enumerate(paths):
            try:
                self.path(e, s, x)
            except (Unsupported, KeyError, TypeError, ValueError) as err:
                import traceback
                P.obls.append(Obl(T('verifier'), 'unknown', '-', 0, traceback.format_exc()[-1500:]))

    def path(self, e, s, x):
        P, ex = self.prover, self.ex
        T = lambda q: f'recording:{e.name}:{q}'
        pc = list(s.pc)
        ev = list(s.ev)
        b = next(i for i, q in enumerate(ev) if q[0] == 'begin')
        # ---- locations: live when used, released exactly once
        live, bad, ever = set(), [], set()
        for q in ev:
            if q[0] == 'alloc':
                live.add(q[1])
                ever.add(q[1])
            elif q[0] == 'free':
                if q[1] not in live:
                    bad.append(f'{q[1]} released twice')
                live.discard(q[1])
            elif q[0] in ('use', 'set', 'loc', 'result', 'same'):
                if isinstance(q[1], E) and q[1] in ever and q[1] not in live:
                    bad.append(f'{q[0]} of released location {q[1]}')
            elif q[0] == 'fail':
                bad.append(q[1])
        if live:
            bad.append(f'not released: {live}')
        P.holds(T('locations'), not bad, pc, f'{bad}')
        inputs = {q[2]: q[1] for q in ev if q[0] == 'input'}
        after = ev[b:]
        ops = [q[1] for q in after if q[0] == 'op']
        locs = [q[1] for q in after if q[0] == 'loc']
        vals = [q[1] for q in after if q[0] == 'val']
        pushes = [q[1] for q in after if q[0] == 'push']
        ntay = sum(q[1] for q in after if q[0] == 'ntay')
        results = {q[3]: q for q in ev if q[0] == 'result'}
        tr = ex.decide(s, ieq(ivar('mode'), self.WRITE))
        keep = ex.decide(s, ieq(ivar('keep'), 0))
        # ---- values
        want = e.spec(x)
        wants = want if isinstance(want, (list, tuple)) else [want]
        if e.kind == 'bool':
            got = [q[1] for q in ev if q[0] == 'bool'][0]
            got = got if isinstance(got, (E, bool)) and not (isinstance(got, E) and got.sort == 'I') else ieq(got, 1)
            self.boolean(T('value'), pc, got, want)
        elif e.kind == 'out':
            o = [q[1] for q in ev if q[0] == 'out']
            P.holds(T('paths'), len(o) == 1, pc, 'one output')
            self.prove(T('value[0]'), pc, o[0], want)
        else:
            for i, wv in enumerate(wants):
                self.prove(T(f'value[{i}]'), pc, results[i][2], wv)
        for q in ev:
            if q[0] == 'same':
                P.prove(T(f'operand-value[{NAMES[q[3]]}]'), pc, q[2], x[NAMES[q[3]]])
        # ---- not tracing: nothing is written
        if tr is not True:
            n = len(ops) + len(locs) + len(vals) + len(pushes) + (ntay != 0) + len([q for q in after if q[0] in ('ninds', 'ndeps')])
            P.holds(T('silent'), n == 0, pc, f'{n} writes while not tracing')
            if tr is False:
                return
        # ---- records
        recs, li, vi, err = [], 0, 0, None
        for o in ops:
            nm = self.opname.get(o)
            lay = SPECIAL.get(nm) or ((len(OPS[nm].locs), OPS[nm].vals) if nm in OPS else None)
            if lay is None:
                err = f'operation {nm or o!r} without contract'
                break
            ls, vs = locs[li:li + lay[0]], vals[vi:vi + lay[1]]
            if len(ls) != lay[0] or len(vs) != lay[1]:
                err = f'{nm}: {len(ls)} locations, {len(vs)} constants left'
                break
            if not all(isinstance(l, E) for l in ls):
                err = f'{nm}: location {ls}'
                break
            li += lay[0]
            vi += lay[1]
            recs.append((nm, ls, vs))
        if err is None and (li != len(locs) or vi != len(vals)):
            err = f'{len(locs) - li} locations and {len(vals) - vi} constants too many after {[r[0] for r in recs]}'
        if not P.holds(T('layout'), err is None, pc, err or ''):
            return
        if tr is not True:
            return
        for nm, ls, vs in recs:
            if nm in OPS:
                roles = OPS[nm].locs
                bad = [d for d in OPS[nm].distinct if all(r in roles for r in d) and ls[roles.index(d[0])] is ls[roles.index(d[1])]]
                P.holds(T('layout-distinct'), not bad, pc, f'{nm}: {bad}')
        # ---- at the point of recording: pushes, codes
        R = Replay({l: x[NAMES[i]] for i, l in inputs.items()}, {})
        R.params = {q[1]: x['v'] for q in ev if q[0] == 'param'}
        for nm, ls, vs in recs:
            R.step(nm, ls, vs, 'x')
        P.holds(T('taylor-count'), ntay == len(R.pushes), pc, f'counted {ntay}, the sweeps store {len(R.pushes)} for {[r[0] for r in recs]}')
        if keep is True or (keep is None and not pushes):
            P.holds(T('taylor-none'), not pushes, pc, f'{len(pushes)} values stored')
            if keep is None:
                P.holds(T('taylor-pushes'), not R.pushes, pc, 'no values stored')
        else:
            if P.holds(T('taylor-pushes'), len(pushes) == len(R.pushes), pc, f'{len(pushes)} values stored, {len(R.pushes)} expected'):
                for g, wv in zip(pushes, R.pushes):
                    self.prove(T('taylor-value'), pc, g, wv)
        for c in R.branches:
            P.holds(T('code'), bnot(c), pc, f'branch not as recorded at the recording point: {show(c) if isinstance(c, E) else c}')
        tie = list(R.pres)
        for nm, rv, c in R.codes:
            ties = tie + ([bnot(req(c, R0))] if c is not None and isinstance(req(c, R0), E) else [])
            if c is not None and req(c, R0) is True:
                continue
            self.integer(T('code'), pc + [t for t in ties if isinstance(t, E)], rv, 3)
        # ---- replay elsewhere
        y = {n: rvar('y:' + n) for n in e.inputs}
        y.update(v=x['v'], w=x['w'])
        if e.param:
            y['v'] = rcell('PARAM', next(q[1] for q in ev if q[0] == 'param'))
        if e.kind == 'ind':
            y['v'] = rvar('y:ind')
        R = Replay({l: y[NAMES[i]] for i, l in inputs.items()}, {l: {NAMES[i]: R1} for i, l in inputs.items()})
        for nm, ls, vs in recs:
            R.step(nm, ls, vs, 'y')
        vars_ = {n: y[n] for n in e.inputs}
        if e.kind == 'ind':
            vars_['ind'] = y['v']
            P.holds(T('count'), sum(q[1] for q in after if q[0] == 'ninds') == 1, pc, 'independents counted')
        else:
            P.holds(T('count'), not any(q[0] == 'ninds' for q in after), pc, 'independents counted')
        P.holds(T('count'), sum(q[1] for q in after if q[0] == 'ndeps') == (e.kind == 'out') == len(R.deps), pc, 'dependents counted')
        dpre = list(e.pre(y)) if e.pre else []
        if e.kind == 'bool':
            sw = False
            for c in R.branches:
                sw = bor(sw, c)
            self.boolean(T('switch'), pc + [q for q in dpre if isinstance(q, E)], sw, bxor(want, e.spec(y)))
            return
        P.holds(T('switch'), not R.branches, pc, 'comparison recorded')
        wy = e.spec(y)
        wy = wy if isinstance(wy, (list, tuple)) else [wy]
        outs = [(R.deps[0],)] if e.kind == 'out' and R.deps else [(results[i][1],) for i in range(len(wants))] if e.kind != 'out' else []
        smooth = dpre + (list(e.gpre(y)) if e.gpre else [])
        for i, (l,) in enumerate(outs):
            self.prove(T(f'replay-value[{i}]'), pc + dpre, R.val(l), wy[i])
            for n, yn in vars_.items():
                self.prove(T(f'replay-derivative[{i},{n}]'), pc + smooth, R.grad(l).get(n, R0), diff(wy[i], yn))
        for n in e.inputs:
            if n not in e.changed:
                q = next(q for q in ev if q[0] == 'same' and q[3] == NAMES.index(n))
                self.prove(T(f'replay-operand[{n}]'), pc + dpre, R.val(q[1]), y[n])
                for m, ym in vars_.items():
                    self.prove(T(f'replay-operand-derivative[{n},{m}]'), pc + dpre, R.grad(q[1]).get(m, R0), R1 if m == n else R0)

    # ------------------------------------------------------------ provers
    def prove(self, name, pc, got, want):
        pc = [c for c in pc if isinstance(c, E)]
        m = {}
        for c in pc:
            if c.op == 'req':
                for u, t in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    if t.op == 'rc' and u.op in ('rfn', 'rv'):
                        m[u] = t
        if m:
            got, want = subst(got, m), subst(want, m)
        got, want = numfold(got), numfold(want)
        P = self.prover
        if not P.prove(name, pc, got, want):
            if close(got, want):
                o = P.obls[-1]
                o.status, o.backend, o.detail, o.cex = 'proved', 'coefficients (relative 1e-13)', '', None
                return
            g, wn = rounded(got), rounded(want)
            if g is not got or wn is not want:
                Q = Prover()
                if Q.prove(name, pc, g, wn):
                    o = P.obls[-1]
                    o.status, o.backend, o.detail, o.cex = 'proved', 'coefficients (12 digits)', '', None

    def boolean(self, name, pc, got, want):
        P = self.prover
        a = band(got, bnot(want)) if isinstance(got, E) or isinstance(want, E) else (got != want)
        b = band(want, bnot(got)) if isinstance(got, E) or isinstance(want, E) else False
        pc = [c for c in pc if isinstance(c, E)]
        P.holds(name, bnot(a), pc, f'got {show(got) if isinstance(got, E) else got} want {show(want) if isinstance(want, E) else want}')
        P.holds(name, bnot(b), pc, f'got {show(got) if isinstance(got, E) else got} want {show(want) if isinstance(want, E) else want}')

    def integer(self, name, pc, got, want):
        c = ieq(got, want)
        self.prover.holds(name, c, pc, f'code {show(got) if isinstance(got, E) else got} under {[show(q) for q in pc][:12]}')

    def check_all(self, only=None):
        for e in self.exprs:
            if only and e.name not in only:
                continue
            try:
                self.check(e)
            except Unsupported as err:
                self.prover.obls.append(Obl(f'recording:{e.name}:verifier', 'unknown', '-', 0, str(err)))
