"""Higher-order reverse sweeps at a fixed degree.

Every location carries, per weight direction, a flag and K = degree + 1 adjoint
coefficients.  Invariant: a flag of zero means that all its coefficients are
zero (the sweeps skip such locations).  Contract of an operation: T holds the
Taylor coefficients before the operation, the stack is popped by exactly those,
and for every coefficient i
  A'[l][i] = (0 if l is a result else A[l][i])
             + sum_{operands at l} sum_{j<=i} A[result][i-j] * (partial)_j
where (partial)_j are the Taylor coefficients of the partial derivative."""
from sweeprev import *
import series


class HOReverse(Reverse1):
    def __init__(self, modules, src, fname, args, pos, k, vector=None, wide=False, facts=(), name=None, seed=1):
        self.K = k + 1
        self.ci = 0
        self.vector = vector
        self.wide = wide              # a set of Taylor coefficients per direction
        self.S = iadd(1, iscale(vector, k)) if wide else k + 1       # stack entries of a location
        super().__init__(modules, src, fname, args, pos, ndir=vector, facts=facts, name=name, seed=seed)

    part = (0, 1)

    def guard(self, tag, f, *a):
        """the operations are shared out among several jobs"""
        self.nguard = getattr(self, 'nguard', -1) + 1
        if self.nguard % self.part[1] == self.part[0]:
            super().guard(tag, f, *a)

    # ---- layout
    def lag(self, k, c):
        n = f'arg{self.pos["lagrange"]}'
        i = 8 * self.ci
        return rcell(n + '**', iscale(c, 8), iscale(k, 8), i) if self.vector is not None and not self.wide else rcell(n + '*', iscale(k, 8), i)

    def respt(self, k, c):
        n = f'arg{self.pos["results"]}'
        i = 8 * self.ci
        return Ptr(n + '*', (iscale(k, 8),), i) if self.vector is None else Ptr(n + '**', (iscale(c, 8), iscale(k, 8)), i)

    def coefficients(self):
        for i in range(self.K):
            self.ci = i
            yield i
        self.ci = 0

    def dir(self):
        return self.c if self.vector is not None else 0

    def stackat(self, b, i, c):
        """coefficient i of the b-th location from the top of the stack"""
        top = isub(ivar('TSP'), imul(iadd(b, 1), self.S))
        pos = iadd(i, imul(c, isub(self.K, 1))) if self.wide and not (isinstance(i, int) and i == 0) else i
        return rcell(TAY, iscale(iadd(top, pos), 8))

    def stack(self, b):
        return self.stackat(b, self.ci, self.dir())

    def t0(self):
        return self.stack(0)

    def tay(self, vals):
        return None

    def tay1(self):
        return None

    def pT(self, l, i, c):
        m = {self.rat: l}
        return Ptr(self.T0p.obj, tuple(subst(x, m) for x in self.T0p.rows), iadd(iscale(c, 8 * self.K), 8 * i) if self.wide else 8 * i)

    def p0(self, l):
        return self.pT(l, self.ci, self.dir())

    def pb(self, l):
        return self.pT(l, 0, 0)

    def pF(self, l, c):
        m = {self.rat: l}
        return Ptr(self.Ap.obj, tuple(subst(x, m) for x in self.Ap.rows), iscale(c, 8 * (self.K + 1)) if self.vector is not None else 0)

    def pA(self, l, c, i=None):
        q = self.pF(l, c if self.vector is not None else 0)
        return q.add(8 + 8 * (self.ci if i is None else i))

    def flag(self, l):
        return self.start_load(self.pF(l, self.dir()))

    def Araw(self, l, i):
        return self.start_load(self.pA(l, self.dir(), i))

    def eA(self, l, i):
        """adjoint coefficient of a location that satisfies the invariant"""
        return rite(req(self.flag(l), R0), R0, self.Araw(l, i))

    def A0(self, l):
        return self.eA(l, self.ci)

    def indices(self):
        return range(self.K)

    def flagfacts(self, l):
        f = self.flag(l)
        return [bnot(rlt(f, R0))] + [bor(bnot(req(f, R0)), req(self.Araw(l, i), R0)) for i in self.indices()]

    def nested_object(self, name):
        return name in (GH, TAY, LOCF, VALF) or name.startswith(('al.', 'arg'))

    def infer_layout(self):
        r = L('r_')
        self.rat = the_atom(r)
        bk, ext, ret = self.run('assign_ind', [r], [])
        if not bk:
            raise NotInferred('assign_ind does not continue')
        res = f'arg{self.pos["results"]}'
        self.T0p = self.Ap = self.ind_phi = self.dep_phi = None
        gens = {g: x for x, g in self.it.gen.items()}
        for name, (base, log) in bk[0].st.mem.items():
            node = log
            while node:
                e, node = node
                if not isinstance(e, W):
                    continue
                if name.rstrip('*') == res:
                    for q in tuple(e.rows):
                        g = exact_div(q, 8)
                        if g in gens and not isinstance(g, int):
                            self.ind_phi = gens[g]
                elif not self.nested_object(name) and e.rows and isinstance(e.val, E) and e.val.op == 'rcell' and e.val.args[0] == TAY:
                    self.T0p = Ptr(name, e.rows, None)
        bk, ext, ret = self.run('assign_dep', [r], [])
        if not bk:
            raise NotInferred('assign_dep does not continue')
        lg = f'arg{self.pos["lagrange"]}'
        for name, (base, log) in bk[0].st.mem.items():
            if self.nested_object(name):
                continue
            node = log
            while node:
                e, node = node
                if isinstance(e, W) and isinstance(e.val, E):
                    cells = [x for x in subterms(e.val) if x.op == 'rcell' and x.args[0].rstrip('*') == lg]
                    if cells:
                        self.Ap = Ptr(name, e.rows, None)
                        for q in cells[0].args[1:]:
                            g = exact_div(q, 8)
                            if g in gens and not isinstance(g, int):
                                self.dep_phi = gens[g]
        if self.T0p is None or self.Ap is None or self.ind_phi is None or self.dep_phi is None:
            raise NotInferred(f'layout of the reverse sweep {self.T0p} {self.Ap} {self.ind_phi} {self.dep_phi}')

    def check_columns(self, q, d):
        p = self.vector if self.vector is not None else 1
        want = imul(p, iadd(self.K, 1)) if q is self.Ap else imul(p, self.K) if self.wide else self.K
        self.prover.prove(self.ob(f'start:columns of {q.obj}'), list(self.facts), d[-1], want)

    def rowlimit(self, name, root):
        d = self.ex.dims.get(root)
        if d is not None and len(name) - len(root) == len(d) - 1 and len(d) > 1:
            return lambda e: (e.off, 0, iscale(d[-1], 8))
        if name == f'arg{self.pos["results"]}' + ('*' if self.vector is None else '**'):
            return lambda e: (e.off, 0, iscale(self.K, 8))
        return None

    # ---- states
    def quantset(self, st, cell, val):
        """writes val(c) to cell(c) for every direction"""
        if self.vector is None:
            self.setcell(st, cell(0), val(0))
            return
        q = ivar(fresh('q'))
        p = cell(q)
        if not contains_atom(p.off, q):
            self.setcell(st, p, val(q))
            return
        base, log = self.ex.getobj(st, p.obj)
        st.mem[p.obj] = (base, (W(True, ((the_atom(q), 0, self.vector),), p.rows, p.off, val(q), 8), log))

    def setseries(self, st, cell, val):
        for i in range(self.K):
            self.quantset(st, lambda c: cell(c, i), lambda c: val(c, i))

    def setresult(self, st, l, f):
        self.setseries(st, lambda c, i: self.pT(l, i, c), lambda c, i: f(c)[i])

    def zeroA(self, st, l):
        self.quantset(st, lambda c: self.pF(l, c), lambda c: R0)
        self.setseries(st, lambda c, i: self.pA(l, c, i), lambda c, i: R0)

    def check_state(self, tag, s, cells, npop):
        P = self.prover
        st0 = s.st
        P.prove(self.ob(f'{tag}:taylor-pops'), list(st0.pc), gget(self.ex, st0, 24), isub(ivar('TSP'), imul(npop, self.S)))
        for i in self.coefficients():
            cs = cells()
            inv = [f for c in cs for f in self.flagfacts(c[1])]
            for label, l, facts, v, adj in cs:
                st = st0.copy()
                for f in list(facts) + self.colfacts + inv:
                    st.assume(f)
                if v is not None:
                    P.prove(self.ob(f'{tag}:value-restored {i}[{label}]'), list(st.pc), self.load(st, self.p0(l)), v)
                for f in self.flagfacts(l):
                    st.assume(f)
                a = self.load(st, self.pA(l, self.dir()))
                if adj is not None:
                    P.prove(self.ob(f'{tag}:adjoint {i}[{label}]'), list(st.pc), a, adj)
                fl = self.load(st, self.pF(l, self.dir()))
                P.prove(self.ob(f'{tag}:flag {i}[{label}]'), list(st.pc), rite(req(fl, R0), a, R0), R0)
                if i == 0:
                    P.prove(self.ob(f'{tag}:flag-sign[{label}]'), list(st.pc), rite(rlt(fl, R0), R1, R0), R0)
        for name, (base, log) in st0.mem.items():
            if name == TAY:
                b0, l0 = self.it.start.mem.get(name, ({}, None))
                P.holds(self.ob(f'{tag}:stack-unchanged'), log is l0 and base == b0, (), 'the sweep writes to the Taylor stack')

    # ---- operations
    def anyA(self, l, strong=False):
        """the adjoint of l is relevant in some direction; strong: some coefficient is not zero"""
        any1 = lambda st, q: bnot(req(self.load(st, self.pF(l, q)), R0))
        if strong:
            any1 = lambda st, q: band(rlt(R0, self.load(st, self.pF(l, q))),
                                      bor(*[bnot(req(self.load(st, self.pA(l, q, i)), R0)) for i in range(self.K)]))
        if self.vector is None:
            return any1(self.it.start, 0)
        q = ivar(fresh('q'))
        st = self.it.start.copy()
        st.assume(ile(0, q))
        st.assume(ilt(q, self.vector))
        return bexists(q, self.vector, any1(st, q))

    def check_op(self, o):
        if o.name == 'cbrt_op' or o.first_order:
            return
        for m in aliasings(o):
            self.guard(f'{o.name}[{"/".join(sorted(set(m.values())))}]', self.check_op_alias, o, m)

    def check_op_alias(self, o, m, tie=False):
        P, ex = self.prover, self.ex
        tag = f'{o.name}[{",".join(sorted(set(m.values())))}]'
        locs = {r: L(n + '_') for r, n in m.items()}
        other = L('other_')
        v = o.fixv or [rvar(f'c{k}') for k in range(o.vals)]
        outl = [locs[o.out]] if o.out else []
        if o.aux:
            outl.append(locs[o.aux[0]])
        fixl = {locs[r]: q for r, q in o.fixx.items()}
        st0 = self.it.generic_state(self.stops[0])
        blocks = outl if o.out and o.keep else []

        def before(l, c):
            """Taylor coefficients of l before the operation"""
            def f(i):
                if i == 0 and l in fixl:
                    return fixl[l]
                if l in blocks:
                    return self.stackat(blocks.index(l), i, c)
                if i == 0:
                    c0 = 0
                    return self.load(st0, self.pT(l, 0, c0))
                return self.load(st0, self.pT(l, i, c))
            return series.Ser(f)
        roles = [r for r in locs if not (o.ref and r == 'p')]
        x0 = {r: before(locs[r], 0)[0] for r in roles}
        if o.ref:
            x0['p'] = i2r(locs['R'])
        xs = lambda c: {r: before(locs[r], c) for r in roles}
        res = [] if not o.out else [(locs[o.out], lambda c: series.result(o, xs(c), v))]
        if o.aux:
            res.append((locs[o.aux[0]], lambda c: series.result(o, xs(c), v, o.aux[1], o.aux[2])))

        def setup(st):
            if o.ref:
                self.setcell(st, self.pT(locs['p'], 0, 0), i2r(locs['R']))
            for r in roles:
                l = locs[r]
                if l not in outl and (self.wide or l in fixl):
                    self.quantset(st, lambda c: self.pT(l, 0, c), lambda c: before(l, c)[0])
            if o.aux:
                self.zeroA(st, locs[o.aux[0]])
            if o.fixx and o.out in o.fixx:
                raise Unsupported('fixed result')
            for l, f in res:
                self.setresult(st, l, f)
            for l in fixl:
                if l in blocks:
                    self.setcell(st, Ptr(TAY, (), self.stackat(blocks.index(l), 0, 0).args[1]), fixl[l])
            for l in list(locs.values()) + [other]:
                st.assume(ile(0, l))
        pre = list(o.pre(x0, v)) if o.pre else []
        if o.branch:
            pre.append(bnot(o.branch(x0, v)))
        for stop in self.stops:
            bk, ext, ret = self.run(o.opcode, [locs[r] for r in reversed(o.locs)], list(reversed(v)), pre=pre, setup=setup, stop=stop)
            self.paths += len(bk) + len(ext) + len(ret)
            self.health(tag)
            self.noexit(tag, ext, ret)
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            parts = self.partseries(o, xs(self.dir()), v) if o.out else {}

            def cells():
                i, out, done = self.ci, [], set()
                for r, l in list(locs.items()) + [('other', other)]:
                    if l in done:
                        continue
                    done.add(l)
                    if r == 'other' or o.ref and r == 'p':
                        val = self.load(self.it.start, self.p0(l))
                    else:
                        val = before(l, self.dir())[i]
                    if r == 'other' or l not in outl and not any(locs[q] is l for q in parts):
                        a = self.Araw(l, i)
                    else:
                        a = R0 if l in outl else self.eA(l, i)
                    for q, ser in parts.items():
                        if locs[q] is l:
                            a = radd(a, self.convolve(lambda j: self.eA(locs[o.out], j), ser, i))
                    out.append((m.get(r, r), l, [f for l2 in locs.values() for f in self.flagfacts(l2)], val, a))
                return out
            for s in bk:
                retw = self.ret_expr
                if o.ret and self.ret_expr is not None:
                    retw = None if o.out else o.ret(x0, v, self.ret_expr)
                    if o.out:
                        self.lowered(tag, s, o, x0, v, locs)
                self.common(tag, s, len(o.locs), o.vals, None)
                if retw is not None:
                    nt = [bnot(req(x0['c'], R0))] if 'c' in x0 and o.ret else []
                    P.prove(self.ob(f'{tag}:return-code'), list(s.st.pc) + nt, self.phi(s)[self.ret_phi], retw)
                self.counters(tag, s)
                self.frame_args(tag, s)
                self.check_state(tag, s, cells, len(blocks))

    def lowered(self, tag, s, o, x0, v, locs):
        """a code is reported when an adjoint coefficient of the result is not
        zero; it is not when all its flags are zero; in between either is fine"""
        P = self.prover
        got = self.phi(s)[self.ret_phi]
        rc = self.ret_expr
        low = o.ret(x0, v, rc)
        # at a tie of a conditional assignment either code is fine
        pc = list(s.st.pc) + ([bnot(req(x0['c'], R0))] if 'c' in x0 else [])
        some, weak = self.anyA(locs[o.out], True), self.anyA(locs[o.out])
        l = locs[o.out]
        both = lambda c: [c] if isinstance(c, E) else []
        P.prove(self.ob(f'{tag}:return-code'), pc + both(some) + both(weak), got, low)
        P.prove(self.ob(f'{tag}:return-code unchanged'), pc + both(bnot(weak)), got, rc)
        P.prove(self.ob(f'{tag}:return-code either'), pc, bor(ieq(got, rc), ieq(got, low)), True)

    # ---- special operations
    def keepcell(self, l, label='other', facts=()):
        return (label, l, list(facts), self.start_load(self.p0(l)), self.Araw(l, self.ci))

    def Tser(self, l):
        return series.Ser(lambda i: self.start_load(self.pT(l, i, self.dir())))

    def partseries(self, o, x, v):
        return series.reverse_parts(o, x, v)

    def convolve(self, a, x, i):
        t = R0
        for j in range(i + 1):
            t = radd(t, rmul(a(i - j), x[j]))
        return t

    def conv(self, r, m):
        if m is None:
            return self.eA(r, self.ci)
        return self.convolve(lambda j: self.eA(r, j), self.Tser(m), self.ci)

    def flow(self, l, r, m):
        return radd(self.A0(l), self.conv(r, m))

    def gain(self, r, m):
        return self.conv(r, m)

    def axpy_x(self, x, rr, aa, n, j, k, kin, old=None):
        if old is None:
            v = self.conv(iadd(rr, j), iadd(aa, j))
        else:
            # the values before the operation are those on the stack
            b = isub(isub(n, j), 1)
            v = self.convolve(lambda q: self.eA(iadd(rr, j), q), series.Ser(lambda i: self.stackat(b, i, self.dir())), self.ci)
        return ('x', x, [], self.start_load(self.p0(x)), radd(self.A0(x), rsum(j, 0, n, v)))


def contains_atom(e, q):
    return isinstance(e, E) and contains(e, the_atom(q))


class HOReverseAny(HOReverse):
    """symbolic degree: operations whose partial derivatives are constants (products too with bilinear)"""
    SKIP = ('assign_dep', 'vec_dot', 'vec_axpy')
    bilinear = False

    def guard(self, tag, f, *a):
        if tag.split("[")[0] not in self.SKIP:
            super().guard(tag, f, *a)

    def __init__(self, modules, src, fname, args, pos, k, vector=None, wide=False, facts=(), name=None, seed=1):
        self.i = self.ci = ivar('i')
        self.K = iadd(k, 1)
        self.vector = vector
        self.wide = wide
        self.S = iadd(1, imul(vector, k)) if wide else self.K
        Reverse1.__init__(self, modules, src, fname, args, pos, ndir=vector, facts=facts, name=name, seed=seed)
        self.dirfacts = list(self.colfacts)
        self.colfacts = self.dirfacts + [ile(0, self.i), ilt(self.i, self.K)]

    def lag(self, k, c):
        n = f'arg{self.pos["lagrange"]}'
        i = iscale(self.ci, 8)
        return rcell(n + '**', iscale(c, 8), iscale(k, 8), i) if self.vector is not None and not self.wide else rcell(n + '*', iscale(k, 8), i)

    def respt(self, k, c):
        n = f'arg{self.pos["results"]}'
        i = iscale(self.ci, 8)
        return Ptr(n + '*', (iscale(k, 8),), i) if self.vector is None else Ptr(n + '**', (iscale(c, 8), iscale(k, 8)), i)

    def indices(self):
        return [self.ci]

    def coefficients(self):
        keep = self.colfacts
        if self.wide:
            self.ci = 0
            self.colfacts = self.dirfacts
            yield 0
        self.ci = self.i
        self.colfacts = keep + ([ile(1, self.i)] if self.wide else [])
        yield self.i
        self.colfacts = keep

    def pT(self, l, i, c):
        m = {self.rat: l}
        off = iscale(iadd(imul(c, self.K), i), 8) if self.wide else iscale(i, 8)
        return Ptr(self.T0p.obj, tuple(subst(x, m) for x in self.T0p.rows), off)

    def pF(self, l, c):
        m = {self.rat: l}
        return Ptr(self.Ap.obj, tuple(subst(x, m) for x in self.Ap.rows), iscale(imul(c, iadd(self.K, 1)), 8) if self.vector is not None else 0)

    def pA(self, l, c, i=None):
        return self.pF(l, c if self.vector is not None else 0).add(iadd(8, iscale(self.ci if i is None else i, 8)))

    def setseries(self, st, cell, val):
        q, j = ivar(fresh('q')), ivar(fresh('j'))
        rng = [(the_atom(j), 0, self.K)]
        if self.vector is not None:
            rng.insert(0, (the_atom(q), 0, self.vector))
        p = cell(q, j)
        if not contains_atom(p.off, q):
            rng = rng[-1:]
        base, log = self.ex.getobj(st, p.obj)
        st.mem[p.obj] = (base, (W(True, tuple(rng), p.rows, p.off, val(q, j), 8), log))

    def const(self, q, X):
        return not any(contains(q, x) for x in X.values())

    def check_op(self, o):
        if o.name == 'cbrt_op' or o.first_order or o.fixv:
            return
        roles = o.locs + (['R'] if o.ref else [])
        X = {r: rvar('X:' + r) for r in roles}
        if o.out:
            for f in [o.partials] + ([o.aux[2]] if o.aux else []):
                for q in f(X, [rvar(f'v{k}') for k in range(o.vals)]).values():
                    if not (self.const(q, X) or self.bilinear and self.operand(q, X) or q.op == 'rite' and self.const(q.args[1], X) and self.const(q.args[2], X)):
                        return
        super().check_op(o)

    def operand(self, q, X):
        s = 1
        if q.op == 'rneg':
            q, s = q.args[0], -1
        for r, x in X.items():
            if q is x:
                return s, r

    def partseries(self, o, x, v):
        X = {r: rvar('X:' + r) for r in x}
        out = {}
        for r, q in o.partials(X, v).items():
            w = self.operand(q, X)
            out[r] = (w[0], x[w[1]]) if w else subst(q, {X[z]: x[z][0] for z in x})
        return out

    def convolve(self, a, x, i):
        if isinstance(x, E):
            return rmul(a(i), x)
        s, x = x if isinstance(x, tuple) else (1, x)
        t = rmul(a(i), x[0])
        if not (isinstance(i, int) and i == 0):
            j = ivar(fresh('j'))
            t = radd(t, rsum(j, 0, i, rmul(a(isub(isub(i, 1), j)), x[iadd(j, 1)])))
        return rmul(rc(s), t)

    def setresult(self, *a):
        """these operations do not read the coefficients of their result"""

    def lowered(self, *a):
        pass
