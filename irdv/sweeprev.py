"""Obligations of one tape operation in a first-order reverse sweep.

State before the (reverse) step of an operation: T holds the values after the
operation, A arbitrary adjoints, the Taylor stack ends with what the forward
sweep pushed for the operation.  Contract: T holds the values before the
operation, the stack is popped by exactly these values and
  A'[l] = (0 if l is a result else A[l]) + sum_{operands at l} partial * A[result]
"""
from sweep import *


class Reverse1(Base):
    direction = 'r'
    zero = R0

    def __init__(self, modules, src, fname, args, pos, ndir=None, facts=(), name=None, seed=1, contracts=None):
        super().__init__(modules, src, fname, args, facts, name, seed, contracts)
        self.pos = pos
        self.ndir = ndir
        self.c = ivar('c')
        self.colfacts = [] if ndir is None else [ile(0, self.c), ilt(self.c, ndir)]
        self.infer_ret()
        self.infer_layout()

    def lag(self, k, c):
        n = f'arg{self.pos["lagrange"]}'
        return rcell(n, iscale(k, 8)) if self.ndir is None else rcell(n + '*', iscale(c, 8), iscale(k, 8))

    def respt(self, k, c):
        n = f'arg{self.pos["results"]}'
        return Ptr(n, (), iscale(k, 8)) if self.ndir is None else Ptr(n + '*', (iscale(c, 8),), iscale(k, 8))

    def tay(self, vals):
        """stack whose topmost values are vals (last = top)"""
        n = len(vals)
        base = {((), iscale(iadd(ivar('TSP'), k - n), 8)): (v, 8) for k, v in enumerate(vals)}
        return (base, None)

    def flagfacts(self, l):
        return []

    def coefficients(self):
        """the coefficients of an adjoint, made current one after the other"""
        yield 0

    def t0(self):
        return rvar('t0')

    def tay1(self):
        return self.tay([self.t0()])

    def infer_layout(self):
        r = L('r_')
        t = rvar('t0')
        self.rat = the_atom(r)
        bk, ext, ret = self.run('assign_ind', [r], [], tays=self.tay([t]))
        if not bk:
            raise NotInferred('assign_ind does not continue')
        res = f'arg{self.pos["results"]}'
        self.T0p = self.Ap = self.ind_phi = self.dep_phi = None
        for name, (base, log) in bk[0].st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith('al.'):
                continue
            node = log
            while node:
                e, node = node
                if isinstance(e, W) and e.val is t:
                    self.T0p = Ptr(name, e.rows, e.off)
                if isinstance(e, W) and name.rstrip('*') == res:
                    q = e.off
                    for x, g in self.it.gen.items():
                        if exact_div(q, 8) is g:
                            self.ind_phi = x
        bk, ext, ret = self.run('assign_dep', [r], [])
        if not bk:
            raise NotInferred('assign_dep does not continue')
        lg = f'arg{self.pos["lagrange"]}'
        for name, (base, log) in bk[0].st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith(('al.', 'arg')):
                continue
            node = log
            while node:
                e, node = node
                if isinstance(e, W) and isinstance(e.val, E):
                    cells = [x for x in subterms(e.val) if x.op == 'rcell' and x.args[0].rstrip('*') == lg]
                    if cells:
                        self.Ap = Ptr(name, e.rows, e.off if self.ndir is None else None)
                        for x, g in self.it.gen.items():
                            if any(exact_div(q, 8) is g for q in cells[0].args[1:]):
                                self.dep_phi = x
        if self.T0p is None or self.Ap is None or self.ind_phi is None or self.dep_phi is None:
            raise NotInferred(f'layout of the reverse sweep {self.T0p} {self.Ap} {self.ind_phi} {self.dep_phi}')

    def p0(self, l):
        m = {self.rat: l}
        return Ptr(self.T0p.obj, tuple(subst(x, m) for x in self.T0p.rows), subst(self.T0p.off, m))

    def pA(self, l, c):
        m = {self.rat: l}
        rows = tuple(subst(x, m) for x in self.Ap.rows)
        return Ptr(self.Ap.obj, rows, subst(self.Ap.off, m) if self.Ap.off is not None else iscale(c, 8))

    def pb(self, l):
        """where the value of l is stored"""
        return self.p0(l)

    def setcell(self, st, p, v):
        base, log = self.ex.getobj(st, p.obj)
        base = dict(base)
        base[(p.rows, p.off)] = (v, 8)
        st.mem[p.obj] = (base, log)

    def zeroA(self, st, l):
        if self.ndir is None:
            self.setcell(st, self.pA(l, 0), self.zero)
        else:
            q = ivar(fresh('q'))
            p = self.pA(l, q)
            base, log = self.ex.getobj(st, p.obj)
            st.mem[p.obj] = (base, (W(True, ((the_atom(q), 0, self.ndir),), p.rows, p.off, self.zero, 8), log))

    def A0(self, l):
        return self.start_load(self.pA(l, self.c))

    def check_state(self, tag, s, cells, npop):
        P = self.prover
        if callable(cells):
            cells = cells()
        st0 = s.st
        P.prove(self.ob(f'{tag}:taylor-pops'), list(st0.pc), gget(self.ex, st0, 24), isub(ivar('TSP'), npop))
        for label, l, facts, v, adj in cells:
            st = st0
            if facts:
                st = st0.copy()
                for f in facts:
                    st.assume(f)
            if v is not None:
                P.prove(self.ob(f'{tag}:value-restored[{label}]'), list(st.pc), self.load(st, self.p0(l)), v)
            st = st.copy()
            for f in self.colfacts:
                st.assume(f)
            if adj is not None:
                self.prove_adj(f'{tag}:adjoint[{label}]', list(st.pc), self.load(st, self.pA(l, self.c)), adj)
        for name, (base, log) in st0.mem.items():
            if name == TAY:
                b0, l0 = self.it.start.mem.get(name, ({}, None))
                P.holds(self.ob(f'{tag}:stack-unchanged'), log is l0 and base == b0, (), 'the sweep writes to the Taylor stack')

    def join(self, a, b):
        return radd(a, b)

    def pushed(self, push):
        return push

    def prove_adj(self, name, pc, got, want):
        self.prover.prove(self.ob(name), pc, got, want)

    def counters(self, tag, s, inc=None):
        ph = self.phi(s)
        for k, x in (('ind', self.ind_phi), ('dep', self.dep_phi)):
            P = self.prover
            P.prove(self.ob(f'{tag}:{k}-counter'), list(s.st.pc), ph[x], isub(self.it.gen[x], 1 if inc == k else 0))

    def frame_args(self, tag, s, allowed=()):
        for name, (base, log) in s.st.mem.items():
            if name.startswith('arg') and name.rstrip('*') not in allowed:
                b0, l0 = self.it.start.mem.get(name, ({}, None))
                if log is not l0 or base != b0:
                    self.prover.holds(self.ob(f'{tag}:frame {name}'), False, (), f'writes to caller array {name}: {log}')

    def noexit(self, tag, ext, ret):
        P = self.prover
        ex = self.ex
        for pc, what in ex.fails:
            if ex.solver.check(list(pc)) != 'unsat':
                P.holds(self.ob(f'{tag}:no-failure'), False, (), f'{what} when {[show(c) for c in pc][:6]}')
        for x in list(ext) + list(ret):
            st = x.st if isinstance(x, Stop) else x[0]
            if ex.solver.check(list(st.pc)) != 'unsat':
                P.holds(self.ob(f'{tag}:leaves-sweep'), False, (), f'when {[show(c) for c in st.pc][:6]}')

    # ------------------------------------------------------------ table ops
    def check_op(self, o):
        for m in aliasings(o):
            self.guard(f'{o.name}[{"/".join(sorted(set(m.values())))}]', self.check_op_alias, o, m)
            if o.tie:
                self.guard(f'{o.name}[{"/".join(sorted(set(m.values())))}]@tie', self.check_op_alias, o, m, True)

    def anyA(self, l):
        """A[l] != 0 (in some direction)"""
        if self.ndir is None:
            return self.nonzero(self.start_load(self.pA(l, 0)))
        q = ivar(fresh('q'))
        st = self.it.start.copy()
        st.assume(ile(0, q))
        st.assume(ilt(q, self.ndir))
        return bexists(q, self.ndir, self.nonzero(self.load(st, self.pA(l, q))))

    def nonzero(self, a):
        return bnot(req(a, R0))

    def check_op_alias(self, o, m, tie=False):
        P = self.prover
        ex = self.ex
        tag = f'{o.name}[{",".join(sorted(set(m.values())))}]' + ('@tie' if tie else '')
        locs = {r: L(n + '_') for r, n in m.items()}
        other = L('other_')
        v = o.fixv or [rvar(f'c{k}') for k in range(o.vals)]
        outs = []
        x0 = {}
        st0 = self.it.generic_state(self.stops[0])
        outl = {locs[o.out]} if o.out else set()
        if o.aux:
            outl.add(locs[o.aux[0]])
        fixl = {locs[r]: q for r, q in o.fixx.items()}
        for r, l in locs.items():
            x0[r] = fixl[l] if l in fixl else rvar('x_' + m[r]) if l in outl else (i2r(locs['R']) if o.ref and r == 'p' else self.load(st0, self.p0(l)))
        push = []
        if o.out and o.keep:
            if o.aux:
                push.append(x0[o.aux[0]])
            push.append(x0[o.out])
        push = self.pushed(push)

        def setup(st):
            if o.ref:
                self.setcell(st, self.p0(locs['p']), i2r(locs['R']))
            for r, q in o.fixx.items():
                self.setcell(st, self.p0(locs[r]), q)
            if o.out:
                if o.aux:
                    self.setcell(st, self.p0(locs[o.aux[0]]), o.aux[1](x0, v))
                    self.zeroA(st, locs[o.aux[0]])
                self.setcell(st, self.p0(locs[o.out]), o.value(x0, v))
            for l in list(locs.values()) + [other]:
                st.assume(ile(0, l))
        pre = [o.tie(x0, v)] if tie else list(o.pre(x0, v)) if o.pre else []
        if o.branch:
            pre.append(bnot(o.branch(x0, v)))     # the forward sweep took the recorded branch
        for stop in self.stops:
            bk, ext, ret = self.run(o.opcode, [locs[r] for r in reversed(o.locs)], list(reversed(v)), pre=pre, setup=setup,
                                    stop=stop, tays=self.tay(push))
            self.paths += len(bk) + len(ext) + len(ret)
            self.health(tag)
            self.noexit(tag, ext, ret)
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            adj = self.adjoints(o, locs, x0, v, outl, other) if o.out else {}
            if tie:
                self.tieadj(o, locs, adj)
            cells, done = [], set()
            for r, l in list(locs.items()) + [('other', other)]:
                if l in done:
                    continue
                done.add(l)
                val = x0[r] if r != 'other' else self.load(self.it.start, self.p0(other))
                cells.append((m.get(r, r), l, [], val, adj.get(l, self.A0(l)) if o.out else self.A0(l)))
            for s in bk:
                retw = self.ret_expr
                if o.ret and self.ret_expr is not None:
                    retw = o.ret(x0, v, self.ret_expr)
                    if tie:
                        retw = o.tieret(self.ret_expr, self.anyA(locs[o.out]))
                    elif o.out:
                        retw = self.revret(o, x0, v, locs)
                self.common(tag, s, len(o.locs), o.vals, None)
                if retw is not None:
                    # at a tie of a conditional assignment either code is fine
                    nt = [bnot(req(x0['c'], R0))] if 'c' in x0 and o.ret else []
                    P.prove(self.ob(f'{tag}:return-code'), list(s.st.pc) + nt, self.phi(s)[self.ret_phi], retw)
                self.counters(tag, s)
                self.frame_args(tag, s)
                self.check_state(tag, s, cells, len(push))

    def tieadj(self, o, locs, adj):
        """no derivative is defined, but the adjoint of the result is cleared"""
        for r in o.ins:
            adj[locs[r]] = None

    def adjoints(self, o, locs, x0, v, outl, other):
        adj = {}
        Ao = self.A0(locs[o.out])
        part = o.partials(x0, v)
        for l in list(locs.values()) + [other]:
            if l in adj:
                continue
            t = R0 if l in outl else self.A0(l)
            for r, q in part.items():
                if locs[r] is l:
                    t = radd(t, rmul(q, Ao))
            adj[l] = t
        return adj

    def revret(self, o, x0, v, locs):
        """codes are only reported when the adjoint of the result is relevant"""
        f = o.ret(x0, v, ivar('RC'))
        # f = nested mindec; the conditions get the relevance added
        n = self.anyA(locs[o.out])
        big = {the_atom(ivar('RC')): 100}
        c2 = ieq(subst(f, {the_atom(ivar('RC')): 3}), 2)
        c0 = ieq(subst(f, {the_atom(ivar('RC')): 3}), 0)
        r = mindec(self.ret_expr, 2, band(c2, n))
        return mindec(r, 0, band(c0, n))

    # ------------------------------------------------------------ special
    def special(self, opname, locs, vals, cells, npop=0, tays=None, facts=(), inc=None, allowed=(), nvals=None, extra=None,
                setup=None, variant=""):
        tag = opname + variant
        P = self.prover
        for stop in self.stops:
            bk, ext, ret = self.run(opname, locs, vals, pre=facts, stop=stop, setup=setup, tays=tays)
            self.paths += len(bk)
            self.health(tag)
            self.noexit(tag, ext, ret)
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            for s in bk:
                self.common(tag, s, len(locs), len(vals) if nvals is None else nvals, self.ret_expr)
                self.counters(tag, s, inc)
                self.frame_args(tag, s, allowed)
                self.check_state(tag, s, cells, npop)
                if extra:
                    extra(tag, s)

    def keepcell(self, l, label='other', facts=()):
        return (label, l, list(facts), self.start_load(self.p0(l)), self.A0(l))

    def kcell(self, l, facts, v, adj, label):
        st = self.it.start.copy()
        return (label, l, list(facts), v, adj)

    def check_special(self):
        r, other = L('r_'), L('other_')
        nn = locfacts([r, other])
        for nm in ('end_of_tape', 'end_of_int', 'end_of_val'):
            if nm == 'end_of_tape':
                continue
            self.guard(nm, lambda: self.special(nm, [], [], lambda: [self.keepcell(other)], facts=nn, extra=self.block_event(nm)))
        self.guard('end_of_op', lambda: self.end_of_op(nn, other))
        self.guard('assign_ind', lambda: self.assign_ind('assign_ind'))
        self.guard('ref_assign_ind', lambda: self.assign_ind('ref_assign_ind'))
        self.guard('assign_dep', self.assign_dep)
        self.guard('assign_p', lambda: self.special(
            'assign_p', [r, ivar('pi')], [], lambda: [('r', r, [], self.t0(), self.zero), self.keepcell(other)], 1, self.tay1(), nn))
        self.guard('subscript', lambda: self.subscript('subscript'))
        self.guard('subscript_ref', lambda: self.subscript('subscript_ref'))
        self.vectors()

    def block_event(self, nm):
        want = {'end_of_int': ['loc_block'], 'end_of_val': ['val_block'], 'end_of_op': ['op_block']}.get(nm)

        def f(tag, s):
            ev = [e[0] for e in s.st.ev]
            self.prover.holds(self.ob(f'{tag}:block'), ev == want, (), f'buffer requests {ev}')
        return f

    def end_of_op(self, nn, other):
        tag = 'end_of_op'
        P = self.prover
        bk, ext, ret = self.run(tag, [], [], pre=nn)
        self.health(tag)
        P.holds(self.ob(f'{tag}:progress'), len(bk) >= 1 and not ext and not ret)
        for s in bk:
            ph = self.phi(s)
            P.holds(self.ob(f'{tag}:op-reads'), self.same_int(gget(self.ex, s.st, 16), 2), (), 'block, then end_of_op, then next opcode')
            for r in self.it.gen:
                if self.is_opphi(r):
                    P.holds(self.ob(f'{tag}:next-opcode'), ph[r] is ifn('OPC', 1), (), f'{ph[r]!r}')
            ev = [e[0] for e in s.st.ev]
            P.holds(self.ob(f'{tag}:block'), ev == ['op_block'], (), f'{ev}')
            if self.ret_phi is not None:
                P.prove(self.ob(f'{tag}:return-code'), list(s.st.pc), ph[self.ret_phi], self.ret_expr)
            self.check_state(tag, s, lambda: [self.keepcell(other)], 0)

    def assign_ind(self, nm):
        p, R, other = L('p_'), L('R_'), L('other_')
        K = self.it.gen[self.ind_phi]
        ref = nm.startswith('ref')
        res = f'arg{self.pos["results"]}'
        P = self.prover

        nz = f'arg{self.pos["nonzero"]}' if 'nonzero' in self.pos else None
        nzw = set()

        def extra(tag, s):
            for _ in self.coefficients():
                extra1(tag, s)
            if nz and nz + '*' in s.st.mem and s.st.mem[nz + '*'] != self.it.start.mem.get(nz + '*', ({}, None)):
                nzw.add(nm)
                st = s.st.copy()
                for f in self.colfacts + self.flagfacts(R):
                    st.assume(f)
                p1 = Ptr(nz + '*', (iscale(self.c, 8),), iscale(K, 2))
                P.prove(self.ob(f'{tag}:nonzero'), list(st.pc), self.ex.load1(st, p1, Ty('int', 16)), atom_int('r2i', (self.flag(R),)))

        def extra1(tag, s):
            st = s.st.copy()
            for f in self.colfacts + self.flagfacts(R):
                st.assume(f)
            old = self.load(self.it.start, self.respt(K, self.c))
            got = self.load(st, self.respt(K, self.c))
            nested = [a for a in subterms(got) if a is old] or any('estedRev' in show(c) for c in s.st.pc)
            a = self.A0(R)
            t = time.time()
            r1 = P.eq(list(st.pc), got, a)
            r2 = P.eq(list(st.pc), got, self.join(old, a))
            ok = r1[0] == 'proved' or r2[0] == 'proved'
            self.indmodes.add('set' if r1[0] == 'proved' else 'add' if r2[0] == 'proved' else '?')
            P.obls.append(Obl(self.ob(f'{tag}:result'), 'proved' if ok else 'refuted', r1[1] if r1[0] == 'proved' else r2[1],
                              time.time() - t, '' if ok else f'results[indexi] = {show(got)}'))
            o = ivar('o_')
            st = s.st.copy()
            for f in self.colfacts:
                st.assume(f)
            st.assume(bnot(ieq(o, K)))
            P.prove(self.ob(f'{tag}:result-frame'), list(st.pc), self.load(st, self.respt(o, self.c)), self.load(self.it.start, self.respt(o, self.c)))
        self.indmodes = set()
        cells = [('R', R, [], self.t0(), None)]
        self.special(nm, [p if ref else R], [], lambda: [('R', R, [], self.t0(), self.zero), self.keepcell(other)] + ([self.keepcell(p, 'p')] if ref else []),
                     1, self.tay1(), locfacts([p, R, other]), 'ind', (res, nz), extra=extra,
                     setup=(lambda st: self.setcell(st, self.pb(p), i2r(R))) if ref else None)
        if nz:
            P.holds(self.ob(f'{nm}:stores-nonzero'), bool(nzw), (), 'the relevance flags are reported')
        P.holds(self.ob(f'{nm}:stores-result'), 'set' in self.indmodes, (), 'outside a nested evaluation the gradient is assigned')

    def assign_dep(self):
        r, other = L('r_'), L('other_')
        K = self.it.gen[self.dep_phi]
        self.special('assign_dep', [r], [], lambda: [
            ('r', r, [], self.start_load(self.p0(r)), self.join(self.A0(r), self.lag(K, self.c))), self.keepcell(other)],
            0, None, locfacts([r, other]), 'dep')

    def subscript(self, nm):
        a, vec, r, i, n, o = [ivar(x) for x in ('a_', 'V_', 'r_', 'i_', 'n_', 'O_')]
        fx = locfacts([a, vec, r, o, i]) + [ilt(i, n), ile(1, n), bnot(ieq(a, r)), bor(ilt(a, vec), ile(iadd(vec, n), a)),
                                            bor(ilt(r, vec), ile(iadd(vec, n), r))]
        el = iadd(vec, i)

        def setup(st):
            for f in fx:
                st.assume(f)
            self.setcell(st, self.pb(a), i2r(i))
            if nm == 'subscript':
                self.setcell(st, self.p0(r), self.load(st, self.p0(el)))
            else:
                self.setcell(st, self.pb(r), i2r(el))
        of = [bnot(ieq(o, r)), bnot(ieq(o, a))]
        if nm == 'subscript':
            cells = lambda: [('r', r, [], self.t0(), self.zero), ('element', el, [], self.start_load(self.p0(el)), self.join(self.A0(el), self.A0(r))),
                             self.keepcell(o, facts=of + [bnot(ieq(o, el))])]
        else:
            cells = lambda: [('r', r, [], self.t0(), self.A0(r)), self.keepcell(o, facts=of)]
        self.special(nm, [r, vec, a], [i2r(n)], cells, 1, self.tay1(), fx, setup=setup)

    def vectors(self):
        n = ivar('n_')
        rr, aa, bb, oo, k, x = [ivar(z) for z in ('R_', 'A_', 'B_', 'O_', 'k_', 'X_')]
        vf = [ile(0, n)] + locfacts([rr, aa, bb, oo, k])
        dis = lambda p, q: bor(ile(iadd(p, n), q), ile(iadd(q, n), p))
        notin = lambda y, z: bor(ilt(y, z), ile(iadd(z, n), y))
        kin = [ile(0, k), ilt(k, n)]
        pl = lambda z: iadd(z, k)
        T0 = lambda l: self.start_load(self.p0(l))

        def A(l):
            return self.start_load(self.pA(l, self.c))
        # what forward pushed: values of the result range in ascending order
        tayv = lambda q: self.stack(isub(isub(n, q), 1))
        self.guard('take_stock_op', lambda: self.special(
            'take_stock_op', [rr, n], [], lambda: [('r+k', pl(rr), kin, None, self.zero), self.keepcell(oo, facts=[notin(oo, rr)])],
            facts=vf, nvals=n))
        self.guard('death_not', lambda: self.death_not())
        j = ivar('j_')
        Z = self.zero
        to = self.flow
        self.guard('vec_copy', lambda: self.special(
            'vec_copy', [rr, n, aa], [], lambda: [
                ('r+k', pl(rr), kin, tayv(k), Z), ('a+k', pl(aa), kin, T0(pl(aa)), to(pl(aa), pl(rr), None)),
                self.keepcell(oo, facts=[notin(oo, rr), notin(oo, aa)])], n, facts=vf + [dis(aa, rr)]))
        self.guard('vec_dot', lambda: self.special(
            'vec_dot', [rr, n, bb, aa], [], lambda: [
                ('r', rr, [], self.t0(), Z),
                ('a+k', pl(aa), kin, T0(pl(aa)), to(pl(aa), rr, pl(bb))),
                ('b+k', pl(bb), kin, T0(pl(bb)), to(pl(bb), rr, pl(aa))),
                self.keepcell(oo, facts=[bnot(ieq(oo, rr)), notin(oo, aa), notin(oo, bb)])], 1, self.tay1(),
            facts=vf + [notin(rr, aa), notin(rr, bb), dis(aa, bb)]))
        self.guard('vec_axpy', lambda: self.special(
            'vec_axpy', [rr, n, bb, aa, x], [], lambda: [
                ('r+k', pl(rr), kin, tayv(k), Z),
                ('a+k', pl(aa), kin, T0(pl(aa)), to(pl(aa), pl(rr), x)),
                ('b+k', pl(bb), kin, T0(pl(bb)), to(pl(bb), pl(rr), None)),
                self.axpy_x(x, rr, aa, n, j, k, kin),
                self.keepcell(oo, facts=[notin(oo, rr), bnot(ieq(oo, x)), notin(oo, aa), notin(oo, bb)])], n,
            facts=vf + [ile(0, x), notin(x, rr), notin(x, aa), notin(x, bb), dis(aa, rr), dis(bb, rr), dis(aa, bb)]))
        # the result is the vector that is scaled (whose old values are the restored ones), or the one that is added
        self.guard('vec_axpy[r=a]', lambda: self.special(
            'vec_axpy', [rr, n, bb, rr, x], [], lambda: [
                ('r+k', pl(rr), kin, tayv(k), self.gain(pl(rr), x)),
                ('b+k', pl(bb), kin, T0(pl(bb)), to(pl(bb), pl(rr), None)),
                self.axpy_x(x, rr, rr, n, j, k, kin, old=tayv),
                self.keepcell(oo, facts=[notin(oo, rr), bnot(ieq(oo, x)), notin(oo, bb)])], n,
            facts=vf + [ile(0, x), notin(x, rr), notin(x, bb), dis(bb, rr)], variant='[r=a]'))
        self.guard('vec_axpy[r=b]', lambda: self.special(
            'vec_axpy', [rr, n, rr, aa, x], [], lambda: [
                ('r+k', pl(rr), kin, tayv(k), self.gain(pl(rr), None)),
                ('a+k', pl(aa), kin, T0(pl(aa)), to(pl(aa), pl(rr), x)),
                self.axpy_x(x, rr, aa, n, j, k, kin),
                self.keepcell(oo, facts=[notin(oo, rr), bnot(ieq(oo, x)), notin(oo, aa)])], n,
            facts=vf + [ile(0, x), notin(x, rr), notin(x, aa), dis(aa, rr)], variant='[r=b]'))
        self.guard('vec_axpy[a=b]', lambda: self.special(
            'vec_axpy', [rr, n, aa, aa, x], [], lambda: [
                ('r+k', pl(rr), kin, tayv(k), Z),
                ('a+k', pl(aa), kin, T0(pl(aa)), self.both(pl(aa), pl(rr), x)),
                self.axpy_x(x, rr, aa, n, j, k, kin),
                self.keepcell(oo, facts=[notin(oo, rr), bnot(ieq(oo, x)), notin(oo, aa)])], n,
            facts=vf + [ile(0, x), notin(x, rr), notin(x, aa), dis(aa, rr)], variant='[a=b]'))

    def flow(self, l, r, m):
        """adjoint of l after adding that of the result r times the value of m (None: times 1)"""
        a = self.A0(r)
        return radd(self.A0(l), a if m is None else rmul(a, self.start_load(self.p0(m))))

    def stack(self, b):
        """the b-th value from the top of the Taylor stack"""
        return rcell(TAY, iscale(isub(ivar('TSP'), iadd(b, 1)), 8))

    def gain(self, r, m):
        """adjoint of a location that held the result itself and is an operand too"""
        a = self.A0(r)
        return a if m is None else rmul(a, self.start_load(self.p0(m)))

    def both(self, l, r, m):
        return radd(self.flow(l, r, m), self.A0(r))

    def axpy_x(self, x, rr, aa, n, j, k, kin, old=None):
        T0 = lambda l: self.start_load(self.p0(l))
        A = lambda l: self.start_load(self.pA(l, self.c))
        v = T0(iadd(aa, j)) if old is None else old(j)
        return ('x', x, [], T0(x), radd(A(x), rsum(j, 0, n, rmul(A(iadd(rr, j)), v))))

    def death_not(self):
        a, b, o, k = ivar('A_'), ivar('B_'), ivar('O_'), ivar('k_')
        n = iadd(isub(b, a), 1)
        kin = [ile(0, k), ilt(k, n)]
        # forward pushed from the last location to the first
        self.special('death_not', [b, a], [], lambda: [
            ('a+k', iadd(a, k), kin, self.stack(k), self.zero), self.keepcell(o, facts=[bor(ilt(o, a), ilt(b, o))])],
            n, None, locfacts([a, b, o]) + [ile(a, b)])

    def check_all(self, only=None):
        self.just = only if only == ('assign_p',) else None
        if only is None or 'special' in only or self.just:
            self.check_special()
        if only is None or 'special' in only:
            self.check_prologue()
        for nm, o in {**OPS, **POINTS}.items():
            if only is None or nm in only:
                self.check_op(o)
        return self.prover.obls
