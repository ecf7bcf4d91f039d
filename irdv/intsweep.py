"""Contracts of the bit-pattern sweeps (int_forward_*, int_reverse_*): the
pattern of a result contains the patterns of all operands it depends on and no
other bits than those of the operands; everything else is unchanged."""
from sweep import *
from sweep import Forward1
from sweeprev import Reverse1, subterms
from interp import I64
import specs

BW = 4            # sizeof(bitword_t)
IBW = Ty('int', 32)


class Pat:
    """need: list of (condition, pattern) that must be contained; may: further patterns allowed"""

    def __init__(self, need, may=(), over=()):
        self.over = over      # indices of interest in reductions over several operands
        self.need = list(need)
        self.may = None if may is None else list(may)     # None: no upper bound


def depends(o, x0, v, tight):
    """role -> condition under which the result depends on the operand"""
    out = {}
    if tight and o.name == 'min_op':
        return {'a': rle(x0['a'], x0['b']), 'b': rle(x0['b'], x0['a'])}
    for r, q in o.partials(x0, v).items():
        c = True
        if tight and isinstance(q, E) and q.op == 'rite':
            c, a, b = q.args
            if a is R0:
                c = bnot(c)
            elif b is not R0:
                c = True
        out[r] = c
    return out


def prove_pat(P, name, pc, got, want):
    if not isinstance(want, Pat):
        P.prove(name, pc, got, 0 if want is R0 else want)
        return
    if isinstance(got, E):      # an element of an or-reduction is contained in it
        for a in subterms(got):
            if a.op == 'iors':
                for k in want.over:
                    if P.solver.check(list(pc) + [bnot(band(ile(0, k), ilt(k, a.args[1])))]) == 'unsat':
                        got = ibor(got, subst(a.args[2], {the_atom(a.args[0]): k}))
    for k, (c, t) in enumerate(want.need):
        pc2 = list(pc) + ([c] if c is not True else [])
        if P.solver.check(pc2) == 'unsat':
            continue
        P.prove(f'{name} contains {k}', pc2, ibor(got, t), got)
    if want.may is None:
        return
    up = 0
    for c, t in want.need:
        up = ibor(up, t)
    for t in want.may:
        up = ibor(up, t)
    P.prove(f'{name} bounded', pc, ibor(up, got), up)


class IntForward(Forward1):
    cellsize = BW

    def __init__(self, *a, tight=True, **k):
        self.tight = tight
        super().__init__(*a, **k)

    def nonzero(self, a):
        return bnot(ieq(a, 0))

    def tiecells(self, o, locs, cells):
        return cells

    def tieadj(self, o, locs, adj):
        pass

    def infer_ret(self):
        if self.tight:
            return super().infer_ret()
        self.ret_expr = self.ret_phi = None
        for st, v in self.infer_return():      # no code can be lowered without values
            self.prover.prove(self.ob('end_of_tape:return-code'), list(st.pc), v, 3)

    def start_load(self, p, ty=D):
        if p is None:
            return rvar(fresh('x'))
        return super().start_load(p, I64 if p.obj == self.Tp.obj else ty)

    def load(self, st, p, ty=D):
        if p is None:
            return rvar(fresh('x'))
        return super().load(st, p, I64 if getattr(self, 'Tp', None) and p.obj == self.Tp.obj else ty)

    def p0(self, l):
        return super().p0(l) if self.T0p is not None else None

    def argcell(self, k, c):
        return icell(f'arg{self.pos["argument"]}*', iscale(k, 8), iscale(c, BW))

    def infer_layout(self):
        r = L('r_')
        bk, ext, ret = self.run('assign_ind', [r], [])
        if not bk:
            raise NotInferred('assign_ind does not continue')
        self.T0p = self.Tp = self.ind_phi = None
        for name, (base, log) in bk[0].st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith('al.'):
                continue
            node = log
            while node:
                e, node = node
                if not isinstance(e, W) or not isinstance(e.val, E):
                    continue
                a = e.val
                if a.op == 'rcell' and self.tight and a.args[0] == f'arg{self.pos["basepoint"]}':
                    self.T0p = Ptr(name, e.rows, e.off)
                elif is_atom(a) and the_atom(a).op == 'icell' and the_atom(a).args[0] == f'arg{self.pos["argument"]}*':
                    self.Tp = Ptr(name, e.rows, None)
                    k = exact_div(the_atom(a).args[1], 8)
                    self.ind_phi = next((x for x, g in self.it.gen.items() if g is k), None)
        if (self.tight and self.T0p is None) or self.Tp is None or self.ind_phi is None:
            raise NotInferred(f'value/pattern arrays {self.T0p} {self.Tp} {self.ind_phi}')
        self.rat = the_atom(r)

    def check_cells(self, tag, s, cells, pre):
        P = self.prover
        for label, l, facts, v, tf in cells:
            pc = list(s.st.pc) + list(facts)
            st = s.st.copy()
            for f in facts:
                st.assume(f)
            if self.tight and v is not None:
                P.prove(self.ob(f'{tag}:value[{label}]'), pc, self.load(st, self.p0(l)), v)
            if tf is not None:
                for f in self.colfacts:
                    st.assume(f)
                prove_pat(P, self.ob(f'{tag}:pattern[{label}]'), pc + self.colfacts, self.load(st, self.pT(l, self.c)), tf(self.c))

    def cells_of(self, o, m, locs, x0, v, other):
        out = []
        done = set()
        if o.out:
            dep = depends(o, x0, v, self.tight)
            allr = [locs[r] for r in locs if not (o.ref and r == 'p')]

            def pat(dep):
                return lambda c: Pat([(k, self.start_load(self.pT(locs[r], c))) for r, k in dep.items()],
                                     [self.start_load(self.pT(l, c)) for l in allr])
            out.append((o.out, locs[o.out], [], o.value(x0, v), pat(dep)))
            done.add(locs[o.out])
            if o.aux:
                r, vf, pf = o.aux
                out.append((r, locs[r], [], vf(x0, v), pat({q: True for q in pf(x0, v)})))
                done.add(locs[r])
        for r, l in list(locs.items()) + [('other', other)]:
            if l in done:
                continue
            done.add(l)
            out.append((r, l, [], self.start_load(self.p0(l)) if self.tight else None,
                        (lambda l: lambda c: self.start_load(self.pT(l, c)))(l)))
        return out

    def common(self, tag, s, o_locs, o_vals, retwant=None):
        super().common(tag, s, o_locs, o_vals, retwant if self.tight else None)

    def check_special(self):
        r, a, b, other = L('r_'), L('a_'), L('b_'), L('other_')
        nn = locfacts([r, a, b, other])
        zero = lambda c: R0
        K = self.it.gen[self.ind_phi]
        base = self.basecell(K) if self.tight else R0
        self.guard('assign_ind', lambda: self.special(
            'assign_ind', [r], [], lambda w: [('r', r, [], base, lambda c: self.argcell(K, c)), self.keepcell(other)], inc='ind', facts=nn))
        self.guard('assign_dep', self.assign_dep)
        self.guard('assign_p', lambda: self.special(
            'assign_p', [ivar('pi'), r], [], lambda w: [('r', r, [], rcell('PARAM', iscale(ivar('pi'), 8)), zero), self.keepcell(other)],
            facts=nn))
        for nm in ('start_of_tape', 'end_of_int', 'end_of_val'):
            self.guard(nm, lambda: self.special(nm, [], [], lambda w: [self.keepcell(other)], facts=nn, extra=self.block_event(nm)))
        self.guard('end_of_op', lambda: self.end_of_op(nn, other))
        n = ivar('n_')
        rr, aa, bb, oo, k = [ivar(x) for x in ('R_', 'A_', 'B_', 'O_', 'k_')]
        vf = [ile(0, n)] + locfacts([rr, aa, bb, oo, k])
        dis = lambda x, y: bor(ile(iadd(x, n), y), ile(iadd(y, n), x))
        kin = [ile(0, k), ilt(k, n)]
        out1 = lambda: [bor(ilt(oo, rr), ile(iadd(rr, n), oo))]
        T0 = lambda l: self.start_load(self.p0(l))
        T = lambda l, c: self.start_load(self.pT(l, c))
        pl = lambda x: iadd(x, k)
        self.guard('take_stock_op', lambda: self.special(
            'take_stock_op', [n, rr], [], lambda w: [
                ('r+k', pl(rr), kin, self.load(self.it.start, Ptr(VALF, (), iscale(k, 8))), zero),
                self.keepcell(oo, facts=out1())], facts=vf, nvals=n))
        self.guard('vec_copy', lambda: self.special(
            'vec_copy', [aa, n, rr], [], lambda w: [
                ('r+k', pl(rr), kin, T0(pl(aa)), lambda c: T(pl(aa), c)), self.keepcell(oo, facts=out1())], facts=vf + [dis(aa, rr)]))
        self.guard('vec_dot', lambda: self.special(
            'vec_dot', [aa, bb, n, rr], [], lambda w: [
                ('r', rr, kin, None, lambda c: Pat([(True, T(pl(aa), c)), (True, T(pl(bb), c))], None, [k])),
                self.keepcell(oo, facts=[bnot(ieq(oo, rr))])], facts=vf + [notin(rr, aa, n), notin(rr, bb, n)]))
        x = ivar('X_')
        self.guard('vec_axpy', lambda: self.special(
            'vec_axpy', [x, aa, bb, n, rr], [], lambda w: [
                ('r+k', pl(rr), kin, radd(rmul(T0(x), T0(pl(aa))), T0(pl(bb))),
                 lambda c: Pat([(True, T(x, c)), (True, T(pl(aa), c)), (True, T(pl(bb), c))])),
                self.keepcell(oo, facts=out1())], facts=vf + [ile(0, x), notin(x, rr, n), dis(aa, rr), dis(bb, rr)]))
        if self.tight:
            self.guard('subscript', lambda: self.subscript('subscript'))
            self.guard('subscript_ref', lambda: self.subscript('subscript_ref'))

    def assign_dep(self):
        r, other = L('r_'), L('other_')
        vp = f'arg{self.pos["valuepoint"]}' if self.tight else None
        ty = f'arg{self.pos["taylors"]}'
        P = self.prover
        bk, ext, ret = self.run('assign_dep', [r], [])
        self.dep_phi = None
        for s in bk:
            for name, (base, log) in s.st.mem.items():
                if name.rstrip('*') == ty:
                    node = log
                    while node:
                        e, node = node
                        if isinstance(e, W):
                            k = exact_div(e.rows[0] if e.rows else e.off, 8)
                            for x, g in self.it.gen.items():
                                if g is k:
                                    self.dep_phi = x
        if self.dep_phi is None:
            raise NotInferred('index of the dependent')
        K = self.it.gen[self.dep_phi]

        def extra(tag, s):
            if vp:
                P.prove(self.ob(f'{tag}:result'), list(s.st.pc), self.load(s.st, Ptr(vp, (), iscale(K, 8))), self.start_load(self.p0(r)))
            st = s.st.copy()
            for f in self.colfacts:
                st.assume(f)
            q = Ptr(ty + '*', (iscale(K, 8),), iscale(self.c, BW))
            P.prove(self.ob(f'{tag}:result-pattern'), list(st.pc), Base.load(self, st, q, IBW), self.start_load(self.pT(r, self.c)))
            o = ivar('o_')
            st.assume(bnot(ieq(o, K)))
            P.prove(self.ob(f'{tag}:result-frame'), list(st.pc), Base.load(self, st, Ptr(ty + '*', (iscale(o, 8),), iscale(self.c, BW)), IBW),
                    icell(ty + '*', iscale(o, 8), iscale(self.c, BW)))
        self.special('assign_dep', [r], [], lambda w: [self.keepcell(r, 'r'), self.keepcell(other)], inc='dep',
                     facts=locfacts([r, other]), allowed=(vp, ty), extra=extra)

    def check_all(self, only=None):
        self.just = only if only == ('assign_p',) else None
        if only is None or 'special' in only or self.just:
            self.check_special()
        if only is None or 'special' in only:
            self.check_prologue()
        for nm, o in OPS.items():
            if not self.tight and (o.ref or o.branch):
                continue
            if only is None or nm in only:
                self.check_op(o)
        return self.prover.obls


def notin(y, z, n):
    return bor(ilt(y, z), ile(iadd(z, n), y))


class IntReverse(Reverse1):
    """adjoint bit patterns: every operand the result depends on receives the
    pattern of the result, the pattern of an overwritten result is cleared"""
    zero = 0

    def __init__(self, *a, tight=True, **k):
        self.tight = tight
        super().__init__(*a, **k)

    def nonzero(self, a):
        return bnot(ieq(a, 0))

    def tiecells(self, o, locs, cells):
        return cells

    def tieadj(self, o, locs, adj):
        pass

    def infer_ret(self):
        if self.tight:
            return super().infer_ret()
        self.ret_expr = self.ret_phi = None
        for st, v in self.infer_return():
            self.prover.prove(self.ob('end_of_tape:return-code'), list(st.pc), v, 3)

    def isA(self, p):
        return getattr(self, 'Ap', None) is not None and p.obj == self.Ap.obj

    def ty(self, p, ty):
        return I64 if self.isA(p) else IBW if p.obj.startswith('arg') else ty

    def start_load(self, p, ty=D):
        return rvar(fresh('x')) if p is None else super().start_load(p, self.ty(p, ty))

    def load(self, st, p, ty=D):
        return rvar(fresh('x')) if p is None else super().load(st, p, self.ty(p, ty))

    def p0(self, l):
        return super().p0(l) if self.T0p is not None else None

    def lag(self, k, c):
        return icell(f'arg{self.pos["lagrange"]}*', iscale(c, 8), iscale(k, BW))

    def respt(self, k, c):
        return Ptr(f'arg{self.pos["results"]}*', (iscale(c, 8),), iscale(k, BW))

    def setcell(self, st, p, v):
        if p is None:
            return
        super().setcell(st, p, v)

    def pA(self, l, c):
        m = {self.rat: l}
        return Ptr(self.Ap.obj, tuple(subst(x, m) for x in self.Ap.rows), iscale(c, 8))

    def pushed(self, push):
        return push if self.tight else []

    def prove_adj(self, name, pc, got, want):
        prove_pat(self.prover, name, pc, got, want)

    def adjoints(self, o, locs, x0, v, outl, other):
        adj = {}
        Ao = self.A0(locs[o.out])
        dep = depends(o, x0, v, self.tight)
        for l in list(locs.values()) + [other]:
            if l in adj:
                continue
            need = [] if l in outl else [(True, self.A0(l))]
            cs = [c for r, c in dep.items() if locs[r] is l]
            if not cs:
                adj[l] = need[0][1] if need else 0
                continue
            adj[l] = Pat(need + [(c, Ao) for c in cs], [Ao])
        return adj

    def common(self, tag, s, o_locs, o_vals, retwant=None):
        super().common(tag, s, o_locs, o_vals if self.tight else 0, retwant if self.tight else None)

    def check_state(self, tag, s, cells, npop):
        if not self.tight:
            cells = [(a, l, f, None, adj) for a, l, f, v, adj in (cells() if callable(cells) else cells)]
            npop = 0
        super().check_state(tag, s, cells, npop)

    def infer_layout(self):
        r = L('r_')
        t = rvar('t0')
        self.rat = the_atom(r)
        bk, ext, ret = self.run('assign_ind', [r], [], tays=self.tay([t]))
        if not bk:
            raise NotInferred('assign_ind does not continue')
        res = f'arg{self.pos["results"]}'
        self.T0p = self.Ap = self.ind_phi = self.dep_phi = None
        for name, (base, log) in bk[0].st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith('al.'):
                continue
            node = log
            while node:
                e, node = node
                if isinstance(e, W) and e.val is t and self.tight:
                    self.T0p = Ptr(name, e.rows, e.off)
                if isinstance(e, W) and name.rstrip('*') == res:
                    for x, g in self.it.gen.items():
                        if exact_div(e.off, BW) is g:
                            self.ind_phi = x
        bk, ext, ret = self.run('assign_dep', [r], [])
        if not bk:
            raise NotInferred('assign_dep does not continue')
        lg = f'arg{self.pos["lagrange"]}'
        for name, (base, log) in bk[0].st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith(('al.', 'arg')):
                continue
            node = log
            while node:
                e, node = node
                if isinstance(e, W) and isinstance(e.val, E):
                    cells = [x for x in subterms(e.val) if x.op == 'icell' and x.args[0].rstrip('*') == lg]
                    if cells:
                        self.Ap = Ptr(name, e.rows, None)
                        for x, g in self.it.gen.items():
                            if any(exact_div(q, BW) is g for q in cells[0].args[1:]):
                                self.dep_phi = x
        if (self.tight and self.T0p is None) or self.Ap is None or self.ind_phi is None or self.dep_phi is None:
            raise NotInferred(f'layout of the reverse sweep {self.T0p} {self.Ap} {self.ind_phi} {self.dep_phi}')

    def join(self, a, b):
        return ibor(a, b)

    def check_special(self):
        r, other = L('r_'), L('other_')
        nn = locfacts([r, other])
        for nm in ('end_of_int',) + (('end_of_val',) if self.tight else ()):
            self.guard(nm, lambda: self.special(nm, [], [], lambda: [self.keepcell(other)], facts=nn, extra=self.block_event(nm)))
        self.guard('end_of_op', lambda: self.end_of_op(nn, other))
        self.guard('assign_ind', lambda: self.assign_ind('assign_ind'))
        if self.tight:
            self.guard('ref_assign_ind', lambda: self.assign_ind('ref_assign_ind'))
        self.guard('assign_dep', self.assign_dep)
        self.guard('assign_p', lambda: self.special(
            'assign_p', [r, ivar('pi')], [], lambda: [('r', r, [], rvar('t0'), 0), self.keepcell(other)], 1,
            self.tay([rvar('t0')]), nn))
        if self.tight:
            self.guard('subscript', lambda: self.subscript('subscript'))
            self.guard('subscript_ref', lambda: self.subscript('subscript_ref'))
        self.vectors()

    def flow(self, l, r, m):
        return Pat([(True, self.A0(l)), (True, self.A0(r))])

    def gain(self, r, m):
        return Pat([(True, self.A0(r))])

    def both(self, l, r, m):
        return self.flow(l, r, m)

    def axpy_x(self, x, rr, aa, n, j, k, kin, old=None):
        T0 = lambda l: self.start_load(self.p0(l))
        A = lambda l: self.start_load(self.pA(l, self.c))
        return ('x', x, kin, T0(x), Pat([(True, A(x)), (True, A(iadd(rr, k)))], None, [k]))

    def check_all(self, only=None):
        self.just = only if only == ('assign_p',) else None
        if only is None or 'special' in only or self.just:
            self.check_special()
        if only is None or 'special' in only:
            self.check_prologue()
        for nm, o in OPS.items():
            if not self.tight and o.ref:
                continue
            if only is None or nm in only:
                self.check_op(o)
        return self.prover.obls
