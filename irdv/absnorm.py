"""Abs-normal sweeps (property C20): ordinary contracts for every operation,
and the switching contract for abs_val."""
import os, re
from sweep import *
from sweep import Forward1
from sweeprev import Reverse1

I16 = Ty('int', 16)
SIG = Ptr('SIG', (), 0)


def c_firstsign(ex, st, a, ins):
    """firstsign(p, u, du): -1, 0 or 1, reads u and du only (see job firstsign)"""
    n, u, du = a[0], a[1], a[2]
    st.ev = st.ev + (('firstsign', (n, u, du, ex.load1(st, u, D), dict(st.mem))),)
    fs = ivar('FS')
    st.assume(ile(-1, fs))
    st.assume(ile(fs, 1))
    return [(st, fs)]


CONTRACTS = {'ValueTape::signature': lambda ex, st, a, ins: [(st, SIG)], 'firstsign': c_firstsign}


class Switching:
    """what the forward and reverse abs-normal sweeps have in common"""
    sw_phi = None

    def infer_switch(self, obj):
        n = 0
        for s in self.run_abs()[0]:
            base, log = s.st.mem.get(obj, ({}, None))
            node = log
            while node:
                e, node = node
                if isinstance(e, W):
                    k = exact_div(e.off if not obj.endswith('*') else e.off, 8)
                    self.sw_phi = next((x for x, g in self.it.gen.items() if g is k), self.sw_phi)
        if self.sw_phi is None:
            raise NotInferred('number of the switching variable')
        self.sw = self.it.gen[self.sw_phi]

    def switch_counter(self, tag, s, step):
        self.prover.prove(self.ob(f'{tag}:switch-counter'), list(s.st.pc), self.phi(s)[self.sw_phi], iadd(self.sw, step))

    def writes(self, tag, s, name, cells, facts=()):
        """the only writes to the caller's array name are to the given cells"""
        base, log = s.st.mem.get(name, ({}, None))
        _, l0 = self.it.start.mem.get(name, ({}, None))
        node = log
        while node is not None and node is not l0:
            e, node = node
            pc = list(s.st.pc) + [e.guard]
            for v, a, b in getattr(e, 'vars', ()) or ():
                v = mk('lin', (0, ((v, 1),)), 'I')
                pc += [ile(a, v), ilt(v, b)]
            for rows, lo, hi in cells:
                n = getattr(e, 'n', 1) if not isinstance(e, W) else 1
                bad = bor(ilt(e.off, lo), ilt(hi, iadd(e.off, iscale(n, 8) if not isinstance(e, W) else e.size)))
                for x, y in zip(e.rows, rows):
                    bad = bor(bad, bnot(ieq(x, y)))
            ok = self.ex.solver.check([c for c in pc if c is not True] + [bad]) == 'unsat'
            self.prover.holds(self.ob(f'{tag}:frame {name}'), ok, (), f'{e}')


class AbsForward(Switching, Forward1):
    def __init__(self, modules, src, fname, args, pos, sig=None, **k):
        """sig: None (plain), 'base' (no direction signature), 'dir'"""
        self.sig = sig
        self.abs_tag = None
        super().__init__(modules, src, fname, args, pos, contracts=CONTRACTS, **k)

    def run_abs(self):
        return self.run('abs_val', [L('a_'), L('r_')], [rvar('c0')])

    def infer_layout(self):
        super().infer_layout()
        self.infer_switch(f'arg{self.pos["swargs"]}')

    def aux_phis(self, tag, s, inc=None):
        super().aux_phis(tag, s, inc)
        self.switch_counter(tag, s, 0)

    def check_prologue(self):
        super().check_prologue()
        for s in self.it.prologue_stops:
            self.prover.prove(self.ob('start:switch-counter'), list(s.st.pc), self.phi(s)[self.sw_phi], 0)
            self.prover.prove(self.ob('start:tape-kind'), list(s.st.pc), bnot(ieq(ifn('stat', self.pos['no_min_max']), 0)), True)
            if 'swcheck' in self.pos:
                self.prover.prove(self.ob('start:switches'), list(s.st.pc), ivar(f'arg{self.pos["swcheck"]}'), ifn('stat', self.pos['num_switches']))

    def check_op(self, o):
        if o.name == 'abs_val':
            for m in aliasings(o):
                self.guard(f'abs_val[{"/".join(sorted(set(m.values())))}]', self.check_abs, o, m)
        else:
            super().check_op(o)

    def check_abs(self, o, m):
        P, ex = self.prover, self.ex
        tag = f'abs_val[{",".join(sorted(set(m.values())))}]'
        locs = {r: L(n + '_') for r, n in m.items()}
        other = L('other_')
        a, r = locs['a'], locs['r']
        v = [rvar('c0')]

        def setup(st):
            for l in list(locs.values()) + [other]:
                st.assume(ile(0, l))
        for stop in self.stops:
            bk, ext, ret = self.run('abs_val', [a, r], v, setup=setup, stop=stop)
            self.paths += len(bk)
            self.health(tag)
            start = self.it.start
            x = self.start_load(self.p0(a))
            t = lambda c: self.start_load(self.pT(a, c))
            y = ivar('FS')
            sw8 = iscale(self.sw, 8)
            # the argument and its tangent the sweep goes on with
            xa, ta = x, t
            if self.sig:
                sb = icell(f'arg{self.pos["sigbase"]}', iscale(self.sw, 2))
                kink = ieq(sb, 0)
                xa = rite(kink, R0, x)
                if self.sig == 'dir':
                    sd = icell(f'arg{self.pos["sigdir"]}', iscale(self.sw, 2))
                    def ta(c):
                        q = t(c)
                        one = rite(ilt(0, sd), rite(rlt(R0, q), q, R0), rite(ilt(sd, 0), rite(rlt(q, R0), q, R0), R0))
                        return rite(kink if self.ndir == 1 else band(kink, ieq(c, 0)), one, q)
            for pc, what in ex.fails:
                if ex.solver.check(list(pc)) != 'unsat':
                    P.holds(self.ob(f'{tag}:no-failure'), False, (), f'{what} when {[show(c) for c in pc][:6]}')
            for z in list(ext) + list(ret):
                st = z.st if isinstance(z, Stop) else z[0]
                if ex.solver.check(list(st.pc)) != 'unsat':
                    P.holds(self.ob(f'{tag}:leaves-sweep'), False, (), 'the sweep ends')
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            rf = [] if self.ret_expr is None else None
            want_ret = o.ret({'a': x, 'r': None}, v, self.ret_expr) if self.ret_expr is not None else None
            for s in bk:
                # exactly at a tie the code may or may not be lowered to 1
                nt = bnot(req(x, R0))
                self.common(tag, s, 2, 1, None)
                P.prove(self.ob(f'{tag}:return-code'), list(s.st.pc) + [nt], self.phi(s)[self.ret_phi], want_ret)
                Forward1.aux_phis(self, tag, s)
                self.switch_counter(tag, s, 1)
                self.check_push(tag, s, [r], [])
                pc = list(s.st.pc)
                swa = f'arg{self.pos["swargs"]}'
                P.prove(self.ob(f'{tag}:switching-variable'), pc, self.load(s.st, Ptr(swa, (), sw8)), x)
                P.prove(self.ob(f'{tag}:signature'), pc, self.load(s.st, Ptr('SIG', (), sw8)), x)
                self.writes(tag, s, swa, [((), sw8, iadd(sw8, 8))])
                self.writes(tag, s, 'SIG', [((), sw8, iadd(sw8, 8))])
                allowed = [swa]
                fr = None
                if self.ndir is not None:
                    c = self.c if self.ndir != 1 else 0
                    stc = s.st.copy()
                    for f in self.colfacts:
                        stc.assume(f)
                    swt = f'arg{self.pos["swtaylors"]}' + ('' if self.ndir == 1 else '*')
                    q = Ptr(swt, (), sw8) if self.ndir == 1 else Ptr(swt, (sw8,), iscale(c, 8))
                    P.prove(self.ob(f'{tag}:switching-tangent'), pc + self.colfacts, self.load(stc, q), ta(c))
                    self.writes(tag, s, swt, [((), sw8, iadd(sw8, 8))] if self.ndir == 1 else [((sw8,), 0, iscale(self.ndir, 8))])
                    allowed.append(swt)
                    if self.sig:
                        fr = lambda c: rmul(i2r(y), ta(c))
                    else:
                        fr = lambda c: rsub(rabs(radd(x, t(c))), rabs(x))
                    if 'sigsw' in self.pos:
                        ss = f'arg{self.pos["sigsw"]}'
                        sw2 = iscale(self.sw, 2)
                        P.prove(self.ob(f'{tag}:switch-sign'), pc, self.load(s.st, Ptr(ss, (), sw2), I16), y)
                        self.writes(tag, s, ss, [((), sw2, iadd(sw2, 2))])
                        allowed.append(ss)
                        calls = [e for e in s.st.ev if e[0] == 'firstsign']
                        P.holds(self.ob(f'{tag}:switch-sign-calls'), len(calls) == 1, (), f'{len(calls)} sign computations')
                        for _, (n, u, du, uv, mem) in calls[:1]:
                            P.prove(self.ob(f'{tag}:switch-sign-of'), pc, uv, xa)
                            P.prove(self.ob(f'{tag}:switch-sign-directions'), pc, n, self.ndir)
                            stm = stc.copy()
                            stm.mem = mem
                            P.prove(self.ob(f'{tag}:switch-sign-of-tangent'), pc + self.colfacts,
                                    self.load(stm, du.add(iscale(c, 8))), ta(c))
                self.frame_args(tag, s, {n.rstrip('*') for n in allowed})
                cells = [('r', r, [], rabs(xa), fr)]
                if a is not r:
                    cells.append(('a', a, [], xa, ta if self.ndir is not None else None))
                cells.append(self.keepcell(other))
                self.check_cells(tag, s, cells, [])


def rabs(x):
    return rite(rlt(x, R0), rneg(x), x)


class AbsReverse(Switching, Reverse1):
    def __init__(self, modules, src, fname, args, pos, sig=False, **k):
        self.sig = sig
        super().__init__(modules, src, fname, args, pos, **k)

    def run_abs(self):
        return self.run('abs_val', [L('r_'), L('a_')], [rvar('c0')], tays=self.tay1())

    def infer_layout(self):
        super().infer_layout()
        if not self.sig:
            self.infer_switch(f'arg{self.pos["resultsSwitch"]}' + ('' if self.ndir is None else '*'))
            return
        for s in self.run_abs()[0]:      # the counter of the switching variable decides which signature is read
            for x, g in self.it.gen.items():
                if isinstance(g, E) and x not in (self.ind_phi, self.dep_phi, self.ret_phi):
                    q = self.phi(s)[x]
                    if isinstance(q, E) and isinstance(g, E) and isub(q, g) == -1:
                        self.sw_phi = x
        if self.sw_phi is None:
            raise NotInferred('number of the switching variable')
        self.sw = self.it.gen[self.sw_phi]

    def counters(self, tag, s, inc=None):
        super().counters(tag, s, inc)
        self.switch_counter(tag, s, 0)

    def check_prologue(self):
        super().check_prologue()
        sc = ivar(f'arg{self.pos["swchk"]}')
        for s in self.it.prologue_stops:
            self.prover.prove(self.ob('start:switch-counter'), list(s.st.pc), self.phi(s)[self.sw_phi], isub(sc, 1))
            self.prover.prove(self.ob('start:tape-kind'), list(s.st.pc), bnot(ieq(ifn('stat', self.pos['no_min_max']), 0)), True)
            self.prover.prove(self.ob('start:switches'), list(s.st.pc), sc, ifn('stat', self.pos['num_switches']))

    def check_op(self, o):
        if o.name == 'abs_val':
            for m in aliasings(o):
                self.guard(f'abs_val[{"/".join(sorted(set(m.values())))}]', self.check_abs, o, m)
        else:
            super().check_op(o)

    def check_abs(self, o, m):
        P, ex = self.prover, self.ex
        tag = f'abs_val[{",".join(sorted(set(m.values())))}]'
        locs = {r: L(n + '_') for r, n in m.items()}
        other = L('other_')
        a, r = locs['a'], locs['r']

        def setup(st):
            for l in list(locs.values()) + [other]:
                st.assume(ile(0, l))
        for stop in self.stops:
            bk, ext, ret = self.run('abs_val', [r, a], [rvar('c0')], setup=setup, stop=stop, tays=self.tay1())
            self.paths += len(bk) + len(ext) + len(ret)
            self.health(tag)
            self.noexit(tag, ext, ret)
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            Ar, Aa = self.A0(r), self.A0(a)
            if self.sig:
                w = rmul(i2r(icell(f'arg{self.pos["siggrad"]}', iscale(self.sw, 2))), Ar)
            else:
                n = f'arg{self.pos["lagrangeSwitch"]}'
                w = rcell(n, iscale(self.sw, 8)) if self.ndir is None else rcell(n + '*', iscale(self.c, 8), iscale(self.sw, 8))
            cells = [('r', r, [], self.t0(), w if a is r else R0)]
            if a is not r:
                cells.append(('a', a, [], self.load(self.it.start, self.p0(a)), radd(Aa, w)))
            cells.append(('other', other, [], self.load(self.it.start, self.p0(other)), self.A0(other)))
            for s in bk:
                self.common(tag, s, 2, 1, self.ret_expr)
                Reverse1.counters(self, tag, s)
                self.switch_counter(tag, s, -1)
                allowed = []
                if not self.sig:
                    nm = f'arg{self.pos["resultsSwitch"]}' + ('' if self.ndir is None else '*')
                    sw8 = iscale(self.sw, 8)
                    st = s.st.copy()
                    for f in self.colfacts:
                        st.assume(f)
                    q = Ptr(nm, (), sw8) if self.ndir is None else Ptr(nm, (iscale(self.c, 8),), sw8)
                    P.prove(self.ob(f'{tag}:switch-adjoint'), list(st.pc), self.load(st, q), Ar)
                    if self.ndir is None:
                        self.writes(tag, s, nm, [((), sw8, iadd(sw8, 8))])
                    else:
                        self.columns(tag, s, nm, sw8)
                    allowed.append(nm.rstrip('*'))
                self.frame_args(tag, s, allowed)
                self.check_state(tag, s, cells, 1)

    def columns(self, tag, s, nm, off):
        """all writes go to column off of rows 0..nrows-1"""
        base, log = s.st.mem.get(nm, ({}, None))
        _, l0 = self.it.start.mem.get(nm, ({}, None))
        while log is not None and log is not l0:
            e, log = log
            pc = list(s.st.pc) + [e.guard]
            for v, x, y in getattr(e, 'vars', ()) or ():
                v = mk('lin', (0, ((v, 1),)), 'I')
                pc += [ile(x, v), ilt(v, y)]
            bad = True if not isinstance(e, W) else bor(bnot(ieq(e.off, off)), bor(ilt(e.rows[0], 0), ile(iscale(self.ndir, 8), e.rows[0])))
            ok = bad is not True and self.ex.solver.check([c for c in pc if c is not True] + [bad]) == 'unsat'
            self.prover.holds(self.ob(f'{tag}:frame {nm}'), ok, (), f'{e}')


def stat_index(name):
    t = open(os.path.join(build.INC, 'adolc/valuetape/tapeinfos.h')).read()
    body = re.search(r'enum StatEntries\s*{(.*?)}', t, re.S).group(1)
    names = re.findall(r'^\s*(\w+)\s*,', re.sub(r'/\*.*?\*/', '', body, flags=re.S), re.M)
    return names.index(name)


def firstsign(module, n):
    from execu import Executor, State
    from prover import Prover
    ex = Executor([module], {})
    fn = next(f for k, f in ex.fn_index.items() if ex.short.get(k) == 'firstsign')
    P = Prover()
    st = State()
    u = rcell('U', 0)
    d = [rcell('DU', 8 * i) for i in range(n)]
    # the code treats values up to 1e-12 as zero
    paths = ex.call_function(st, fn, [n, Ptr('U', (), 0), Ptr('DU', (), 0)])
    tag = f'firstsign/{n} directions'
    P.holds(f'{tag}:loops', not ex.bounded and not ex.unmodelled and bool(paths), (), f'{ex.bounded} {ex.unmodelled}')
    want = 0
    for x in reversed(d):
        want = iite(rlt(R0, x), 1, iite(rlt(x, R0), -1, want))
    for s, v in paths:
        pc = list(s.pc)
        for what, c in (('large', rlt(rc('1/1000000'), u)), ('small', rlt(u, rc('-1/1000000'))), ('zero', req(u, R0))):
            if ex.solver.check(pc + [c]) == 'unsat':
                continue
            P.prove(f'{tag}:{what}', pc + [c], v, 1 if what == 'large' else -1 if what == 'small' else want)
        P.holds(f'{tag}:frame', not any(nm in s.mem and s.mem[nm][1] for nm in ('U', 'DU')), (), 'writes to its arguments')
    return P.obls
