"""C18: the ODE drivers. forodec is verified with the sweeps as contracts, its
loop over the degrees for one arbitrary iteration; accodec for one arbitrary
degree, its inner sums summarised."""
from drivers import *
from drivers import Drivers


class Ode(Drivers):
    small = False

    def new(self):
        ex = super().new()
        ex.contracts['findTape'] = lambda ex, st, a, ins: [(st, Ptr('TAPE', (), 0))]
        return ex

    def getter(self, st, name):
        r = self.ex.call_function(st.copy(), next(f for n, f in self.ex.fn_index.items() if self.ex.short.get(n) == 'ValueTape::' + name and len(f.parse().params) == 1),
                                  [Ptr('TAPE', (), 0)])
        if len(r) != 1:
            raise Unsupported(f'{name} has several results')
        return r[0][1]

    def cell(self, st, *i):
        return self.load(st, Ptr('Y' + '*' * (len(i) - 1), tuple(iscale(x, 8) for x in i[:-1]), iscale(i[-1], 8)))

    def forodec(self):
        tag, P = 'forodec', self.prover
        n, deg, dol, t = ivar('n'), ivar('deg'), ivar('dol'), ivar('tag')
        tau = rvar('tau')
        ex = self.ex
        # workspace of the tape: y[nax], z[nax], Z[nax][dax]
        ex.initfn['TAPE'] = lambda r, off, ty: Ptr(f'WS{off}', (), 0) if ty.k == 'ptr' else ivar(f'T{off}') if ty.k == 'int' else None
        ex.initfn['Y'] = lambda r, off, ty: Ptr('Y*', r + (off,), 0) if ty.k == 'ptr' else None
        s0 = State()
        wy, wz, wZ, nax, dax = [self.getter(s0, 'forodec_' + q) for q in ('y', 'z', 'Z', 'nax', 'dax')]
        P.holds(self.ob(tag, 'workspace'), len({wy.obj, wz.obj, wZ.obj}) == 3, (), 'the work arrays are not distinct')
        ex.initfn[wZ.obj] = lambda r, off, ty: Ptr(wZ.obj + '*', r + (off,), 0) if ty.k == 'ptr' else None
        ex.dims[wy.obj], ex.dims[wz.obj], ex.dims[wZ.obj] = [nax], [nax], [nax, dax]
        self.sizes, self.loops_seen, self.products = [], [], []
        F = [ile(1, n), ile(1, deg), ile(0, dol), ile(dol, deg), ile(0, nax), ile(0, dax)]
        paths = self.call(tag, tag, [t, n, tau, dol, deg, Ptr('Y', (), 0)], F)
        i, c = ivar('i'), ivar('c')
        ini = lambda a, b: rcell('Y*', iscale(a, 8), iscale(b, 8))
        vi = [ile(0, i), ilt(i, n)]
        keep = lambda j: lambda k: ieq(k, iite(ieq(j, isub(deg, 1)), deg, 0))
        zos = lambda: [('zos_forward', dict(tag=t, m=n, n=n, keep=keep(0)), dict(x=lambda a: ini(a, 0)))]
        P.holds(self.ob(tag, 'loop'), bool(self.loops_seen), (), 'no loop over the degrees')

        def sat(s, *fs):
            s = s.copy()
            for f in fs:
                s.assume(f)
            return s if ex.solver.check([x for x in s.pc if x is not True]) != 'unsat' else None

        def base(s, y):
            s2 = sat(s, *vi)
            if s2:
                self.prove(tag, 'base point kept', s2.pc, self.load(s2, y.add(iscale(i, 8))), ini(i, 0))
        for it in self.loops_seen:
            en, k, start = it['entry'], it['k'], it['start']
            ev = self.events(en)
            js = [r for r in it['step'] if it['step'][r] == 1]
            rcs = [r for r, ty in it['phis'] if ty.k == 'int' and r not in it['step']]
            P.holds(self.ob(tag, 'loop-state'), len(js) == 1 and len(rcs) == 1, (), f'{js} {rcs}')
            j, rc = it['gen'][js[0]], it['gen'][rcs[0]]
            # before the loop: the coefficients moved down by one, the first one computed if it is not given
            form = zos() if ev else []
            P.holds(self.ob(tag, 'first-sweep'), self.matches(en, form) and len(ev) == len(form), (), f'{[e[1] for e in ev]}')
            self.sure(tag, 'first-degree', en.pc, ieq(dol, 0) if ev else ile(1, dol))
            self.arguments(tag, en, form)
            self.sure(tag, 'starts', en.pc, ieq(it['v0'][js[0]], iite(ieq(dol, 0), 1, dol)))
            w0 = 3
            for e in ev:
                w0 = iite(ilt(e[6], w0), e[6], w0)
            self.prove(tag, 'code-starts', [x for x in en.pc if x is not True], it['v0'][rcs[0]], w0)
            for lo, hi in ((0, 1), (1, deg)):
                s = sat(en, *vi, ile(lo, c), ilt(c, hi))
                if s:
                    want = rmul(tau, out(ev[0], 'y', i)) if ev and lo == 0 else ini(i, iadd(c, 1))
                    self.prove(tag, 'coefficients before', s.pc, self.cell(s, i, c), want)
            base(en, self.getter(en, 'forodec_y'))
            # one arbitrary degree
            form = [('hos_forward', dict(tag=t, m=n, n=n, d=lambda d: ieq(d, j), keep=keep(j)),
                     dict(x=lambda a: ini(a, 0), X=lambda a, b: self.cell(start, a, b)))]
            for x, nw in zip(it['back'], it['news']):
                e = self.events(x.st)
                ok = self.matches(x.st, form) and len(e) == 1
                P.holds(self.ob(tag, 'sweeps'), ok, (), f'{[q[1] for q in e]}')
                if not ok:
                    continue
                P.holds(self.ob(tag, 'operand'), e[0][4]['X'][0].obj == 'Y', (), f'{e[0][4]["X"]}')
                self.arguments(tag, x.st, form)
                self.code(tag, x.st, nw[rcs[0]], form, rc)
                self.sure(tag, 'goes on', x.st.pc, band(ile(0, nw[rcs[0]]), ilt(j, deg)))
                s = sat(x.st, *vi)
                new = rmul(rdiv(tau, i2r(iadd(j, 1))), out(e[0], 'Y', i, isub(j, 1)))
                if s:
                    self.prove(tag, 'recursion', s.pc, self.cell(s, i, j), new)
                s = sat(x.st, *vi, ile(0, c), ilt(c, deg), bnot(ieq(c, j)))
                if s:
                    self.prove(tag, 'other coefficients', s.pc, self.cell(s, i, c), self.cell(start, i, c))
                base(x.st, self.getter(x.st, 'forodec_y'))
            for st, v in it['rets']:
                self.code(tag, st, v, form, rc)
                self.sure(tag, 'early', st.pc, ilt(v, 0), 'leaves the loop early without a failure')
        done = 0
        for st, v in paths:
            if not any(e[0] == 'loop' for e in st.ev):
                self.code(tag, st, v, zos(), 3)
                self.sure(tag, 'early', st.pc, ilt(v, 0), 'ends early without a failure')
                self.workspace(tag, st)
                continue
            if self.events(st):
                self.sure(tag, 'early', st.pc, ilt(v, 0), 'ends early without a failure')
                self.workspace(tag, st)
                continue
            done += 1
            its = [it for it in self.loops_seen if all(x in st.pc for x in it['start'].pc)]
            P.holds(self.ob(tag, 'after-loop'), bool(its), (), 'end state does not follow the loop')
            it = its[0]
            j = it['gen'][[r for r in it['step'] if it['step'][r] == 1][0]]
            rc = it['gen'][[r for r, ty in it['phis'] if ty.k == 'int' and r not in it['step']][0]]
            self.prove(tag, 'return-code', [x for x in st.pc if x is not True], v, rc)
            self.sure(tag, 'all-degrees', st.pc, ile(deg, j), 'ends before every degree is done')
            s = sat(st, *vi)
            if s:
                self.prove(tag, 'base point', s.pc, self.cell(s, i, 0), ini(i, 0))
            s = sat(st, *vi, ile(1, c), ile(c, deg))
            if s:
                self.prove(tag, 'coefficients', s.pc, self.cell(s, i, c), self.cell(it['start'], i, isub(c, 1)))
            self.workspace(tag, st)
        P.holds(self.ob(tag, 'completes'), done > 0, (), 'no path completes')
        self.room_obls(tag)

    def workspace(self, tag, st):
        """the work arrays have the sizes that are stored with them"""
        y, z, Z, nax, dax = [self.getter(st, 'forodec_' + q) for q in ('y', 'z', 'Z', 'nax', 'dax')]
        for p, need in ((y, [nax]), (z, [nax]), (Z, [nax, dax])):
            have = self.ex.dims.get(p.obj) or []
            self.prover.holds(self.ob(tag, 'workspace'), len(have) == len(need), (), f'{p.obj} has {have}')
            for a, b in zip(need, have):
                self.sure(tag, 'workspace size', st.pc, ile(a, b), f'{p.obj} has {b}, recorded {a}')
            self.prover.holds(self.ob(tag, 'workspace alive'), not any(e[0] == 'free' and e[1] == p for e in st.ev), (), f'{p.obj} is released')

    def accodec(self, n, deg, nz=None):
        """bounded: all entries symbolic, dimension, degree and sparsity pattern fixed"""
        tag = f'accodec[n={n},deg={deg}{"" if nz is None else ",nz=" + "".join(str(x) for r in nz for x in r)}]'
        ex = self.new()
        for o in ('A', 'A*', 'B', 'B*', 'N'):
            ex.initfn[o] = lambda r, off, ty, o=o: Ptr(o + '*', r + (off,), 0) if ty.k == 'ptr' else None
        zero = lambda i, j, k: nz is not None and (nz[i][j] <= 0 or nz[i][j] == 1 and k > 0)
        a = lambda i, j, k: R0 if zero(i, j, k) else rcell('A**', 8 * i, 8 * j, 8 * k)
        ex.initfn['A**'] = lambda r, off, ty: a(r[0] // 8, r[1] // 8, off // 8)
        if nz is not None:
            ex.initfn['N*'] = lambda r, off, ty: nz[r[0] // 8][off // 2]
        tau = rvar('tau')
        B = {}
        for k in range(deg + 1):
            for i in range(n):
                for j in range(n):
                    t = a(i, j, k)
                    for m in range(1, k + 1):
                        for p in range(n):
                            t = radd(t, rmul(a(i, p, m - 1), B[p, j, k - m]))
                    B[i, j, k] = rmul(rdiv(tau, i2r(k + 1)), t)
        paths = self.call(tag, 'accodec', [n, tau, deg, Ptr('A', (), 0), Ptr('B', (), 0), NULL if nz is None else Ptr('N', (), 0)], [])
        self.prover.holds(self.ob(tag, 'completes'), len(paths) == 1, (), f'{len(paths)} paths')
        for st, v in paths:
            for (i, j, k), w in B.items():
                self.prove(tag, f'B[{i}][{j}][{k}]', st.pc, self.load(st, Ptr('B**', (8 * i, 8 * j), 8 * k)), w)
            for i in range(n if nz else 0):
                for j in range(n):
                    v = self.load(st, Ptr('N*', (8 * i,), 2 * j), Ty('int', 16))
                    ok = isinstance(v, int) and all(B[i, j, k] == R0 for k in range(deg + 1) if k < -v)
                    self.prover.holds(self.ob(tag, 'pattern'), ok and (v > 0 or nz[i][j] <= 0) and (nz[i][j] <= 0 or v == nz[i][j]), (), f'nz[{i}][{j}] = {v}')

    def check_all(self):
        import itertools
        if not self.small:
            self.guard('forodec', self.forodec)
        else:
            for n, deg in ((1, 3), (2, 3), (3, 2)):
                self.guard('accodec', self.accodec, n, deg)
            for q in itertools.product((0, 1, 2), repeat=4):
                self.guard('accodec', self.accodec, 2, 2, [list(q[:2]), list(q[2:])])
        return self.prover.obls
