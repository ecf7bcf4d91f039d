"""C19: the Fortran-callable wrappers. The packing routines are verified against
their column-major contract; a wrapper is verified against the contracts of the
packing routines and of the driver it stands for: the driver is called once, with
equal scalars and with arrays that hold the column-major input, the caller's output
arrays receive the driver's results in column-major order, and the return code is
the driver's."""
from drivers import *
from drivers import Drivers, SWEEPS, S, dim

T = 'tag'
# driver -> wrapper parameters in order: scalars, then (array, direction, dims)
WRAP = {
    'function': ('tag m n', [('x', 'in', 'n'), ('y', 'out', 'm')]),
    'gradient': ('tag n', [('x', 'in', 'n'), ('g', 'out', 'n')]),
    'vec_jac': ('tag m n repeat', [('x', 'in', 'n'), ('u', 'in', 'm'), ('v', 'out', 'n')]),
    'jacobian': ('tag m n', [('x', 'in', 'n'), ('J', 'out', 'm', 'n')]),
    'jac_vec': ('tag m n', [('x', 'in', 'n'), ('v', 'in', 'n'), ('c', 'out', 'm')]),
    'hess_vec': ('tag n', [('x', 'in', 'n'), ('v', 'in', 'n'), ('w', 'out', 'n')]),
    'hessian': ('tag n', [('x', 'in', 'n'), ('H', 'low', 'n', 'n')]),
    'lagra_hess_vec': ('tag m n', [('x', 'in', 'n'), ('v', 'in', 'n'), ('u', 'in', 'm'), ('w', 'out', 'n')]),
    'zos_forward': ('tag m n keep', [('x', 'in', 'n'), ('y', 'out', 'm')]),
    'hos_forward': ('tag m n d keep', [('x', 'in', 'n'), ('X', 'in', 'n', 'd'), ('y', 'out', 'm'), ('Y', 'out', 'm', 'd')]),
    'hov_forward': ('tag m n d p', [('x', 'in', 'n'), ('X', 'in', 'n', 'p', 'd'), ('y', 'out', 'm'), ('Y', 'out', 'm', 'p', 'd')]),
    'fov_forward': ('tag m n p', [('x', 'in', 'n'), ('X', 'in', 'n', 'p'), ('y', 'out', 'm'), ('Y', 'out', 'm', 'p')]),
    'hos_reverse': ('tag m n d', [('u', 'in', 'm'), ('Z', 'out', 'n', 'd+1')]),
    'hos_ti_reverse': ('tag m n d', [('U', 'in', 'm', 'd+1'), ('Z', 'out', 'n', 'd+1')]),
    'fos_reverse': ('tag m n', [('u', 'in', 'm'), ('z', 'out', 'n')]),
    'hov_reverse': ('tag m n d q', [('U', 'in', 'q', 'm'), ('Z', 'out', 'q', 'n', 'd+1')]),
    'hov_ti_reverse': ('tag m n d q', [('U', 'in', 'q', 'm', 'd+1'), ('Z', 'out', 'q', 'n', 'd+1')]),
    'fov_reverse': ('tag m n q', [('U', 'in', 'q', 'm'), ('Z', 'out', 'q', 'n')]),
    'forodec': ('tag n tau dol deg', [('Y', 'upd', 'n', 'deg+1')]),
    'accodec': ('n tau deg', [('A', 'in', 'n', 'n', 'deg+1'), ('B', 'out', 'n', 'n', 'deg+1')]),
}
FILES = {'drivers/driversf.cpp': ['function', 'gradient', 'vec_jac', 'jacobian', 'jac_vec', 'hess_vec', 'hessian', 'lagra_hess_vec'],
         'drivers/odedriversf.cpp': ['forodec', 'accodec'],
         'interfacesf.cpp': ['zos_forward', 'hos_forward', 'hov_forward', 'fov_forward', 'hos_reverse', 'hos_ti_reverse', 'fos_reverse',
                             'hov_reverse', 'hov_ti_reverse', 'fov_reverse']}
DOUBLES = {'tau'}


def colmajor(idx, dims):
    """offset of an element of a column-major array, in elements"""
    o = idx[-1]
    for i, d in zip(reversed(idx[:-1]), reversed(dims[:-1])):
        o = iadd(imul(o, d), i)
    return o


class Fortran(Drivers):
    def __init__(self, sources, name, seed=1):
        super().__init__(sources, name, seed)

    def new(self):
        self.contracts = {k: v for k, v in self.contracts.items() if k not in SWEEPS}
        self.contracts.update({n: self.driver_contract(n) for n in WRAP})
        self.contracts.update({f'spread{d}': self.spread(d) for d in (1, 2, 3)})
        self.contracts.update({f'pack{d}': self.pack(d) for d in (1, 2, 3)})
        return super().new()

    # ------------------------------------------------------------ contracts
    def driver_contract(self, name):
        scal, arrs = WRAP[name]
        scal = scal.split()
        outs = [a for a in arrs if a[1] != 'in']

        def f(ex, st, a, ins):
            k = len(st.ev)
            sc = dict(zip(scal, a))
            pa = dict(zip([x[0] for x in arrs], a[len(scal):]))
            rc = ivar(f'code:{name}#{k}')
            snap = st.copy()
            st.ev = st.ev + (('sweep', name, k, sc, {x[0]: (pa[x[0]], x[2:]) for x in arrs}, snap, rc),)
            for x in outs:
                p, dims = pa[x[0]], x[2:]
                self.room(st, name, p, dims, sc)
                s2, idx, vs, cond = st.copy(), [], [], True
                for d in dims:
                    lo, ln = dim(sc, d)
                    j = ivar(fresh('o'))
                    idx.append(j)
                    vs.append((the_atom(j), lo, iadd(lo, ln)))
                    s2.assume(ile(lo, j))
                    s2.assume(ilt(j, iadd(lo, ln)))
                if x[1] == 'low':
                    cond = ile(idx[1], idx[0])
                q = self.rows(s2, p, idx)
                base, log = ex.getobj(st, q.obj)
                st.mem[q.obj] = (base, (W(cond, tuple(vs), q.rows, q.off, rcell(f'out:{name}#{k}:{x[0]}', *idx), 8), log))
            for x in arrs:
                if x[1] != 'out':
                    self.room(st, name, pa[x[0]], x[2:], sc)
            for t in ex.trackers:
                t.opaque = True
            return [(st, rc if ins.ty.k == 'int' else None)]
        return f

    def spread(self, d):
        def f(ex, st, a, ins):
            dims, x, X = a[:d], a[d], a[d + 1]
            s2, idx, vs = self.element(st, dims)
            q = self.rows(s2, X, idx)
            v = self.load(s2, x.add(iscale(colmajor(idx, dims), 8)))
            base, log = ex.getobj(st, q.obj)
            st.mem[q.obj] = (base, (W(True, vs, q.rows, q.off, v, 8), log))
            self.dims_ok(st, X, dims, f'spread{d}')
            for t in ex.trackers:
                t.opaque = True
            return [(st, None)]
        return f

    def pack(self, d):
        def f(ex, st, a, ins):
            dims, X, x = a[:d], a[d], a[d + 1]
            s2, idx, vs = self.element(st, dims)
            s3 = self.split(s2, X, idx)
            if len(s3) != 1:
                raise Unsupported('pack from rows in several places')
            v = self.load(s3[0][0], s3[0][1])
            q = x.add(iscale(colmajor(idx, dims), 8))
            base, log = ex.getobj(st, q.obj)
            st.mem[q.obj] = (base, (W(True, vs, q.rows, q.off, v, 8), log))
            st.ev = st.ev + (('pack', x.obj, dims),)
            self.dims_ok(st, X, dims, f'pack{d}')
            for t in ex.trackers:
                t.opaque = True
            return [(st, None)]
        return f

    def element(self, st, dims):
        s2, idx, vs = st.copy(), [], []
        for d in dims:
            j = ivar(fresh('e'))
            idx.append(j)
            vs.append((the_atom(j), 0, d))
            s2.assume(ile(0, j))
            s2.assume(ilt(j, d))
        return s2, idx, tuple(vs)

    def dims_ok(self, st, X, dims, name):
        have = self.ex.dims.get(X.obj)
        for n, h in zip(dims, have or ()):
            self.sizes.append((tuple(st.pc), name, X.obj, n, h))

    # ------------------------------------------------------------ wrappers
    def wrapper(self, name):
        scal, arrs = WRAP[name]
        scal = scal.split()
        self.sizes, self.loops_seen, self.products = [], [], []
        tag, P = name + '_', self.prover
        sc = {n: rvar(n) if n in DOUBLES else ivar(n) for n in scal}
        for n in scal:
            self.ex.initfn['f' + n] = lambda rows, off, ty, n=n: sc[n]
        facts = [ile(0 if n in ('deg', 'dol', 'd', 'keep', 'repeat', 'tag') else 1, sc[n]) for n in scal if n not in DOUBLES]
        if 'dol' in sc:
            facts.append(ile(sc['dol'], sc['deg']))
        cell = lambda nm, dims, idx: rcell(nm, iscale(colmajor(idx, dims), 8))
        paths = self.call(tag, tag, [Ptr('f' + n, (), 0) for n in scal] + [Ptr(x[0], (), 0) for x in arrs], facts)
        for st, v in paths:
            ev = self.events(st)
            if not P.holds(self.ob(tag, 'driver'), [e[1] for e in ev] == [name], (), f'calls {[e[1] for e in ev]}'):
                pass
            if [e[1] for e in ev] != [name]:
                continue
            e = ev[0]
            for n in scal:
                self.prove(tag, n, st.pc, e[3][n], sc[n])
            for x in arrs:
                if x[1] in ('out', 'low'):
                    continue
                nm, dims = x[0], [dim(sc, d)[1] for d in x[2:]]
                lo = []
                snap = e[5].copy()
                p, _ = e[4][nm]
                idx = [ivar(f'a{q}') for q in range(len(dims))]
                for i, d in zip(idx, dims):
                    snap.assume(ile(0, i))
                    snap.assume(ilt(i, d))
                if name == 'forodec':
                    snap.assume(ile(idx[1], sc['dol']))
                for s3, q in self.split(snap, p, idx):
                    self.prove(tag, nm, s3.pc, self.load(s3, q), cell(nm, dims, idx))
            if v is not None and name != 'accodec':
                self.prove(tag, 'return-code', st.pc, v, e[6])
            for x in arrs:
                nm, dims = x[0], [dim(sc, d)[1] for d in x[2:]]
                s2, idx, _ = self.element(st, dims)
                got = lambda s: self.load(s, Ptr(nm, (), iscale(colmajor(idx, dims), 8)))
                new = rcell(f'out:{name}#{e[2]}:{nm}', *idx)
                if x[1] == 'in':
                    P.holds(self.ob(tag, f'{nm} untouched'), nm not in st.mem or st.mem[nm][1] is None, (), 'input array written')
                elif x[1] == 'low':
                    for what, c, w in (('lower triangle', ile(idx[1], idx[0]), new), ('upper triangle', ilt(idx[0], idx[1]), cell(nm, dims, idx))):
                        s4 = s2.copy()
                        s4.assume(c)
                        self.prove(tag, f'{nm} {what}', s4.pc, got(s4), w)
                else:
                    self.prove(tag, f'{nm}', s2.pc, got(s2), new)
                for q in st.ev:
                    if q[0] == 'pack' and q[1] == nm:
                        for k, (d, w) in enumerate(zip(q[2], dims)):
                            self.sure(tag, f'{nm} extent', st.pc, ieq(d, w), f'{d}')
            self.locals_(tag, st)
        self.room_obls(tag)

    def check_all(self, names):
        for n in names:
            self.guard(n + '_', self.wrapper, n)
        return self.prover.obls


class Packing(Fun):
    """the packing routines themselves"""
    def check_all(self):
        for d in (1, 2, 3):
            for pre in ('spread', 'pack'):
                self.guard(f'{pre}{d}', self.routine, f'{pre}{d}', d, pre == 'pack')
        return self.prover.obls

    def routine(self, fname, d, packing):
        dims = [ivar(n) for n in 'mnp'[:d]]
        X = Ptr('X', (), 0)
        rows = 'X' + '*' * (d - 1)
        for lvl in range(d - 1):
            o = 'X' + '*' * lvl
            self.ex.initfn[o] = lambda r, off, ty, o=o: Ptr(o + '*', r + (off,), 0) if ty.k == 'ptr' else None
        x = Ptr('x', (), 0)
        paths = self.call(fname, fname, dims + ([X, x] if packing else [x, X]), [ile(0, n) for n in dims])
        for st, v in paths:
            s = st.copy()
            idx = [ivar('ijk'[q]) for q in range(d)]
            for i, n in zip(idx, dims):
                s.assume(ile(0, i))
                s.assume(ilt(i, n))
            if self.ex.solver.check([c for c in s.pc if c is not True]) == 'unsat':
                continue
            off = iscale(colmajor(idx, dims), 8)
            b = tuple(iscale(i, 8) for i in idx)
            if packing:
                self.prove(fname, 'element', s.pc, self.load(s, Ptr('x', (), off)), rcell(rows, *b))
            else:
                self.prove(fname, 'element', s.pc, self.load(s, Ptr(rows, b[:-1], b[-1])), rcell('x', off))
            self.prover.holds(self.ob(fname, 'frame'), all(o in ('x' if packing else rows,) or o.startswith(('al.', 'slot')) or st.mem[o][1] is None for o in st.mem),
                              (), f'writes {sorted(st.mem)}')
