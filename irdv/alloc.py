"""C14: the array helpers of adalloc.cpp, for all sizes."""
from fun import *


def c_new(ex, st, a, ins):
    p = ex.alloc(st, 'blk')
    size = a[0] if len(a) == 1 else imul(a[0], a[1])
    st.ev = st.ev + (('alloc', p.obj, size),)
    if len(a) == 2:      # calloc clears
        ex.initfn[p.obj] = lambda rows, off, ty: R0 if ty.k == 'double' else NULL if ty.k == 'ptr' else 0
    return [(st, p)]


def c_free(ex, st, a, ins):
    st.ev = st.ev + (('free', a[0]),)
    return [(st, None)]


CONTRACTS = {'calloc': c_new, 'malloc': c_new, 'rpl_calloc': c_new, 'rpl_malloc': c_new, 'free': c_free}


def ivs(c, out=None):
    out = set() if out is None else out
    if isinstance(c, E):
        if c.op == 'iv':
            out.add(c)
        for a in c.args:
            ivs(a, out)
    elif isinstance(c, (tuple, list)):
        for a in c:
            ivs(a, out)
    return out


class Alloc(Fun):
    def element(self, st, base, idx, rows_elem=8):
        """address of base[i][j].. : follows the row pointers"""
        p = base
        for k, i in enumerate(idx):
            q = p.add(iscale(i, 8))
            p = q if k == len(idx) - 1 else self.load(st, q, PTR)
        return p

    def array(self, fname, args, dims, free, kind=DOUBLE, esize=8, value=None, freeargs=None):
        tag = fname
        dnames = dims
        facts = [ile(1, d) for d in dims]
        idx = [ivar('i') for i in 'i'] if False else [ivar('ijk'[k]) for k in range(len(dims))]
        jdx = [ivar('rst'[k]) for k in range(len(dims))]
        paths = self.call(tag, fname, args, facts)
        P, ex = self.prover, self.ex
        for st0, v in paths:
            sizes = {e[1]: e[2] for e in st0.ev if e[0] == 'alloc'}
            P.holds(self.ob(tag, 'result'), isinstance(v, Ptr) and v.obj in sizes, (), f'returns {v!r}')
            if not isinstance(v, Ptr) or v.obj not in sizes:
                continue
            P.holds(self.ob(tag, 'kept'), not any(e[0] == 'free' for e in st0.ev), (), 'a block is released again')
            self.inside(tag, st0, sizes)
            # an arbitrary element
            st = st0.copy()
            for x, d in zip(idx, dims):
                st.assume(ile(0, x))
                st.assume(ilt(x, d))
            st2 = st.copy()
            for x, d in zip(jdx, dims):
                st2.assume(ile(0, x))
                st2.assume(ilt(x, d))
            a = self.walk(tag, st, v, idx, sizes, esize, dims)
            if a is None:
                continue
            b = self.walk(tag, st2, v, jdx, sizes, esize, dims, quiet=True)
            want = value(*idx) if value else (R0 if kind is DOUBLE else 0)
            self.prove(tag, 'initial-value', st.pc, self.load(st, a, kind), want)
            if value is None and a.obj == b.obj:      # identity arrays share storage between rows
                self.disjoint(tag, st2, a.off, b.off, idx, jdx, dims, esize)
            elif value is None:
                P.holds(self.ob(tag, 'disjoint'), False, (), f'{a!r} {b!r}')
            # release
            if free:
                rel = self.release(tag, st0, v, free, freeargs)
                P.holds(self.ob(tag, 'released'), sorted(rel) == sorted(sizes), (), f'{free} releases {rel} of {sorted(sizes)}')

    def release(self, tag, st0, v, free, freeargs):
        rel = None
        for st, _ in self.ex.call_function(st0.copy(), self.find(free), freeargs(v) if freeargs else [v]):
            r = []
            for e in st.ev:
                if e[0] == 'free' and e[1] != NULL:
                    r.append(e[1].obj if self.ex.solver.check([c for c in list(st.pc) + [bnot(ieq(e[1].off, 0))] if c is not True]) == 'unsat' else f'inside {e[1]!r}')
            if rel is not None and rel != r:
                return ['differs']
            rel = r
        return rel or []

    def inside(self, tag, st, sizes):
        """every write stays in the block"""
        for name, (base, log) in st.mem.items():
            if name not in sizes:
                continue
            ws = [([], off, sz) for (rows, off), (q, sz) in base.items()]
            while log is not None:
                e, log = log
                c = [e.guard] if e.guard is not True else []
                for x, lo, hi in getattr(e, 'vars', ()) or ():
                    x = mk('lin', (0, ((x, 1),)), 'I')
                    c += [ile(lo, x), ilt(x, hi)]
                ws.append((c, e.off, e.size if isinstance(e, W) else e.n))
            for c, off, sz in ws:
                pc = list(st.pc) + c
                self.valid(tag, 'writes-inside', pc + self.lemmas(pc), band(ile(0, off), ile(iadd(off, sz), sizes[name])), f'write at {show(off)}')

    def lemmas(self, pc):
        """products of non-negative factors are non-negative (for the nonlinear terms)"""
        out = []
        m, n, p = ivar('m'), ivar('n'), ivar('p')
        pairs = []
        vs = set()
        for c in pc:
            vs |= ivs(c)
        vs = [mk('lin', (0, ((a, 1),)), 'I') for a in vs]
        dims = [x for x in vs if x in (m, n, p)]
        for x in vs:
            if x in dims:
                continue
            for d in (m, n, p):
                for f in (n, p, imul(n, p)):
                    # 0 <= x < d  implies 0 <= (d - 1 - x) * f and 0 <= x * f
                    if self.ex.solver.check(list(pc) + [bor(ilt(x, 0), ile(d, x))]) == 'unsat':
                        out += [ile(0, imul(isub(isub(d, 1), x), f)), ile(0, imul(x, f))]
        return out

    def walk(self, tag, st, v, idx, sizes, esize, dims, quiet=False):
        p = v
        P = self.prover
        for k, i in enumerate(idx):
            last = k == len(idx) - 1
            q = p.add(imul(i, esize if last else 8))
            if not quiet:
                pc = list(st.pc)
                end = iadd(q.off, esize if last else 8)
                self.valid(tag, f'inside[{k}]', pc + self.lemmas(pc), band(ile(0, q.off), ile(end, sizes.get(q.obj, 0))), f'{show(q.off)} of {q.obj}')
            if last:
                return q
            p = self.load(st, q, PTR)
            if not isinstance(p, Ptr) or p.obj not in sizes:
                P.holds(self.ob(tag, f'row[{k}]'), False, (), f'row pointer {p!r}')
                return None
            if not quiet:
                P.holds(self.ob(tag, f'row[{k}]'), True, (), '')

    def disjoint(self, tag, st, a, b, idx, jdx, dims, esize):
        """different indices, different elements: first differing index decides"""
        same = []
        for k in range(len(dims)):
            for lo, hi, x, y, c in ((idx, jdx, a, b, 'before'), (jdx, idx, b, a, 'after')):
                pc = list(st.pc) + [ieq(idx[q], jdx[q]) for q in range(k)] + [ilt(lo[k], hi[k])]
                m = {the_atom(jdx[q]): idx[q] for q in range(k)}
                x1, y1 = subst(x, m), subst(y, m)
                pc = [subst(z, m) if isinstance(z, E) else z for z in pc]
                # lemma instances: (difference - 1) * stride >= 0
                d = isub(isub(hi[k], lo[k]), 1)
                lem = []
                for f in [1] + [dims[q] for q in range(k + 1, len(dims))]:
                    lem.append(ile(0, imul(d, f)))
                if len(dims) - k == 3:
                    lem.append(ile(0, imul(d, imul(dims[k + 1], dims[k + 2]))))
                for q in range(k + 1, len(dims)):
                    rest = [dims[z] for z in range(q + 1, len(dims))]
                    f = 1
                    for z in rest:
                        f = imul(f, z)
                    for w in (lo[q], hi[q]):
                        lem += [ile(0, imul(w, f)), ile(0, imul(isub(isub(dims[q], 1), w), f))]
                self.valid(tag, f'disjoint[{k}]', [z for z in pc if z is not True] + [z for z in lem if z is not True],
                           bor(ile(iadd(x1, esize), y1), ile(iadd(y1, esize), x1)), 'elements overlap')

    def empty(self, fname, args, facts):
        for st, v in self.call(fname + ' of no elements', fname, args, facts):
            self.prover.holds(self.ob(fname, 'empty'), v == NULL, (), f'{v!r}')

    def nullfree(self, f, args):
        for st, v in self.call(f + '(nullptr)', f, args):
            self.prover.holds(self.ob(f, 'null'), all(e[1] == NULL for e in st.ev if e[0] == 'free'), (), f'{st.ev}')

    def populate(self, fname, levels, data=True):
        """a caller-provided block: pointer table(s) first, then the data"""
        tag = fname
        m, n, p = ivar('m'), ivar('n'), ivar('p')
        dims = [m, n, p][:levels]
        facts = [ile(1, d) for d in dims]
        args = [Ptr('OUT', (), 0), Ptr('BLK', (), 0)] + (dims if data else dims[:2])
        size = 0
        prod = 1
        for d in dims:
            prod = imul(prod, d)
            size = iadd(size, iscale(prod, 8))
        idx = [ivar('ijk'[k]) for k in range(levels)]
        jdx = [ivar('rst'[k]) for k in range(levels)]
        for st0, v in self.call(tag, fname, args, facts):
            sizes = {'BLK': size}
            self.inside(tag, st0, sizes)
            A = self.load(st0, Ptr('OUT', (), 0), PTR)
            self.prover.holds(self.ob(tag, 'result'), isinstance(A, Ptr) and A.obj == 'BLK', (), f'{A!r}')
            self.prover.holds(self.ob(tag, 'next-free'), isinstance(v, Ptr) and v.obj == 'BLK', (), f'{v!r}')
            if not isinstance(A, Ptr) or A.obj != 'BLK' or not isinstance(v, Ptr):
                continue
            self.prove(tag, 'next-free-offset', st0.pc, v.off, size)
            st = st0.copy()
            st2 = st0.copy()
            for x, y, d in zip(idx, jdx, dims):
                for s_ in (st, st2):
                    s_.assume(ile(0, x))
                    s_.assume(ilt(x, d))
                st2.assume(ile(0, y))
                st2.assume(ilt(y, d))
            a = self.walk(tag, st, A, idx, sizes, 8, dims)
            b = self.walk(tag, st2, A, jdx, sizes, 8, dims, quiet=True)
            if a is not None and b is not None:
                self.disjoint(tag, st2, a.off, b.off, idx, jdx, dims, 8)

    def check_all(self):
        m, n, p = ivar('m'), ivar('n'), ivar('p')
        g = self.guard
        g('myalloc1', self.array, 'myalloc1', [m], [m], 'myfree1')
        g('myalloc2', self.array, 'myalloc2', [m, n], [m, n], 'myfree2')
        g('myalloc3', self.array, 'myalloc3', [m, n, p], [m, n, p], 'myfree3')
        g('myallocI2', lambda: self.array('myallocI2', [n], [n, n], 'myfreeI2', value=lambda i, j: rite(ieq(i, j), R1, R0),
                                          freeargs=lambda v: [n, v]))
        g('myalloc1_uint', lambda: self.array('myalloc1_uint', [m], [m], 'myfree1_uint', kind=I32, esize=4))
        g('myalloc1_ulong', lambda: self.array('myalloc1_ulong', [m], [m], 'myfree1_ulong', kind=I64))
        g('myalloc2_ulong', lambda: self.array('myalloc2_ulong', [m, n], [m, n], 'myfree2_ulong', kind=I64))
        for f, a, fs in (('myalloc1', [0], []), ('myalloc2', [0, n], []), ('myalloc2', [m, 0], [ile(1, m)]),
                         ('myalloc3', [0, n, p], []), ('myalloc3', [m, 0, p], [ile(1, m)]), ('myalloc3', [m, n, 0], [ile(1, m), ile(1, n)])):
            g(f + ' of no elements', self.empty, f, a, fs)
        for f in ('myfree1', 'myfree2', 'myfree3'):
            g(f, self.nullfree, f, [NULL])
        g('populate_dpp', self.populate, 'populate_dpp', 2)
        g('populate_dppp_nodata', self.populate, 'populate_dppp_nodata', 2)
        g('populate_dppp', self.populate, 'populate_dppp', 3)
        return self.prover.obls
