"""Higher-order forward sweeps: degree fixed (stated in the job), everything
else as in the first-order sweeps (all values, coefficients, aliasings,
numbers of directions and vector lengths)."""
from sweep import *
import series


class HOForward(Forward1):
    """ndir: None for the scalar sweep, otherwise the symbolic number of directions"""

    def __init__(self, modules, src, fname, args, pos, k, vector, keep=0, facts=(), name=None, seed=1):
        self.k = k
        self.vector = vector
        super().__init__(modules, src, fname, args, pos, ndir=vector if vector is not None else 1, keep=keep, facts=facts, name=name, seed=seed)

    def coords(self):
        c = self.c if self.vector is not None else 0
        return [(c, i) for i in range(self.k)]

    def argcell(self, K, c):
        n = f'arg{self.pos["argument"]}'
        c, i = c
        if self.vector is None:
            return rcell(n + '*', iscale(K, 8), 8 * i)
        return rcell(n + '**', iscale(K, 8), iscale(c, 8), 8 * i)

    def pT(self, l, c):
        m = {self.rat: l}
        rows = tuple(subst(x, m) for x in self.Tp.rows)
        c, i = c
        return Ptr(self.Tp.obj, rows, iadd(iscale(c, 8 * self.k), 8 * i))

    def outcell(self, ty, K, c):
        c, i = c
        if self.vector is None:
            return Ptr(ty + '*', (iscale(K, 8),), 8 * i)
        return Ptr(ty + '**', (iscale(K, 8), iscale(c, 8)), 8 * i)

    def rowlimit(self, name, root):
        d = self.ex.dims.get(root)
        if d is not None and len(name) - len(root) == len(d) - 1 and len(d) > 1:
            return lambda e: (e.off, 0, iscale(d[-1], 8))
        stars = '*' if self.vector is None else '**'
        if name == f'arg{self.pos.get("taylors")}' + stars:
            return lambda e: (e.off, 0, 8 * self.k)
        return None

    def check_columns(self, q, d):
        if q is self.T0p:
            return
        want = self.k if self.vector is None else iscale(self.vector, self.k)
        self.prover.prove(self.ob(f'start:columns of {q.obj}'), list(self.facts), d[-1], want)

    # ---- series of a location
    def serof(self, l, c):
        return series.Ser(lambda i: self.start_load(self.p0(l) if i == 0 else self.pT(l, (c, i - 1))))

    def chain_of(self, o, value, part, locs, v):
        memo = {}

        def f(c):
            if c[0] not in memo:
                memo[c[0]] = series.result(o, {r: self.serof(l, c[0]) for r, l in locs.items()}, v, value, part)
            return memo[c[0]][c[1] + 1]
        return f

    def prodT(self, a, b, c):
        return series.smul(self.serof(a, c[0]), self.serof(b, c[0]))[c[1] + 1]

    def cname(self, label, c):
        return f'coefficient {c[1] + 1}[{label}]'

    def check_op(self, o):
        if o.first_order:
            return
        if o.name == 'cbrt_op':      # not implemented: the sweep reports HO_OP_NOT_IMPLEMENTED
            return
        return super().check_op(o)

    def coefs(self, l, c):
        return [self.start_load(self.pT(l, (c[0], i))) for i in range(self.k)], c[1]

    def anyT(self, l):
        any1 = lambda st, q: bor(*[self.nonzero(self.load(st, self.pT(l, (q, i)))) for i in range(self.k)])
        if self.vector is None:
            return any1(self.it.start, 0)
        q = ivar(fresh('q'))
        st = self.it.start.copy()
        st.assume(ile(0, q))
        st.assume(ilt(q, self.vector))
        return bexists(q, self.vector, any1(st, q))

    def pushes_of(self, l):
        """(number, [(relative position, facts, value)]) of one kept location"""
        if self.keep == 0:
            return 0, []
        out = [(0, [], self.start_load(self.p0(l)))]
        if self.vector is None:
            for i in range(self.keep - 1):
                out.append((1 + i, [], self.start_load(self.pT(l, (0, i)))))
            return self.keep, out
        for i in range(self.keep - 1):
            out.append((iadd(1 + i, iscale(self.c, self.keep - 1)), self.colfacts, self.start_load(self.pT(l, (self.c, i)))))
        return iadd(1, iscale(self.vector, self.keep - 1)), out


class HOForwardAny(HOForward):
    """symbolic degree: operations whose coefficients have a closed form in those of the operands"""
    SKIP = ('vec_dot', 'vec_axpy')

    def guard(self, tag, f, *a):
        if tag.split("[")[0] not in self.SKIP:
            super().guard(tag, f, *a)

    def coords(self):
        return [(self.c if self.vector is not None else 0, self.i)]

    def __init__(self, *a, **kw):
        self.i = ivar('i')
        super().__init__(*a, **kw)
        self.colfacts = list(self.colfacts) + [ile(0, self.i), ilt(self.i, self.k)]
        if self.vector is None:
            self.colfacts = [ile(0, self.i), ilt(self.i, self.k)]

    def cname(self, label, c):
        return f'coefficient[{label}]'

    def check_op(self, o):
        import copy
        o = copy.copy(o)
        o.tie = None
        if not o.first_order and self.closed(o):
            return Forward1.check_op(self, o)

    def closed(self, o):
        if self.vector is not None and o.name in BILINEAR:
            return False
        roles = o.locs + (['R'] if o.ref else [])
        X = {r: rvar('X:' + r) for r in roles}
        for f in [o.partials] + ([o.aux[2]] if o.aux else []):
            for q in (f(X, [rvar(f'v{k}') for k in range(o.vals)]) if o.out else {}).values():
                if not (self.const(q, X) or q.op == 'rite' and self.const(q.args[1], X) and self.const(q.args[2], X)):
                    return o.name in BILINEAR
        return True

    def const(self, q, X):
        return not any(contains(q, x) for x in X.values())

    def off(self, c):
        c, i = c
        return iscale(iadd(imul(c, self.k), i), 8)

    def argcell(self, K, c):
        n = f'arg{self.pos["argument"]}'
        c, i = c
        if self.vector is None:
            return rcell(n + '*', iscale(K, 8), iscale(i, 8))
        return rcell(n + '**', iscale(K, 8), iscale(c, 8), iscale(i, 8))

    def pT(self, l, c):
        m = {self.rat: l}
        return Ptr(self.Tp.obj, tuple(subst(x, m) for x in self.Tp.rows), self.off(c))

    def outcell(self, ty, K, c):
        c, i = c
        if self.vector is None:
            return Ptr(ty + '*', (iscale(K, 8),), iscale(i, 8))
        return Ptr(ty + '**', (iscale(K, 8), iscale(c, 8)), iscale(i, 8))

    def check_columns(self, q, d):
        if q is self.T0p:
            return
        want = self.k if self.vector is None else imul(self.vector, self.k)
        self.prover.prove(self.ob(f'start:columns of {q.obj}'), list(self.facts), d[-1], want)

    def rowlimit(self, name, root):
        d = self.ex.dims.get(root)
        if d is not None and len(name) - len(root) == len(d) - 1 and len(d) > 1:
            return lambda e: (e.off, 0, iscale(d[-1], 8))
        stars = '*' if self.vector is None else '**'
        if name == f'arg{self.pos.get("taylors")}' + stars:
            return lambda e: (e.off, 0, iscale(self.k, 8))
        return None

    def prodT(self, a, b, c):
        T0 = lambda l: self.start_load(self.p0(l))
        c, i = c
        j = ivar(fresh('j'))
        st = self.it.start.copy()
        for f in self.colfacts + [ile(0, j), ilt(j, i)]:
            st.assume(f)
        s = rsum(j, 0, i, rmul(self.load(st, self.pT(a, (c, j))), self.load(st, self.pT(b, (c, isub(isub(i, 1), j))))))
        return radd(radd(rmul(T0(a), self.lin(b)((c, i))), rmul(self.lin(a)((c, i)), T0(b))), s)

    def chain_of(self, o, value, part, locs, v):
        x0 = {r: self.start_load(self.p0(l)) for r, l in locs.items()}
        if o.name in BILINEAR:
            s, a, b, lin = BILINEAR[o.name]
            return lambda c: radd(rmul(rc(s), self.prodT(locs[a], locs[b], c)), *([self.lin(locs[x])(c) for x in lin] or [R0]))
        return self.tangent(part(x0, v), locs)


BILINEAR = {'mult_a_a': (1, 'a', 'b', ''), 'eq_mult_a': (1, 'a', 'r', ''), 'ref_eq_mult_a': (1, 'a', 'R', ''),
            'eq_plus_prod': (1, 'a', 'b', 'r'), 'eq_min_prod': (-1, 'a', 'b', 'r')}
