"""Discharging of obligations: case splitting on the conditions of both sides
under the path condition (z3 decides feasibility), equality over the field of
rational functions (exact), z3 as fall-back; numeric search for a refutation."""
import random, time
from expr import *
from execu import Solver
import expr
from expr import _allbound


class Obl:
    __slots__ = ('name', 'status', 'backend', 'time', 'detail', 'cex')

    def __init__(self, name, status, backend, t, detail='', cex=None):
        self.name = name
        self.status = status      # proved / refuted / unknown
        self.backend = backend
        self.time = t
        self.detail = detail
        self.cex = cex


def disj_relevant(pc):
    return list(pc)


class Prover:
    def __init__(self, solver=None, seed=1):
        self.solver = solver or Solver(1500)
        self.obls = []
        self.rng = random.Random(seed)
        self.maxsplit = 400
        self.depth = 0

    # ---- helpers
    def implied(self, pc, c):
        if isinstance(c, bool):
            return c
        if c in pc:
            return True
        n = bnot(c)
        if n in pc:
            return False
        if self.solver.check(list(pc) + [n]) == 'unsat':
            return True
        if self.solver.check(list(pc) + [c]) == 'unsat':
            return False
        return None

    def simp(self, e, pc):
        memo = {}

        def f(c):
            r = memo.get(c.id)
            if r is None:
                r = (self.implied(pc, c),)
                memo[c.id] = r
            return r[0]
        if not isinstance(e, E):
            return e
        return map_conds(e, f)

    def eq(self, pc, a, b, budget=None):
        """(status, backend, failing pc, a, b)"""
        if budget is None:
            budget = [self.maxsplit]
        if a is b or (not isinstance(a, E) and not isinstance(b, E) and type(a) == type(b) and a == b):
            return ('proved', 'structural', None, a, b)
        budget[0] -= 1
        if budget[0] < 0:
            return ('unknown', 'split limit', pc, a, b)
        a = self.simp(a, pc)
        b = self.simp(b, pc)
        if a is b:
            return ('proved', 'normaliser', None, a, b)
        none = [c.args[0] for c in pc if isinstance(c, E) and c.op == 'not' and c.args[0].op == 'bex']
        if none:
            a, b = self.instantiate(none, pc, a), self.instantiate(none, pc, b)
            if a is b:
                return ('proved', 'normaliser', None, a, b)
        c = first_cond(a) if isinstance(a, E) else None
        if c is None and isinstance(b, E):
            c = first_cond(b)
        if c is not None:
            be = 'normaliser'
            for x in (c, bnot(c)):
                pc2 = list(pc) + [x]
                r = self.solver.check(pc2)
                if r == 'unsat':
                    continue
                s = self.eq(pc2, a, b, budget)
                if s[0] != 'proved':
                    return s
                if s[1] == 'z3':
                    be = 'z3'
            return ('proved', be, None, a, b)
        return self.eq_leaf(pc, a, b)

    def eq_leaf(self, pc, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, E) and a.sort == 'B'):
            x = bxor(a, b)
            if x is False:
                return ('proved', 'normaliser', None, a, b)
            q = list(pc) + ([x] if x is not True else [])
            r = self.solver.check(q)
            return ('proved' if r == 'unsat' else 'unknown', 'z3', pc, a, b)
        if isinstance(a, int) or isinstance(b, int) or a.sort == 'I':
            c = ieq(a, b)
            if c is True:
                return ('proved', 'normaliser', None, a, b)
            q = list(pc) + [bnot(c)] if c is not False else list(pc)
            r = self.solver.check(q)
            return ('proved' if r == 'unsat' else 'unknown', 'z3', pc, a, b)
        try:
            if poly_equal(a, b):
                return ('proved', 'normaliser', None, a, b)
            a2, b2 = rewrite_eqs(pc, a), rewrite_eqs(pc, b)
            if (a2 is not a or b2 is not b) and poly_equal(a2, b2):
                return ('proved', 'normaliser', None, a, b)
        except TooBig:
            pass
        for f in (self.align_sums, self.match_sums):
            a3, b3 = f(pc, a, b)
            if a3 is not a or b3 is not b:
                a, b = a3, b3
                try:
                    if poly_equal(a, b):
                        return ('proved', 'normaliser', None, a, b)
                    a2, b2 = rewrite_eqs(pc, a), rewrite_eqs(pc, b)
                    if (a2 is not a or b2 is not b) and poly_equal(a2, b2):
                        return ('proved', 'normaliser', None, a, b)
                except TooBig:
                    pass
        if self.depth < 2:
            for v in self.small_vars(pc, a, b):
                self.depth += 1
                try:
                    ok = True
                    for k in range(4):
                        q = list(pc) + [ieq(v, k)]
                        if self.solver.check(q) == 'unsat':
                            continue
                        m = {the_atom(v): k}
                        sp = [subst(c, m) for c in pc]
                        r = self.eq([c for c in sp if isinstance(c, E)], subst(a, m), subst(b, m), [60])
                        if r[0] != 'proved':
                            ok = False
                            break
                finally:
                    self.depth -= 1
                if ok:
                    return ('proved', 'normaliser', None, a, b)
                break
        if self.solver.check(list(pc) + [bnot(req(a, b))], 12) == 'unsat':
            return ('proved', 'z3', None, a, b)
        return ('unknown', 'normaliser', pc, a, b)

    def small_vars(self, pc, a, b):
        """integer variables of a, b whose value is one of 0..3"""
        out = []
        used = {x.id: x for e in (a, b) for x in subterms(e) if x.op == 'iv' and not x.args[0].startswith('!b')}
        for c in pc:
            if isinstance(c, E) and c.op == 'le0' and isinstance(c.args[0], E) and c.args[0].op == 'lin' and len(c.args[0].args[1]) == 1:
                x, k = c.args[0].args[1][0]
                if k == 1 and x.id in used and c.args[0].args[0] >= -3:
                    v = mk('lin', (0, ((x, 1),)), 'I')
                    if self.solver.check(list(pc) + [bor(ilt(v, 0), ilt(3, v))]) == 'unsat':
                        out.append(v)
        return out

    def instantiate(self, none, pc, e):
        """no index below n satisfies c: simplify the terms of sums over the same range with that"""
        m = {}
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if not isinstance(x, E) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'rsum':
                bv, n, body = x.args
                for q in none:
                    if q.args[1] is n or ieq(q.args[1], n) is True:
                        f = bnot(subst(q.args[2], {the_atom(q.args[0]): bv}))
                        b2 = self.simp(body, list(pc) + [ile(0, bv), ilt(bv, n)] + ([f] if not isinstance(f, bool) else []))
                        if b2 is not body:
                            m[x] = rsum(bv, 0, n, b2)
                            break
            st.extend(children(x))
        return subst(e, m) if m else e

    def match_sums(self, pc, a, b):
        """sums over the same range are equal when their terms are, for every index of the range"""
        if self.depth >= 2:
            return a, b
        def sums(e):
            out, seen, st = [], set(), [e]
            while st:
                x = st.pop()
                if not isinstance(x, E) or x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == 'rsum' and not _allbound(x.args[1]):
                    out.append(x)
                else:
                    st.extend(children(x))
            return out
        for x in sums(a):
            for y in sums(b):
                if x is y or ieq(x.args[1], y.args[1]) is not True:
                    continue
                u = ivar(fresh('u'))
                n = x.args[1]
                q = list(pc) + [c for c in (ile(0, u), ilt(u, n)) if isinstance(c, E)]
                bx, by = (subst(s.args[2], {the_atom(s.args[0]): u}) for s in (x, y))
                self.depth += 1
                try:
                    r = self.eq(q, bx, by, [120])
                except TooBig:
                    continue
                finally:
                    self.depth -= 1
                if r[0] == 'proved':
                    a = subst(a, {x: y})
                    break
        return a, b

    def align_sums(self, pc, a, b):
        """unroll sums whose trip count is a known small constant; peel the
        first terms of sums that are longer by a constant than another one"""
        for _ in range(6):
            sums = []
            seen = set()
            for e in (a, b):
                st = [e]
                while st:
                    x = st.pop()
                    if not isinstance(x, E) or x.id in seen:
                        continue
                    seen.add(x.id)
                    if x.op == 'rsum' and not _allbound(x.args[1]):
                        sums.append(x)
                    else:
                        st.extend(children(x))
            m = {}
            for x in sums:
                for k in (0, 1, 2):
                    if self.solver.check(list(pc) + [bnot(ieq(x.args[1], k)) if k else ilt(0, x.args[1])]) == 'unsat':
                        bv, n, body = x.args
                        r = R0
                        for q in range(k):
                            r = radd(r, subst(body, {the_atom(bv): q}))
                        m[x] = r
                        break
            if not m:
                for x in sums:
                    for y in sums:
                        d = isub(x.args[1], y.args[1])
                        if isinstance(d, int) and 0 < d <= 4 and self.solver.check(list(pc) + [ilt(x.args[1], 1)]) == 'unsat':
                            bv, n, body = x.args
                            bat = the_atom(bv)
                            m[x] = radd(subst(body, {bat: 0}), rsum(bv, 0, isub(n, 1), subst(body, {bat: iadd(bv, 1)})))
            if not m:
                break
            a, b = subst(a, m), subst(b, m)
        return a, b

    # ---- refutation
    def refute(self, pc, a, b, tries=600):
        """numeric assignment satisfying pc with a != b"""
        for t in range(tries):
            env = Env(random.Random(self.rng.random()), {}, {'#inf': float('inf'), '#nan': float('nan')})
            try:
                memo = {}
                if not all(evaluate(c, env, memo) for c in pc):
                    # try to satisfy equalities with integer models is left to z3
                    continue
                x, y = evaluate(a, env, memo), evaluate(b, env, memo)
            except (EvalFail, OverflowError, TypeError, ValueError):
                continue
            if isinstance(x, float) or isinstance(y, float):
                if x != x or y != y:
                    if (x != x) == (y != y):
                        continue
                elif abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y)):
                    continue
            elif x == y:
                continue
            return dict(ints={str(k): v for k, v in env.ints.items()}, reals={str(k): v for k, v in env.reals.items()},
                        got=x, want=y)
        m = self.solver.model(list(pc) + [bnot(req(a, b)) if isinstance(a, E) and a.sort == 'R' else (
            bnot(ieq(a, b)) if not (isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, E) and a.sort == 'B')) else bxor(a, b))])
        if m is not None:
            return dict(z3model={str(d): str(m[d]) for d in m.decls()[:40]})
        return None

    def prove(self, name, pc, got, want):
        t = time.time()
        try:
            st, be, fpc, a, b = self.eq(list(pc), got, want)
        except TooBig:
            st, be, fpc, a, b = 'unknown', 'too big', pc, got, want
        o = Obl(name, st, be, 0)
        if st != 'proved':
            try:
                cex = self.refute(fpc, a, b)
            except Exception as ex:
                cex = None
            if cex:
                o.status = 'refuted'
                o.cex = cex
            o.detail = f'case {[show(c) for c in fpc]}\n   got  {show(a)}\n   want {show(b)}'
        o.time = time.time() - t
        self.obls.append(o)
        return o.status == 'proved'

    def holds(self, name, cond, pc=(), detail=''):
        """boolean obligation"""
        t = time.time()
        if isinstance(cond, E):
            r = self.implied(pc, cond) is True
        else:
            r = bool(cond)
        if not r and self.solver.check(list(pc)) == 'unsat':
            r = True
        o = Obl(name, 'proved' if r else 'refuted', 'z3' if isinstance(cond, E) else 'structural', time.time() - t,
                '' if r else (detail or (show(cond) if isinstance(cond, E) else '')))
        self.obls.append(o)
        return r


def tight(pc):
    """equations given as two inequalities"""
    le = {c.args[0].id: c for c in pc if isinstance(c, E) and c.op == 'le0' and isinstance(c.args[0], E)}
    out = []
    for c in le.values():
        n = iscale(c.args[0], -1)
        if isinstance(n, E) and n.id in le and n.id > c.args[0].id:
            q = ieq(c.args[0], 0)
            if isinstance(q, E):
                out.append(q)
    return out


def units(pc):
    """pc and the literals that follow from it by unit propagation"""
    lits, ors, out = set(), [], []

    def add(c):
        if not isinstance(c, E) or c.id in lits:
            return
        if c.op == 'and':
            for x in c.args:
                add(x)
            return
        lits.add(c.id)
        out.append(c)
        if c.op == 'or':
            ors.append(c)
    for c in pc:
        add(c)
    for c in tight(pc):
        add(c)
    for _ in range(4):
        n = len(out)
        for c in ors:
            left = []
            for d in c.args:
                x = bnot(d)
                if not (isinstance(x, E) and x.id in lits):
                    left.append(d)
            if len(left) == 1:
                add(left[0])
        if len(out) == n:
            break
    return out


def rewrite_eqs(pc, e):
    """use equations of the path condition (rational atoms / integer atoms)"""
    m = {}
    for c in units(pc):
        if c.op == 'req':
            a, b = c.args
            if a.op == 'rc':
                a, b = b, a
            if a.op in ('rv', 'rcell', 'rfn') and not contains(b, a):
                m[a] = b
            elif b.op in ('rv', 'rcell', 'rfn') and not contains(a, b):
                m[b] = a
        elif c.op == 'eq0':
            l = c.args[0]
            cc, items = l.args
            for a, q in items:
                if q in (1, -1) and a.op == 'iv':
                    rest = isub(l, mk('lin', (0, ((a, q),)), 'I'))
                    if not contains(rest, a):
                        m[a] = iscale(rest, -q)
                        break
    if not m:
        return e
    for _ in range(3):
        e2 = subst(e, m)
        if e2 is e:
            break
        e = e2
    return e
