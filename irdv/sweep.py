"""Obligations of one tape operation in one interpreter (sweep driver): the
real code is executed symbolically for one arbitrary iteration of its dispatch
loop, and every cell of the resulting state is compared with the contract."""
import time, traceback
from execu import *
from interp import *
import interp, specs, build
from prover import Prover, Obl
from specs import OPS, POINTS, aliasings, mindec, opcodes


class NotInferred(Exception):
    pass


def L(name):
    v = ivar(name)
    declare_distinct([v], 'L')
    return v


def lexless(a, b):
    """a precedes b in lexicographic order"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = bor(rlt(x, y), band(req(x, y), r))
    return r


def locfacts(locs):
    return [ile(0, l) for l in locs]


class Base:
    """common part: one driver function of one translation unit"""
    direction = 'f'
    cellsize = 8
    ndir = None
    T0p = None

    def __init__(self, modules, src, fname, args, facts=(), name=None, seed=1, contracts=None):
        self.name = name or fname
        self.src = src
        self.fname = fname
        self.prover = Prover(seed=seed)
        self.OP = opcodes()
        self.it = Interp(modules, fname, args, facts=facts, contracts=contracts)
        self.ex = self.it.ex
        self.facts = list(facts)
        self.stops = self.pick_stops()
        self.paths = 0

    def pick_stops(self):
        """prologue end states that differ in their pointer configuration"""
        out, seen = [], set()
        for s in self.it.prologue_stops:
            ph = self.ex.phis(s.env, s.pred, self.it.loop.header, self.it.fn)
            k = repr(sorted((a, repr(b)) for a, b in ph.items() if not str(a).startswith('!')))
            if k in seen:
                continue
            seen.add(k)
            out.append(s)
        return out

    # ---------------------------------------------------------- observation
    def load(self, st, p, ty=D):
        sv, self.ex.trackers = self.ex.trackers, []
        try:
            return self.ex.load1(st, p, ty)
        finally:
            self.ex.trackers = sv

    def start_load(self, p, ty=D):
        return self.load(self.it.start, p, ty)

    def run(self, opname, locs, vals, pre=(), setup=None, stop=None, tays=None):
        st = self.it.generic_state(stop or self.stops[0])
        if setup:
            setup(st)
        for c in pre:
            st.assume(c)
        return self.it.run_op(self.OP[opname], locs, vals, st=st, stop=stop or self.stops[0], tays=tays)

    def finish(self, stop):
        """continue from a state that left the dispatch loop to the return"""
        ex = self.ex
        if isinstance(stop, tuple):
            return [stop]
        it = ex.jump(stop.st, stop.env, stop.pred, stop.target, self.it.fn)
        rets, stops = ex.run([it], self.it.fn, None)
        return rets

    def infer_return(self):
        """how the return code depends on the state: execute the end of the tape"""
        marks = ('end_of_tape',) if self.direction == 'f' else ('start_of_tape',)
        bk, ext, ret = self.run(marks[0], [], [])
        rets = list(ret)
        for s in bk:      # loop condition evaluated at the header
            nxt = self.ex.phis(s.env, s.pred, self.it.loop.header, self.it.fn)
            rets += self.rets_after(s)
        for s in ext:
            rets += self.finish(s)
        return rets

    def rets_after(self, s):
        """the state s jumps back to the header with a terminating opcode"""
        ex = self.ex
        it = ex.jump(s.st.copy(), s.env, s.pred, self.it.loop.header, self.it.fn)
        rets, stops = ex.run([it], self.it.fn, self.it.loop)
        out = list(rets)
        for x in stops:
            if x.target == self.it.loop.header:
                continue
            out += self.finish(x)
        return out

    def infer_ret(self):
        rets = self.infer_return()
        if not rets:
            raise NotInferred('no return after the end of the tape')
        self.ret_expr = None
        for st, v in rets:
            if isinstance(v, E) and is_atom(v) and the_atom(v).op == 'iv' and the_atom(v).args[0].startswith('S:'):
                if self.ret_expr is None:
                    self.ret_expr = v
                elif self.ret_expr is not v:
                    raise NotInferred('return value differs')
            else:
                raise NotInferred(f'return value {v!r}')
        self.ret_phi = next(r for r, g in self.it.gen.items() if g is self.ret_expr)

    def check_prologue(self):
        """the state in which the sweep starts"""
        P = self.prover
        want = {self.ret_phi: 3} if self.ret_phi else {}
        if self.direction == 'f':
            want[self.ind_phi] = 0
            if getattr(self, 'dep_phi', None):
                want[self.dep_phi] = 0
        else:
            # TapeInfos::NUM_INDEPENDENTS / NUM_DEPENDENTS
            want[self.ind_phi] = isub(ifn('stat', 0), 1)
            want[self.dep_phi] = isub(ifn('stat', 1), 1)
        n = 0
        for s in self.it.prologue_stops:
            n += 1
            ph = self.phi(s)
            for x, w in want.items():
                P.prove(self.ob(f'start:{"return-code" if x == self.ret_phi else "counter"}'), list(s.st.pc), ph[x], w)
            for r in ph:
                if self.is_opphi(r):
                    P.holds(self.ob('start:next-opcode'), ph[r] is ifn('OPC', 0), (), f'{ph[r]!r}')
        P.holds(self.ob('start:reached'), n > 0)
        # the state arrays have a place for every location (and every direction)
        for q in (self.T0p, getattr(self, 'Tp', None), getattr(self, 'Ap', None)):
            d = self.ex.dims.get(q.obj.rstrip('*')) if q is not None else None
            if d:
                P.prove(self.ob(f'start:rows of {q.obj}'), [], d[0], ifn('stat', 2))
                if len(d) > 1 and self.ndir is not None and hasattr(self, 'check_columns'):
                    self.check_columns(q, d)
                elif len(d) > 1 and self.ndir is not None:
                    ok = self.ex.solver.check(list(self.facts) + [ilt(d[-1], self.ndir)]) == 'unsat'
                    P.holds(self.ob(f'start:columns of {q.obj}'), ok, (), f'{show(d[-1])} columns')

    def phi(self, s):
        return self.ex.phis(s.env, s.pred, self.it.loop.header, self.it.fn)

    # ---------------------------------------------------------- obligations
    def ob(self, name):
        return f'{self.name}:{name}'

    def common(self, tag, s, o_locs, o_vals, retwant=None):
        """frame conditions common to all operations that continue the sweep"""
        P = self.prover
        ex = self.ex
        ph = self.phi(s)
        pc = list(s.st.pc)
        opphi = [r for r, g in self.it.gen.items() if g is not None and self.is_opphi(r)]
        for r in opphi:
            P.holds(self.ob(f'{tag}:next-opcode'), ph[r] is ifn('OPC', 0) or ph[r] == ifn('OPC', 0), (),
                    f'next operation code is {ph[r]!r}')
        P.holds(self.ob(f'{tag}:op-reads'), self.same_int(gget(ex, s.st, 16), 1), (), f'opcode reads: {gget(ex, s.st, 16)!r}')
        P.prove(self.ob(f'{tag}:location-reads'), pc, gget(ex, s.st, 0), o_locs)
        P.prove(self.ob(f'{tag}:value-reads'), pc, gget(ex, s.st, 8), o_vals)
        for r, g in self.it.gen.items():
            if isinstance(g, Ptr) and not g.obj.startswith('stale:'):
                P.holds(self.ob(f'{tag}:pointer-{r}'), ph[r] == g, (), f'{r}: {ph[r]!r} instead of {g!r}')
        for name, (base, log) in self.it.start.mem.items():
            for (rows, off), (v, sz) in base.items():
                if isinstance(v, Ptr):
                    w = self.load(s.st, Ptr(name, rows, off), P64)
                    if w != v:
                        P.holds(self.ob(f'{tag}:pointer-cell {name}'), False, (), f'{w!r} instead of {v!r}')
        if retwant is not None:
            P.prove(self.ob(f'{tag}:return-code'), pc, ph[self.ret_phi], retwant)
        self.bounds(tag, s)

    def bounds(self, tag, s):
        """every write to a row of a matrix stays within the row"""
        seen = set()
        for name, (base, log) in s.st.mem.items():
            root = name.rstrip('*')
            lim = self.rowlimit(name, root)
            if lim is None:
                continue
            stop = self.it.start.mem.get(name, ({}, None))[1]
            node = log
            while node is not None and node is not stop:
                e, node = node
                key = (name, e.off, e.rows if root.startswith('arg') else None, getattr(e, 'vars', None), getattr(e, 'n', None), e.guard)
                if key in seen:
                    continue
                seen.add(key)
                what, lo, hi = lim(e)
                pc = list(s.st.pc) + [e.guard]
                for v, a, b in getattr(e, 'vars', ()) or ():
                    v = mk('lin', (0, ((v, 1),)), 'I')
                    pc += [ile(a, v), ilt(v, b)]
                end = iadd(what, isub(getattr(e, 'n', 1), 1) if not isinstance(e, W) else 0)
                bad = bor(ilt(what, lo), ile(hi, end))
                ok = bad is False or self.ex.solver.check([c for c in pc if c is not True] + [bad]) == 'unsat'
                self.prover.holds(self.ob(f'{tag}:bounds {name}'), ok, (), f'{e} leaves its row of {show(hi)} bytes')

    def rowlimit(self, name, root):
        d = self.ex.dims.get(root)
        if d is not None and len(name) - len(root) == len(d) - 1 and len(d) > 1:
            return lambda e: (e.off, 0, iscale(d[-1], 8))
        if self.ndir is not None and name == f'arg{self.pos.get("taylors")}*':      # a row per dependent, a column per direction
            return lambda e: (e.off, iscale(self.coloff, self.cellsize), iscale(iadd(self.coloff, self.ndir), self.cellsize))
        if self.ndir is not None and name == f'arg{self.pos.get("results")}*':      # a row per direction
            return lambda e: (e.rows[0], 0, iscale(self.ndir, 8))
        return None

    def same_int(self, a, b):
        return ieq(a, b) is True

    def is_opphi(self, r):
        v0 = self.ex.phis(self.stops[0].env, self.stops[0].pred, self.it.loop.header, self.it.fn)[r]
        return isinstance(v0, E) and v0.op == 'lin' and is_atom(v0) and the_atom(v0).op == 'ifn' and the_atom(v0).args[0] == 'OPC'

    def health(self, tag):
        ex = self.ex
        P = self.prover
        if ex.bounded:
            P.obls.append(Obl(self.ob(tag + ':loops'), 'unknown', '-', 0, f'loop not summarised: {ex.bounded[:3]}'))
        if ex.unmodelled:
            bad = {k for k in ex.unmodelled if k != 'strlen'}
            if bad:
                P.obls.append(Obl(self.ob(tag + ':calls'), 'unknown', '-', 0, f'calls without contract: {sorted(bad)}'))

    just = None      # one record only

    def guard(self, tag, f, *a):
        if self.just and tag.split('[')[0] not in self.just:
            return
        try:
            f(*a)
        except (Unsupported, NotInferred, ASSUMED) as e:
            self.prover.obls.append(Obl(self.ob(tag), 'unknown', '-', 0, f'not within reach of the verifier: {e}'))
        except RecursionError as e:
            self.prover.obls.append(Obl(self.ob(tag), 'unknown', '-', 0, 'recursion'))


class Forward1(Base):
    """zero/first order forward sweeps.
    pos: dict role -> parameter position for basepoint, argument, valuepoint,
    taylors; ndir: None (zero order), 1 (one direction) or the symbolic number
    of directions"""

    def __init__(self, modules, src, fname, args, pos, ndir=None, keep=0, facts=(), name=None, seed=1, coloff=0, scalar_cols=None, contracts=None):
        super().__init__(modules, src, fname, args, facts, name, seed, contracts)
        self.pos = pos
        self.ndir = ndir
        self.keep = keep
        self.coloff = coloff
        self.c = ivar('c')
        self.colfacts = [] if ndir in (None, 1) else [ile(0, self.c), ilt(self.c, ndir)]
        self.infer_ret()
        self.infer_layout()

    # argument cells -------------------------------------------------------
    def basecell(self, k):
        return rcell(f'arg{self.pos["basepoint"]}', iscale(k, 8))

    def argcell(self, k, c):
        n = f'arg{self.pos["argument"]}'
        if self.ndir == 1:
            return rcell(n, iscale(k, 8))
        return rcell(n + '*', iscale(k, 8), iscale(iadd(c, self.coloff), 8))

    def infer_layout(self):
        """where the values and the tangents of a location live"""
        r = L('r_')
        ex = self.ex
        bk, ext, ret = self.run('assign_ind', [r], [])
        if not bk:
            raise NotInferred('assign_ind does not continue')
        s = bk[0]
        self.T0p = self.Tp = self.ind_phi = None
        for name, (base, log) in s.st.mem.items():
            if name in (GH, TAY, LOCF, VALF) or name.startswith('al.'):
                continue
            node = log
            while node:
                e, node = node
                if not isinstance(e, W) or not isinstance(e.val, E):
                    continue
                a = e.val
                if a.op == 'rcell' and a.args[0] == f'arg{self.pos["basepoint"]}':
                    self.T0p = Ptr(name, e.rows, e.off)
                    k = exact_div(a.args[1], 8)
                    self.ind_phi = next((x for x, g in self.it.gen.items() if g is k), None)
                elif a.op == 'rcell' and self.ndir is not None and a.args[0].startswith(f'arg{self.pos["argument"]}'):
                    off = e.off
                    if e.vars:
                        # columns: offset must be 8*column + constant part
                        off = isub(off, iscale(subst_col(e), 8)) if False else off
                        self.Tp = Ptr(name, e.rows, None)
                    else:
                        self.Tp = Ptr(name, e.rows, off if self.ndir == 1 else None)
        if self.T0p is None or (self.ndir is not None and self.Tp is None):
            raise NotInferred('value/tangent arrays')
        if self.ind_phi is None:
            raise NotInferred('index of the independent')
        self.rat = the_atom(r)

    def p0(self, l):
        m = {self.rat: l}
        return Ptr(self.T0p.obj, tuple(subst(x, m) for x in self.T0p.rows), subst(self.T0p.off, m))

    def pT(self, l, c):
        m = {self.rat: l}
        rows = tuple(subst(x, m) for x in self.Tp.rows)
        if self.Tp.off is not None:
            return Ptr(self.Tp.obj, rows, subst(self.Tp.off, m))
        return Ptr(self.Tp.obj, rows, iscale(c, 8))

    # ---- what the state holds per location besides the value
    def coords(self):
        return [self.c] if self.ndir is not None else []

    def cname(self, label, c):
        return f'tangent[{label}]'

    def lin(self, l):
        return lambda c: self.start_load(self.pT(l, c))

    def chain_of(self, o, value, part, locs, v):
        x0 = {r: self.start_load(self.p0(l)) for r, l in locs.items()}
        return self.tangent(part(x0, v), locs)

    def prodT(self, a, b, c):
        T0 = lambda l: self.start_load(self.p0(l))
        return radd(rmul(T0(a), self.lin(b)(c)), rmul(self.lin(a)(c), T0(b)))

    def outcell(self, ty, K, c):
        return Ptr(ty, (), iscale(K, 8)) if self.ndir == 1 else Ptr(ty + '*', (iscale(K, 8),), iscale(iadd(c, self.coloff), 8))

    def pushes_of(self, l):
        """what keeping a location pushes: (number, [(relative position, facts, value)])"""
        out = []
        if self.keep >= 1:
            out.append((0, [], self.start_load(self.p0(l))))
        if self.keep >= 2:
            out.append((1, [], self.start_load(self.pT(l, 0))))
        return len(out), out

    # ---------------------------------------------------------- checks
    def check_cells(self, tag, s, cells, pre):
        """cells: list of (label, location, facts, value, tangent function)"""
        P = self.prover
        for label, l, facts, v, tf in cells:
            pc = list(s.st.pc) + list(facts)
            st = s.st
            if facts:
                st = st.copy()
                for f in facts:
                    st.assume(f)
            P.prove(self.ob(f'{tag}:value[{label}]'), pc, self.load(st, self.p0(l)), v)
            if self.ndir is not None and tf is not None:
                st = st.copy()
                for f in self.colfacts:
                    st.assume(f)
                for c in self.coords():
                    P.prove(self.ob(f'{tag}:{self.cname(label, c)}'), pc + self.colfacts, self.load(st, self.pT(l, c)), tf(c))

    def check_push(self, tag, s, roles, pre):
        """values pushed on the taylor stack"""
        P = self.prover
        tot, want = 0, []
        for l in roles:
            cnt, ps = self.pushes_of(l)
            want += [(iadd(tot, rel), f, w) for rel, f, w in ps]
            tot = iadd(tot, cnt)
        n = isub(gget(self.ex, s.st, 24), ivar('TSP'))
        P.prove(self.ob(f'{tag}:taylor-pushes'), list(s.st.pc), n, tot)
        for k, (rel, facts, w) in enumerate(want):
            st = s.st.copy()
            for f in facts:
                st.assume(f)
            g = self.load(st, Ptr(TAY, (), iscale(iadd(ivar('TSP'), rel), 8)))
            P.prove(self.ob(f'{tag}:taylor-push[{k}]'), list(st.pc), g, w)

    def frame_args(self, tag, s, allowed=()):
        """no operation but those allowed writes to the caller's arrays"""
        for name, (base, log) in s.st.mem.items():
            if name.startswith('arg') and name.rstrip('*') not in allowed:
                b0, l0 = self.it.start.mem.get(name, ({}, None))
                if log is not l0 or base != b0:
                    self.prover.holds(self.ob(f'{tag}:frame {name}'), False, (), f'writes to caller array {name}: {log}')

    def aux_phis(self, tag, s, inc=None):
        """independent counter"""
        ph = self.phi(s)
        want = iadd(self.it.gen[self.ind_phi], 1 if inc == 'ind' else 0)
        self.prover.prove(self.ob(f'{tag}:independent-counter'), list(s.st.pc), ph[self.ind_phi], want)
        if getattr(self, 'dep_phi', None):
            want = iadd(self.it.gen[self.dep_phi], 1 if inc == 'dep' else 0)
            self.prover.prove(self.ob(f'{tag}:dependent-counter'), list(s.st.pc), ph[self.dep_phi], want)

    # ---------------------------------------------------------- table ops
    def check_op(self, o):
        for m in aliasings(o):
            self.guard(f'{o.name}[{"/".join(sorted(set(m.values())))}]', self.check_op_alias, o, m)
            if o.tie:
                self.guard(f'{o.name}[{"/".join(sorted(set(m.values())))}]@tie', self.check_op_alias, o, m, True)

    def anyT(self, l):
        """a tangent at l is not zero"""
        if self.ndir is None:
            return False
        if self.ndir == 1:
            return self.nonzero(self.start_load(self.pT(l, 0)))
        q = ivar(fresh('q'))
        st = self.it.start.copy()
        st.assume(ile(0, q))
        st.assume(ilt(q, self.ndir))
        return bexists(q, self.ndir, self.nonzero(self.load(st, self.pT(l, q))))

    def nonzero(self, a):
        return bnot(req(a, R0))

    def check_op_alias(self, o, m, tie=False):
        P = self.prover
        ex = self.ex
        tag = f'{o.name}[{",".join(sorted(set(m.values())))}]' + ('@tie' if tie else '')
        locs = {r: L(n + '_') for r, n in m.items()}
        other = L('other_')
        x0 = {}
        v = o.fixv or [rvar(f'c{k}') for k in range(o.vals)]

        def setup(st):
            fixed = {self.p0(locs[r]): q for r, q in o.fixx.items()}
            if o.ref:
                fixed[self.p0(locs['p'])] = i2r(locs['R'])
            for p, q in fixed.items():
                base, log = ex.getobj(st, p.obj)
                base = dict(base)
                base[(p.rows, p.off)] = (q, 8)
                st.mem[p.obj] = (base, log)
            for r, l in locs.items():
                x0[r] = self.load(st, self.p0(l))
            for l in list(locs.values()) + [other]:
                st.assume(ile(0, l))
        st0 = self.it.generic_state(self.stops[0])
        setup(st0)
        pre = [o.tie(x0, v)] if tie else list(o.pre(x0, v)) if o.pre else []
        for k, stop in enumerate(self.stops):
            bk, ext, ret = self.run(o.opcode, [locs[r] for r in o.locs], v, pre=pre, setup=setup, stop=stop)
            self.paths += len(bk) + len(ext) + len(ret)
            self.health(tag)
            start = self.it.start
            for pc, what in ex.fails:
                if ex.solver.check(list(pc)) != 'unsat':
                    P.holds(self.ob(f'{tag}:no-failure'), False, (), f'{what} when {[show(c) for c in pc][:6]}')
            cont = []
            term = []
            for s in bk:
                opv = [self.phi(s)[r] for r in self.it.gen if self.is_opphi(r)]
                if opv and isinstance(opv[0], int):
                    term.append(s)
                else:
                    cont.append(s)
            if not bk and not ext and not ret:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
                continue
            # ---- termination (branch switch)
            sw = o.branch(x0, v) if o.branch else False
            for s in term:
                P.prove(self.ob(f'{tag}:switch-only-if-branch-changed'), list(s.st.pc), True if sw is True else sw, True)
                for (st, val) in self.rets_after(s):
                    P.prove(self.ob(f'{tag}:switch-return-code'), list(st.pc), val, -1)
                self.frame_args(tag, s)
            for s in ext:
                for (st, val) in self.finish(s):
                    self.exit_ok(tag, o, st, val, sw)
            for (st, val) in ret:
                self.exit_ok(tag, o, st, val, sw)
            self.it.start = start
            # ---- continuing paths
            for s in cont:
                pc = list(s.st.pc)
                if sw is not False:
                    P.prove(self.ob(f'{tag}:branch-kept'), pc, sw, False)
                retw = self.ret_expr
                if o.ret and self.ret_expr is not None:
                    retw = o.tieret(self.ret_expr, self.anyT(locs['a'])) if tie else o.ret(x0, v, self.ret_expr)
                self.common(tag, s, len(o.locs), o.vals, retw)
                self.aux_phis(tag, s)
                self.frame_args(tag, s)
                roles = []
                if o.out and o.keep:
                    if o.aux:
                        roles.append(locs[o.aux[0]])
                    roles.append(locs[o.out])
                self.check_push(tag, s, roles, pre)
                cells = self.cells_of(o, m, locs, x0, v, other)
                if tie:
                    cells = self.tiecells(o, locs, cells)
                self.check_cells(tag, s, cells, pre)

    def coefs(self, l, c):
        """the coefficients of the direction of coordinate c"""
        return [self.start_load(self.pT(l, c))], 0

    def tiecells(self, o, locs, cells):
        """at a tie the first differing coefficient decides (one-sided directional derivative)"""
        def f(c):
            a, k = self.coefs(locs['a'], c)
            if o.name == 'abs_val':
                return rite(lexless(a, [R0] * len(a)), rneg(a[k]), a[k])
            b, k = self.coefs(locs['b'], c)
            return rite(lexless(b, a), b[k], a[k])
        return [(a, l, fs, v, f if l is locs[o.out] and self.ndir is not None else t) for a, l, fs, v, t in cells]

    def exit_ok(self, tag, o, st, val, sw):
        if sw is False:
            if self.ex.solver.check(list(st.pc)) != 'unsat':
                self.prover.holds(self.ob(f'{tag}:leaves-sweep'), False, (), f'the sweep ends with {val!r} when {[show(c) for c in st.pc][:6]}')
            return
        self.prover.prove(self.ob(f'{tag}:switch-only-if-branch-changed'), list(st.pc), sw, True)
        self.prover.prove(self.ob(f'{tag}:switch-return-code'), list(st.pc), val, -1)

    def tangent(self, part, locs):
        def f(c):
            t = R0
            for r, q in part.items():
                t = radd(t, rmul(q, self.start_load(self.pT(locs[r], c))))
            return t
        return f

    def cells_of(self, o, m, locs, x0, v, other):
        out = []
        done = set()
        if o.out:
            out.append((f'{o.out}', locs[o.out], [], o.value(x0, v), self.chain_of(o, o.value, o.partials, locs, v)))
            done.add(locs[o.out])
            if o.aux:
                r, vf, pf = o.aux
                out.append((r, locs[r], [], vf(x0, v), self.chain_of(o, vf, pf, locs, v)))
                done.add(locs[r])
        for r, l in list(locs.items()) + [('other', other)]:
            if l in done:
                continue
            done.add(l)
            out.append((r, l, [], self.start_load(self.p0(l)),
                        (lambda l: lambda c: self.start_load(self.pT(l, c)))(l) if self.ndir is not None else None))
        return out

    # ---------------------------------------------------------- special ops
    def special(self, opname, locs, vals, cells, pushes=(), facts=(), inc=None, allowed=(), nvals=None, extra=None,
                variant='', setup=None):
        tag = opname + variant
        P = self.prover
        ex = self.ex
        for stop in self.stops:
            bk, ext, ret = self.run(opname, locs, vals, pre=facts, stop=stop, setup=setup)
            self.paths += len(bk)
            self.health(tag)
            if not bk:
                P.holds(self.ob(f'{tag}:progress'), False, (), 'no path reaches the end of the operation')
            for pc, what in ex.fails:
                if ex.solver.check(list(pc)) != 'unsat':
                    P.holds(self.ob(f'{tag}:no-failure'), False, (), f'{what} when {[show(c) for c in pc][:6]}')
            for x in list(ext) + list(ret):
                st = x.st if isinstance(x, Stop) else x[0]
                if ex.solver.check(list(st.pc)) != 'unsat':
                    P.holds(self.ob(f'{tag}:leaves-sweep'), False, (), f'when {[show(c) for c in st.pc][:6]}')
            for s in bk:
                self.common(tag, s, len(locs), len(vals) if nvals is None else nvals, self.ret_expr)
                self.aux_phis(tag, s, inc)
                self.frame_args(tag, s, allowed)
                self.push_list(tag, s, pushes)
                self.check_cells(tag, s, cells(self), list(facts))
                if extra:
                    extra(tag, s)

    def push_list(self, tag, s, pushes):
        """pushes: list of locations or ('range', start, n)"""
        if len(pushes) == 1 and isinstance(pushes[0], tuple):
            _, a, n = pushes[0]
            P = self.prover
            k = ivar('k_')
            kf = [ile(0, k), ilt(k, n)]
            st = s.st.copy()
            for f in kf:
                st.assume(f)
            got_n = isub(gget(self.ex, s.st, 24), ivar('TSP'))
            cnt, ps = self.pushes_of(iadd(a, k))
            P.prove(self.ob(f'{tag}:taylor-pushes'), list(s.st.pc), got_n, imul(n, cnt))
            for q, (rel, facts, w) in enumerate(ps):
                st2 = st.copy()
                for f in facts:
                    st2.assume(f)
                g = self.load(st2, Ptr(TAY, (), iscale(iadd(ivar('TSP'), iadd(imul(k, cnt), rel)), 8)))
                P.prove(self.ob(f'{tag}:taylor-push[{q}]'), list(st2.pc), g, w)
        else:
            self.check_push(tag, s, pushes, ())

    def keepcell(self, l, label='other', facts=()):
        return (label, l, list(facts), self.start_load(self.p0(l)),
                (lambda c: self.start_load(self.pT(l, c))) if self.ndir is not None else None)

    def check_special(self):
        r, a, b, other = L('r_'), L('a_'), L('b_'), L('other_')
        nn = locfacts([r, a, b, other])
        zero = lambda c: R0
        K = self.it.gen[self.ind_phi]
        # assign_ind
        self.guard('assign_ind', lambda: self.special(
            'assign_ind', [r], [], lambda w: [('r', r, [], self.basecell(K), lambda c: self.argcell(K, c)), self.keepcell(other)],
            pushes=[r], inc='ind', facts=nn))
        self.guard('ref_assign_ind', self.ref_assign_ind)
        self.guard('assign_dep', self.assign_dep)
        self.guard('assign_p', lambda: self.special(
            'assign_p', [ivar('pi'), r], [], lambda w: [('r', r, [], rcell('PARAM', iscale(ivar('pi'), 8)), zero), self.keepcell(other)],
            pushes=[r], facts=nn))
        for nm in ('start_of_tape', 'end_of_op', 'end_of_int', 'end_of_val'):
            self.guard(nm, lambda: self.special(nm, [], [], lambda w: [self.keepcell(other)], facts=nn,
                                                extra=self.block_event(nm)) if nm != 'end_of_op' else self.end_of_op(nn, other))
        # vectors
        n = ivar('n_')
        rr, aa, bb, oo, k = [ivar(x) for x in ('R_', 'A_', 'B_', 'O_', 'k_')]
        vf = [ile(0, n)] + locfacts([rr, aa, bb, oo, k])
        dis = lambda x, y: bor(ile(iadd(x, n), y), ile(iadd(y, n), x))
        kin = [ile(0, k), ilt(k, n)]
        out1 = lambda: [bor(ilt(oo, rr), ile(iadd(rr, n), oo))]
        T0 = lambda l: self.start_load(self.p0(l))
        T = lambda l, c: self.start_load(self.pT(l, c))
        pl = lambda x: iadd(x, k)
        d = lambda q: rcell(VALF, iscale(q, 8))
        self.guard('take_stock_op', lambda: self.special(
            'take_stock_op', [n, rr], [], lambda w: [
                ('r+k', pl(rr), kin, self.load(self.it.start, Ptr(VALF, (), iscale(k, 8))), zero),
                self.keepcell(oo, facts=out1())], facts=vf, nvals=n))
        self.guard('vec_copy', lambda: self.special(
            'vec_copy', [aa, n, rr], [], lambda w: [
                ('r+k', pl(rr), kin, T0(pl(aa)), lambda c: T(pl(aa), c)), self.keepcell(oo, facts=out1())],
            facts=vf + [dis(aa, rr)], pushes=[('range', rr, n)]))
        notin = lambda x, y: bor(ilt(x, y), ile(iadd(y, n), x))
        j = ivar('j_')
        self.guard('vec_dot', lambda: self.special(
            'vec_dot', [aa, bb, n, rr], [], lambda w: [
                ('r', rr, [], rsum(j, 0, n, rmul(T0(iadd(aa, j)), T0(iadd(bb, j)))),
                 lambda c: rsum(j, 0, n, self.prodT(iadd(aa, j), iadd(bb, j), c))),
                self.keepcell(oo, facts=[bnot(ieq(oo, rr))])],
            facts=vf + [notin(rr, aa), notin(rr, bb), bor(ieq(aa, bb), dis(aa, bb))], pushes=[rr]))
        x = ivar('X_')
        # the result may be the vector that is scaled, the one that is added, or both
        for var, aa_, bb_ in (('', aa, bb), ('[r=a]', rr, bb), ('[r=b]', aa, rr), ('[r=a=b]', rr, rr)):
            fx = vf + [ile(0, x), notin(x, rr)] + [dis(v, rr) for v in (aa_, bb_) if v is not rr]
            self.guard('vec_axpy' + var, lambda aa=aa_, bb=bb_, fx=fx, var=var: self.special(
                'vec_axpy', [x, aa, bb, n, rr], [], lambda w: [
                    ('r+k', pl(rr), kin, radd(rmul(T0(x), T0(pl(aa))), T0(pl(bb))),
                     lambda c: radd(self.prodT(x, pl(aa), c), T(pl(bb), c))),
                    self.keepcell(oo, facts=out1())],
                facts=fx, pushes=[('range', rr, n)], variant=var))
        # element access
        self.guard('subscript', lambda: self.subscript('subscript'))
        self.guard('subscript_ref', lambda: self.subscript('subscript_ref'))
        self.guard('death_not', self.death_not)

    def block_event(self, nm):
        want = {'end_of_int': 'loc_block', 'end_of_val': 'val_block', 'end_of_op': 'op_block'}.get(nm)

        def f(tag, s):
            ev = [e[0] for e in s.st.ev]
            self.prover.holds(self.ob(f'{tag}:block'), ev == ([want] if want else []), (), f'buffer requests {ev}')
        return f

    def end_of_op(self, nn, other):
        """the next operation code is the second one read"""
        tag = 'end_of_op'
        P = self.prover
        bk, ext, ret = self.run(tag, [], [], pre=nn)
        self.health(tag)
        P.holds(self.ob(f'{tag}:progress'), len(bk) >= 1 and not ext and not ret)
        for s in bk:
            ph = self.phi(s)
            P.holds(self.ob(f'{tag}:op-reads'), self.same_int(gget(self.ex, s.st, 16), 2), (), 'block, then first opcode of it')
            for r in self.it.gen:
                if self.is_opphi(r):
                    P.holds(self.ob(f'{tag}:next-opcode'), ph[r] is ifn('OPC', 1), (), f'{ph[r]!r}')
            ev = [e[0] for e in s.st.ev]
            P.holds(self.ob(f'{tag}:block'), ev == ['op_block'], (), f'{ev}')
            if self.ret_phi is not None:
                P.prove(self.ob(f'{tag}:return-code'), list(s.st.pc), ph[self.ret_phi], self.ret_expr)
            self.check_cells(tag, s, [self.keepcell(other)], ())

    def ref_assign_ind(self):
        p, R, other = L('p_'), L('R_'), L('other_')
        K = self.it.gen[self.ind_phi]
        self.special('ref_assign_ind', [p], [], lambda w: [
            ('R', R, [], self.basecell(K), lambda c: self.argcell(K, c)), self.keepcell(other), self.keepcell(p, 'p')],
            pushes=[R], inc='ind', facts=locfacts([p, R, other]), setup=self.refsetup(p, R))

    def refsetup(self, p, R):
        def f(st):
            q = self.p0(p)
            base, log = self.ex.getobj(st, q.obj)
            base = dict(base)
            base[(q.rows, q.off)] = (i2r(R), 8)
            st.mem[q.obj] = (base, log)
        return f

    def assign_dep(self):
        r, other = L('r_'), L('other_')
        vp = f'arg{self.pos["valuepoint"]}' if self.pos.get('valuepoint') is not None else None
        ty = f'arg{self.pos["taylors"]}' if self.pos.get('taylors') is not None else None
        P = self.prover
        # find the index phi from the write
        bk, ext, ret = self.run('assign_dep', [r], [])
        self.dep_phi = None
        for s in bk:
            for name, (base, log) in s.st.mem.items():
                if name.rstrip('*') in (vp, ty):
                    node = log
                    while node:
                        e, node = node
                        if isinstance(e, W):
                            q = e.rows[0] if e.rows else e.off
                            k = exact_div(q, 8)
                            for x, g in self.it.gen.items():
                                if g is k:
                                    self.dep_phi = x
        if self.dep_phi is None:
            raise NotInferred('index of the dependent')
        K = self.it.gen[self.dep_phi]

        def extra(tag, s):
            if vp:
                P.prove(self.ob(f'{tag}:result'), list(s.st.pc), self.load(s.st, Ptr(vp, (), iscale(K, 8))), self.start_load(self.p0(r)))
                o = ivar('o_')
                st = s.st.copy()
                st.assume(bnot(ieq(o, K)))
                P.prove(self.ob(f'{tag}:result-frame'), list(st.pc), self.load(st, Ptr(vp, (), iscale(o, 8))), rcell(vp, iscale(o, 8)))
            if ty and self.ndir is not None:
                st = s.st.copy()
                for f in self.colfacts:
                    st.assume(f)
                for c in self.coords():
                    P.prove(self.ob(f'{tag}:result-{self.cname("r", c)}'), list(st.pc), self.load(st, self.outcell(ty, K, c)),
                            self.start_load(self.pT(r, c)))
        self.special('assign_dep', [r], [], lambda w: [self.keepcell(r, 'r'), self.keepcell(other)], inc='dep',
                     facts=locfacts([r, other]), allowed=(vp, ty), extra=extra)

    def subscript(self, nm):
        """locations: index, vector start, result; value: number of elements"""
        a, vec, r, i, n, o = [ivar(x) for x in ('a_', 'V_', 'r_', 'i_', 'n_', 'O_')]
        fx = locfacts([a, vec, r, o, i]) + [ilt(i, n), ile(1, n), bnot(ieq(a, r)), bor(ilt(a, vec), ile(iadd(vec, n), a)),
                                             bor(ilt(r, vec), ile(iadd(vec, n), r))]
        el = iadd(vec, i)

        def setup(st):
            for f in fx:
                st.assume(f)
            q = self.p0(a)
            base, log = self.ex.getobj(st, q.obj)
            base = dict(base)
            base[(q.rows, q.off)] = (i2r(i), 8)
            st.mem[q.obj] = (base, log)
        if nm == 'subscript':
            cells = lambda w: [('r', r, [], self.start_load(self.p0(el)), lambda c: self.start_load(self.pT(el, c))),
                               self.keepcell(o, facts=[bnot(ieq(o, r)), bnot(ieq(o, a))])]
        else:
            cells = lambda w: [('r', r, [], i2r(el), None), self.keepcell(o, facts=[bnot(ieq(o, r)), bnot(ieq(o, a))])]
        self.special(nm, [a, vec, r], [i2r(n)], cells, pushes=[r], facts=fx, setup=setup)

    def death_not(self):
        a, b, other = ivar('A_'), ivar('B_'), ivar('O_')
        P = self.prover
        bk, ext, ret = self.run('death_not', [a, b], [], pre=locfacts([a, b, other]) + [ile(a, b)])
        tag = 'death_not'
        self.health(tag)
        for s in bk:
            self.common(tag, s, 2, 0, self.ret_expr)
            self.check_cells(tag, s, [self.keepcell(other)], ())
            tt = ivar('t_')
            for k, kf in ((isub(b, a), []), (isub(isub(b, a), iadd(tt, 1)), [ile(0, tt), ilt(tt, isub(b, a))])):
                cnt, ps = self.pushes_of(isub(b, k))
                P.prove(self.ob(f'{tag}:taylor-pushes'), list(s.st.pc), isub(gget(self.ex, s.st, 24), ivar('TSP')),
                        imul(iadd(isub(b, a), 1), cnt))
                for q, (rel, facts, w) in enumerate(ps):
                    st = s.st.copy()
                    for f in kf + list(facts):
                        st.assume(f)
                    g = self.load(st, Ptr(TAY, (), iscale(iadd(ivar('TSP'), iadd(imul(k, cnt), rel)), 8)))
                    P.prove(self.ob(f'{tag}:taylor-push[{q}]'), list(st.pc), g, w)

    def check_all(self, only=None):
        self.just = only if only == ('assign_p',) else None
        if only is None or 'special' in only or self.just:
            self.check_special()
        if only is None or 'special' in only:
            self.check_prologue()
        for nm, o in {**OPS, **POINTS}.items():
            if only is None or nm in only:
                self.check_op(o)
        return self.prover.obls
