"""C17: the easy-to-use drivers. The sweeps enter by contract: a call is an
event with its arguments (and the memory they are read from); the outputs are
named cells of that event, the return code is a symbol. Loops that contain a
sweep are verified for one arbitrary iteration: the memory at the loop head is
arbitrary except for the objects that every iteration is shown to preserve."""
from fun import *
from execu import Fill, Havoc, Item, analyse_cfg
from interp import c_myalloc, c_noop


class Sweep:
    """name: dims are functions of the scalar arguments"""

    def __init__(self, name, scalars, ins, outs):
        self.name, self.scalars, self.ins, self.outs = name, scalars, ins, outs


# argument positions: scalars by name; inputs/outputs (position, dims)
def S(name, sc, ins, outs):
    return name, Sweep(name, sc, ins, outs)


SWEEPS = dict([
    S('zos_forward', dict(tag=0, m=1, n=2, keep=3), dict(x=(4, 'n')), dict(y=(5, 'm'))),
    S('fos_forward', dict(tag=0, m=1, n=2, keep=3), dict(x=(4, 'n'), xd=(5, 'n')), dict(y=(6, 'm'), yd=(7, 'm'))),
    S('fov_forward', dict(tag=0, m=1, n=2, p=3), dict(x=(4, 'n'), X=(5, 'n', 'p')), dict(y=(6, 'm'), Y=(7, 'm', 'p'))),
    S('fov_offset_forward', dict(tag=0, m=1, n=2, p=3, off=4), dict(x=(5, 'n'), X=(6, 'n', ('off', 'p'))),
      dict(y=(7, 'm'), Y=(8, 'm', ('off', 'p')))),
    S('fos_reverse', dict(tag=0, m=1, n=2), dict(u=(3, 'm')), dict(z=(4, 'n'))),
    S('fov_reverse', dict(tag=0, m=1, n=2, q=3), dict(U=(4, 'q', 'm')), dict(Z=(5, 'q', 'n'))),
    S('hos_forward', dict(tag=0, m=1, n=2, d=3, keep=4), dict(x=(5, 'n'), X=(6, 'n', 'd')), dict(y=(7, 'm'), Y=(8, 'm', 'd'))),
    S('hov_forward', dict(tag=0, m=1, n=2, d=3, p=4), dict(x=(5, 'n'), X=(6, 'n', 'p', 'd')), dict(y=(7, 'm'), Y=(8, 'm', 'p', 'd'))),
    S('hov_wk_forward', dict(tag=0, m=1, n=2, d=3, keep=4, p=5), dict(x=(6, 'n'), X=(7, 'n', 'p', 'd')), dict(y=(8, 'm'), Y=(9, 'm', 'p', 'd'))),
    S('hos_reverse', dict(tag=0, m=1, n=2, d=3), dict(u=(4, 'm')), dict(Z=(5, 'n', 'd+1'))),
    S('hos_ov_reverse', dict(tag=0, m=1, n=2, d=3, p=4), dict(U=(5, 'm', 'd+1')), dict(Z=(6, 'p', 'n', 'd+1'))),
    S('zos_pl_forward', dict(tag=0, m=1, n=2, keep=3), dict(x=(4, 'n')), dict(y=(5, 'm'), z=(6, '#s'))),
    S('fov_pl_reverse', dict(tag=0, m=1, n=2, s=3, q=4), dict(U=(5, 'q', 'm'), US=(6, 'q', 's')), dict(R=(7, 'q', 'n'), RS=(8, 'q', 's'))),
    S('hov_reverse', dict(tag=0, m=1, n=2, d=3, q=4), dict(U=(5, 'q', 'm')), dict(Z=(6, 'q', 'n', 'd+1'))),
])


def dim(sc, d):
    """(low, length)"""
    if isinstance(d, tuple):
        return sc[d[0]], sc[d[1]]
    if d[0] == '#':
        return 0, ivar(d[1:])
    if d.endswith('+1'):
        return 0, iadd(sc[d[:-2]], 1)
    return 0, sc[d]


class Drivers(Fun):
    def __init__(self, sources, name, seed=1):
        c = {s: self.sweep(s) for s in SWEEPS}
        c.update({'myalloc1': c_myalloc(1), 'myalloc2': c_myalloc(2), 'myalloc3': c_myalloc(3), 'myallocI2': self.ident,
                  'myfree1': self.release, 'myfree2': self.release, 'myfree3': self.release, 'free': self.release, 'myfreeI2': self.release2})
        super().__init__(sources, name, c, seed)
        self.ex.maxu = 10
        self.sizes = []

    def new(self):
        ex = super().new()
        self.allzero(ex)
        for n, f in ex.fn_index.items():
            ex.loop_hooks[f.name] = self.loop
        return ex

    def allzero(self, ex):
        old = ex.contracts
        for k in ('myalloc1', 'myalloc2', 'myalloc3'):
            def f(ex_, st, a, ins, g=old[k]):
                r = g(ex_, st, a, ins)
                p = r[0][1]
                nm = p.obj
                nd = len(a)
                for lvl in range(nd):
                    ex_.initfn[nm + '*' * lvl] = (lambda rows, off, ty: R0 if ty.k == 'double' else 0) if lvl == nd - 1 else \
                        (lambda o: lambda rows, off, ty: Ptr(o, rows + (off,), 0) if ty.k == 'ptr' else None)(nm + '*' * (lvl + 1))
                ex_.dims[nm] = list(a)
                return r
            old[k] = f

    # ------------------------------------------------------------ contracts
    def ident(self, ex, st, a, ins):
        p = ex.alloc(st, 'ident')
        nm = p.obj
        ex.initfn[nm] = lambda rows, off, ty: Ptr(nm + '*', rows + (off,), 0) if ty.k == 'ptr' else None
        ex.initfn[nm + '*'] = lambda rows, off, ty: rite(ieq(rows[0], off), R1, R0)
        ex.dims[nm] = [a[0], a[0]]
        return [(st, p)]

    def release(self, ex, st, a, ins):
        st.ev = st.ev + (('free', a[0]),)
        return [(st, None)]

    def release2(self, ex, st, a, ins):
        st.ev = st.ev + (('free', a[1]),)
        return [(st, None)]

    def rows(self, st, p, idx):
        for k, i in enumerate(idx):
            p = p.add(iscale(i, 8))
            if k < len(idx) - 1:
                p = self.pointer(st, p)
        return p

    def split(self, st, p, idx):
        """the address of an element, one state for each place a row may be in"""
        if len(idx) == 1:
            return [(st, p.add(iscale(idx[0], 8)))]
        p = p.add(iscale(idx[0], 8))
        out, prev = [], []
        alts = self.ex.read(st, p, PTR)
        for c, v in alts:
            s2 = st.copy()
            for x in prev + [c]:
                s2.assume(x)
            prev.append(bnot(c))
            if len(alts) == 1 or self.ex.solver.check([x for x in s2.pc if x is not True]) != 'unsat':
                out += self.split(s2, v, idx[1:])
        return out

    def pointer(self, st, p):
        """row pointer: all feasible alternatives are the same address"""
        alts = self.ex.read(st, p, PTR)
        prev, got = [], []
        for c, v in alts:
            if len(alts) == 1 or self.ex.solver.check([x for x in list(st.pc) + prev + [c] if x is not True]) != 'unsat':
                got.append(([x for x in list(st.pc) + prev + [c] if x is not True], v))
            prev.append(bnot(c))
        if not got:
            raise Unsupported('no row pointer')
        cands = [v for _, v in got[:2]]
        for pc, v in got[:2]:
            if isinstance(v, Ptr) and len(v.rows) == 1 and isinstance(v.rows[0], int):
                for k in range(4):
                    if isinstance(p.off, E) and self.ex.solver.check(pc + [bnot(ieq(p.off, 8 * k))]) == 'unsat':
                        cands.append(Ptr(v.obj, (iadd(p.off, v.rows[0] - 8 * k),), v.off))
                        break
        for r in cands:
            if all(isinstance(v, Ptr) and v.obj == r.obj and len(v.rows) == len(r.rows) and all(
                    self.ex.solver.check(pc + [bnot(ieq(a, b))]) == 'unsat' for a, b in zip(v.rows + (v.off,), r.rows + (r.off,)) if ieq(a, b) is not True)
                   for pc, v in got):
                return r
        raise Unsupported(f'ambiguous row pointer {got[0][1]!r} {got[1][1]!r}'[:200])

    def sweep(self, name):
        spec = SWEEPS[name]

        def f(ex, st, a, ins):
            k = len(st.ev)
            sc = {n: a[i] for n, i in spec.scalars.items()}
            snap = st.copy()
            rc = ivar(f'code:{name}#{k}')
            st.assume(ile(rc, 3))
            st.ev = st.ev + (('sweep', name, k, sc, {n: (a[i[0]], i[1:]) for n, i in {**spec.ins, **spec.outs}.items()}, snap, rc),)
            for n, (pos, *dims) in spec.outs.items():
                p = a[pos]
                if p == NULL:
                    continue
                self.room(st, name, p, dims, sc)
                for first in self.parts(name, sc, dims):
                  idx, vs = [], []
                  s2 = st.copy()
                  for d in dims:
                    lo, ln = dim(sc, d)
                    if d == dims[0]:
                        lo, ln = first
                    if isinstance(ln, int) and ln == 1 and lo == 0:
                        idx.append(0)
                        continue
                    j = ivar(fresh('o'))
                    idx.append(j)
                    vs.append((the_atom(j), lo, iadd(lo, ln)))
                    s2.assume(ile(lo, j))
                    s2.assume(ilt(j, iadd(lo, ln)))
                  q = self.rows(s2, p, idx)
                  base, log = ex.getobj(st, q.obj)
                  st.mem[q.obj] = (base, (W(True, tuple(vs), q.rows, q.off, rcell(f'out:{name}#{k}:{n}', *idx), 8), log))
            for t in ex.trackers:
                t.opaque = True
            return [(st, rc)]
        return f

    def parts(self, name, sc, dims):
        """ranges of the first index whose rows are found in different places"""
        if name == 'fov_pl_reverse':
            return [(0, sc['m']), (sc['m'], isub(sc['q'], sc['m']))]
        return [dim(sc, dims[0])]

    def room(self, st, name, p, dims, sc):
        """the arrays handed over are large enough (arrays of the driver itself)"""
        have = self.ex.dims.get(p.obj)
        if have is None:
            return
        for d, h in zip(dims, have):
            lo, ln = dim(sc, d)
            self.sizes.append((tuple(st.pc), name, p.obj, iadd(lo, ln), h))

    # ---------------------------------------------------------------- loops
    def has_sweep(self, f, bodies=None, depth=0, memo=None):
        ex = self.ex
        f.parse()
        for bn, b in f.blocks.items():
            if bodies is not None and bn not in bodies:
                continue
            for ins in b.ins + ([b.term] if b.term is not None and b.term.op == 'invoke' else []):
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'global':
                    nm = ins.a[0][1]
                    sh = ex.short.get(nm)
                    if sh in SWEEPS:
                        return True
                    g = ex.fn_index.get(nm) or f.module.functions.get(nm)
                    if g is not None and g is not f and sh not in ex.contracts and depth < 5 and self.has_sweep(g, None, depth + 1):
                        return True
        return False

    def loop(self, ex, st, env, fn, L, frm):
        if getattr(self, 'inside', None) or not self.has_sweep(fn, L.body):
            return NotImplemented
        P = self.prover
        k = ivar('K')
        phis = [(ph.res, ph.ty) for ph in fn.blocks[L.header].phis]
        v0 = ex.phis(env, frm, L.header, fn)
        entry = st.copy()
        havoc = set()
        step = {}
        self.inside = True
        try:
            for attempt in range(12):
                s = entry.copy()
                s.ev = (('loop', fn.name),)
                for o in havoc:
                    s.mem[o] = ({}, (Havoc(f'any:{o}'), None))
                s.assume(ile(0, k))
                e2 = dict(env)
                gen = {}
                for r, ty in phis:
                    if ty.k == 'int' and r in step:
                        gen[r] = iadd(v0[r], iscale(k, step[r])) if isinstance(step[r], int) else iadd(v0[r], imul(k, step[r]))
                    elif ty.k == 'int':
                        gen[r] = ivar('P:' + r)
                    elif isinstance(v0[r], Ptr):
                        gen[r] = v0[r]
                    elif ty.k == 'double':
                        gen[r] = rvar('P:' + r)
                    else:
                        raise Unsupported(f'loop state of type {ty}')
                e2.update(gen)
                start = s.copy()
                nf = len(ex.fails)
                rets, stops = ex.run([Item(s, e2, L.header, 0, None)], fn, L)
                back = [x for x in stops if x.target == L.header]
                if not back:
                    raise Unsupported('loop with sweeps never repeats')
                news = [ex.phis(x.env, x.pred, L.header, fn) for x in back]
                changed = False
                for r, ty in phis:
                    if ty.k == 'int' and r not in step:
                        ds = {repr(isub(n[r], gen[r])) if not isinstance(n[r], Undef) else '?' for n in news}
                        if len(ds) == 1:
                            d = isub(news[0][r], gen[r])
                            if isinstance(d, int) or not self.mentions(d, phis, k):
                                step[r] = d
                                changed = True
                    elif isinstance(gen[r], Ptr) and any(n[r] != gen[r] for n in news):
                        raise Unsupported('pointer changes between iterations')
                if changed:
                    del ex.fails[nf:]
                    continue
                bad = set()
                for x in back:
                    for o in set(x.st.mem) | set(entry.mem):
                        if o in havoc or o in bad or o not in entry.mem and o.split('*')[0] in ex.allocs and o.split('*')[0] not in entry.mem:
                            continue
                        if x.st.mem.get(o) is start.mem.get(o) or (x.st.mem.get(o) or ({}, None)) == (start.mem.get(o) or ({}, None)):
                            continue
                        if not self.preserved(o, start, x.st):
                            bad.add(o)
                if bad:
                    havoc |= bad
                    del ex.fails[nf:]
                    continue
                break
            else:
                raise Unsupported('no loop invariant found')
        finally:
            self.inside = False
        self.iteration = dict(entry=entry, fname=fn.name, k=k, gen={r: gen[r] for r, _ in phis}, v0=v0, back=back, news=news, rets=rets, start=start, step=step, havoc=havoc, phis=phis)
        self.loops_seen.append(self.iteration)
        outs = [x for x in stops if x.target != L.header]
        # an iteration number above zero: the guard of the iteration before held
        common = [c for c in back[0].st.pc if c not in start.pc and all(c in x.st.pc for x in back) and not self.local(c)]
        prev = True
        for c in common:
            prev = band(prev, subst(c, {the_atom(k): isub(k, 1)}))
        for x in outs:
            x.st.assume(bor(ieq(k, 0), prev))
        self.iteration['prev'] = bor(ieq(k, 0), prev)
        return rets, outs

    def local(self, e):
        if isinstance(e, E):
            return e.op in ('iv', 'rv') and str(e.args[0]).startswith(('P:', 'code:')) or any(self.local(a) for a in e.args)
        if isinstance(e, (tuple, list)):
            return any(self.local(a) for a in e)
        return False

    def mentions(self, d, phis, k):
        names = {'P:' + r for r, _ in phis} | {'K'}
        def go(e):
            if isinstance(e, E):
                return e.op in ('iv', 'rv') and e.args[0] in names or any(go(a) for a in e.args)
            if isinstance(e, (tuple, list)):
                return any(go(a) for a in e)
            return False
        return go(d)

    def preserved(self, o, a, b):
        """an arbitrary cell of o has the same value in both states"""
        rank = o.count('*')
        rows = tuple(iscale(ivar(f'pr{i}'), 8) for i in range(rank))
        off = iscale(ivar('po'), 8)
        for e in self.cellsizes(b, o):
            if e != 8:
                return False
        p = Ptr(o, rows, off)
        try:
            for ty in (DOUBLE,):
                x = self.load(b, p, ty)
                y = self.load(a, p, ty)
                if isinstance(x, E) and isinstance(y, E):
                    if Prover(seed=1).eq(list(b.pc), x, y)[0] != 'proved':
                        return False
                elif x != y:
                    return False
        except (Unsupported, RecursionError, KeyError):
            return False
        return True

    def cellsizes(self, st, o):
        base, log = st.mem.get(o, ({}, None))
        out = {s for _, s in base.values()}
        while log is not None:
            e, log = log
            if isinstance(e, W):
                out.add(e.size)
        return out

    # ---------------------------------------------------------------- specs
    @staticmethod
    def user(nm, *idx):
        return rcell(nm + '*' * (len(idx) - 1), *[iscale(i, 8) for i in idx])

    def lem(self, pc):
        """products of non-negative terms are non-negative; definition of division"""
        out = []
        for a, b in self.products:
            if self.ex.solver.check([c for c in list(pc) + [bor(ilt(a, 0), ilt(b, 0))] if c is not True]) == 'unsat':
                out.append(ile(0, imul(a, b)))
        return [c for c in out if c is not True]

    def sure(self, tag, what, pc, cond, detail=''):
        pc = [c for c in pc if c is not True]
        return self.valid(tag, what, pc + self.lem(pc), cond, detail)

    def events(self, st):
        return [e for e in st.ev if e[0] == 'sweep']

    def matches(self, st, form):
        ev = self.events(st)
        return len(ev) <= len(form) and all(e[1] == f[0] for e, f in zip(ev, form))

    def arguments(self, tag, st, form):
        """the sweeps of the path get the arguments of the form"""
        P = self.prover
        for e, (name, scal, ins) in zip(self.events(st), form):
            _, _, k, sc, arr, snap, rc = e
            for n, w in scal.items():
                if callable(w):
                    self.sure(tag, f'{name}:{n}', st.pc, w(sc[n]), f'{n} = {show(sc[n]) if isinstance(sc[n], E) else sc[n]}')
                else:
                    self.sure(tag, f'{name}:{n}', st.pc, ieq(sc[n], w), f'{n} is {show(sc[n]) if isinstance(sc[n], E) else sc[n]}')
            for n, w in ins.items():
                p, dims = arr[n]
                idx, facts = [], []
                fixed = [[]]
                for q, d in enumerate(dims):
                    lo, ln = dim(sc, d)
                    if isinstance(ln, int) and isinstance(lo, int) and ln <= 3:
                        fixed = [x + [lo + y] for x in fixed for y in range(ln)]
                    else:
                        i = ivar(f'a{q}')
                        fixed = [x + [i] for x in fixed]
                        facts += [ile(lo, i), ilt(i, iadd(lo, ln))]
                for x in fixed:
                    s2 = snap.copy()
                    s2.pc = st.pc
                    for c in facts:
                        s2.assume(c)
                    if facts and self.ex.solver.check([c for c in s2.pc if c is not True]) == 'unsat':
                        continue
                    for s3, q in self.split(s2, p, x):
                        self.prove(tag, f'{name}:{n}', s3.pc, self.load(s3, q), w(*x))

    def code(self, tag, st, v, form, start=None):
        """the smallest code of the sweeps; a path that ends early ends with a negative one"""
        ev = self.events(st)
        want = start
        for e in ev:
            want = e[6] if want is None else iite(ilt(e[6], want), e[6], want)
        if isinstance(v, Undef):
            v = None
        self.prover.holds(self.ob(tag, 'returns'), v is not None, (), 'return code undefined')
        if v is not None:
            self.prove(tag, 'return-code', [c for c in st.pc if c is not True], v, want)
        if len(ev) < len(form):
            self.sure(tag, 'all-sweeps', st.pc, ilt(ev[-1][6], 0) if ev else False, f'only {[e[1] for e in ev]}')
        return len(ev) == len(form)

    def good(self, st):
        """codes without failure"""
        s = st.copy()
        for e in self.events(st):
            s.assume(ile(0, e[6]))
        return s if self.ex.solver.check([c for c in s.pc if c is not True]) != 'unsat' else None

    def result(self, tag, st, nm, dims, want, lower=False, what='result'):
        """nm[i..] of the caller is want(i..) for all valid indices"""
        s = st.copy()
        idx = []
        for q, d in enumerate(dims):
            i = ivar('ij'[q])
            idx.append(i)
            s.assume(ile(0, i))
            s.assume(ilt(i, d))
        if lower:
            s.assume(ile(idx[1], idx[0]))
        if self.ex.solver.check([c for c in s.pc if c is not True]) == 'unsat':
            return
        p = Ptr(nm + '*' * (len(dims) - 1), tuple(iscale(i, 8) for i in idx[:-1]), iscale(idx[-1], 8))
        self.prove(tag, what, s.pc, self.load(s, p), want(*idx))

    def frame(self, tag, st, outs, before=None, users=()):
        """no array of the caller changes outside the documented entries"""
        for o in sorted(st.mem):
            if o.split('*')[0] in self.ex.allocs or o.startswith(('al.', 'slot', 'str:')) or o.rstrip('*') not in users:
                continue
            rank = o.count('*')
            full = rank == dict(outs_rank(outs)).get(o.rstrip('*'), -1)
            idx = [ivar(f'f{q}') for q in range(rank + 1)]
            s = st.copy()
            d = outs.get(o.rstrip('*'))
            if d is not None and full:
                dims, lower = d
                c = True
                for i, n in zip(idx, dims):
                    c = band(c, ile(0, i), ilt(i, n))
                if lower:
                    c = band(c, ile(idx[1], idx[0]))
                s.assume(bnot(c))
            p = Ptr(o, tuple(iscale(i, 8) for i in idx[:-1]), iscale(idx[-1], 8))
            b = State() if before is None else before
            try:
                got, want = self.load(s, p), self.load(b, p)
            except Unsupported:
                continue
            self.prove(tag, f'frame({o})', s.pc, got, want)

    def locals_(self, tag, st):
        fr = [e[1].obj for e in st.ev if e[0] == 'free' and e[1] != NULL]
        self.prover.holds(self.ob(tag, 'released-once'), len(fr) == len(set(fr)) and all(o in self.ex.allocs for o in fr), (), f'{fr}')

    def driver(self, tag, fname, args, facts, forms, outs, results, users):
        """outs: user array -> (dims, lower only); results(st, form index) -> list of (array, dims, want, lower)"""
        self.sizes, self.loops_seen, self.products = [], [], getattr(self, 'products', [])
        codes = []
        paths = self.call(tag, fname, args, facts)
        self.prover.holds(self.ob(tag, 'no-loop-with-sweeps'), not self.loops_seen, (), 'the sweeps are called in a loop')
        done = 0
        for st, v in paths:
            fi = [i for i, f in enumerate(forms) if self.matches(st, f)]
            self.prover.holds(self.ob(tag, 'sweeps'), bool(fi), (), f'sweeps {[e[1] for e in self.events(st)]}')
            if not fi:
                continue
            form = forms[fi[0]]
            self.arguments(tag, st, form)
            full = self.code(tag, st, v, form)
            self.locals_(tag, st)
            self.frame(tag, st, outs, users=users)
            g = self.good(st) if full else None
            if g is not None:
                done += 1
                for nm, dims, want, lower in results(self.events(st), fi[0]):
                    self.result(tag, g, nm, dims, want, lower)
        self.prover.holds(self.ob(tag, 'completes'), done > 0, (), 'no path completes')
        self.room_obls(tag)

    def room_obls(self, tag):
        for pc, name, o, need, have in self.sizes:
            self.sure(tag, f'{name}:room', pc, ile(need, have), f'{o} has {have}, needs {need}')


def outs_rank(outs):
    return {k: len(d[0]) - 1 for k, d in outs.items()}.items()


def out(e, n, *idx):
    return rcell(f'out:{e[1]}#{e[2]}:{n}', *idx)


class Easy(Drivers):
    def check_all(self):
        g, u = self.guard, self.user
        n, m, t, q = ivar('n'), ivar('m'), ivar('tag'), ivar('q')
        F = [ile(1, n), ile(1, m), ile(1, q)]
        A = lambda nm: Ptr(nm, (), 0)
        x = lambda i: u('x', i)
        one = lambda *i: R1
        self.products = []
        zos = lambda m, keep: ('zos_forward', dict(tag=t, m=m, n=n, keep=keep), dict(x=x))
        any_ = lambda k: True
        ge = lambda b: (lambda k: ile(b, k))
        D = self.driver
        g('function', D, 'function', 'function', [t, m, n, A('x'), A('y')], F, [[zos(m, any_)]], {'y': ([m], False)},
          lambda ev, i: [('y', [m], lambda j: out(ev[0], 'y', j), False)], ('x', 'y'))
        g('gradient', D, 'gradient', 'gradient', [t, n, A('x'), A('g')], F,
          [[zos(1, ge(1)), ('fos_reverse', dict(tag=t, m=1, n=n), dict(u=one))]], {'g': ([n], False)},
          lambda ev, i: [('g', [n], lambda j: out(ev[1], 'z', j), False)], ('x', 'g'))
        rev = ('fos_reverse', dict(tag=t, m=m, n=n), dict(u=lambda i: u('u', i)))
        r = ivar('repeat')
        for rep, fact, form in (('new point', ieq(r, 0), [zos(m, ge(1)), rev]), ('same point', bnot(ieq(r, 0)), [rev])):
            g(f'vec_jac({rep})', D, f'vec_jac({rep})', 'vec_jac', [t, m, n, r, A('x'), A('u'), A('v')], F + [fact], [form], {'v': ([n], False)},
              lambda ev, i: [('v', [n], lambda j: out(ev[-1], 'z', j), False)], ('x', 'u', 'v'))
        I = lambda i, j: rite(ieq(i, j), R1, R0)
        g('jacobian', D, 'jacobian', 'jacobian', [t, m, n, A('x'), A('J')], F,
          [[('fov_forward', dict(tag=t, m=m, n=n, p=n), dict(x=x, X=I))], [zos(m, ge(1)), ('fov_reverse', dict(tag=t, m=m, n=n, q=m), dict(U=I))]],
          {'J': ([m, n], False)},
          lambda ev, i: [('J', [m, n], (lambda a, b: out(ev[0], 'Y', a, b)) if i == 0 else (lambda a, b: out(ev[1], 'Z', a, b)), False)], ('x', 'J'))
        g('jac_vec', D, 'jac_vec', 'jac_vec', [t, m, n, A('x'), A('v'), A('c')], F,
          [[('fos_forward', dict(tag=t, m=m, n=n), dict(x=x, xd=lambda i: u('v', i)))]], {'c': ([m], False)},
          lambda ev, i: [('c', [m], lambda j: out(ev[0], 'yd', j), False)], ('x', 'v', 'c'))
        second = lambda m, w: [('fos_forward', dict(tag=t, m=m, n=n, keep=ge(2)), dict(x=x, xd=lambda i: u('v', i))),
                               ('hos_reverse', dict(tag=t, m=m, n=n, d=1), dict(u=w))]
        g('hess_vec', D, 'hess_vec', 'hess_vec', [t, n, A('x'), A('v'), A('w')], F, [second(1, one)], {'w': ([n], False)},
          lambda ev, i: [('w', [n], lambda j: out(ev[1], 'Z', j, 1), False)], ('x', 'v', 'w'))
        g('lagra_hess_vec', D, 'lagra_hess_vec', 'lagra_hess_vec', [t, m, n, A('x'), A('v'), A('u'), A('w')], F,
          [second(m, lambda i: u('u', i))], {'w': ([n], False)}, lambda ev, i: [('w', [n], lambda j: out(ev[1], 'Z', j, 1), False)], ('x', 'v', 'u', 'w'))
        mat = lambda p, V: [('hov_wk_forward', dict(tag=t, m=1, n=n, d=1, keep=ge(2), p=p), dict(x=x, X=V)),
                            ('hos_ov_reverse', dict(tag=t, m=1, n=n, d=1, p=p), dict(U=lambda i, j: R1 if j == 0 else R0))]
        g('hess_mat', D, 'hess_mat', 'hess_mat', [t, n, q, A('x'), A('V'), A('W')], F, [mat(q, lambda i, j, k: u('V', i, j))], {'W': ([n, q], False)},
          lambda ev, i: [('W', [n, q], lambda a, b: out(ev[1], 'Z', b, a, 1), False)], ('x', 'V', 'W'))
        g('hessian2', D, 'hessian2', 'hessian2', [t, n, A('x'), A('H')], F, [mat(n, lambda i, j, k: rite(ieq(i, j), R1, R0))], {'H': ([n, n], True)},
          lambda ev, i: [('H', [n, n], lambda a, b: out(ev[1], 'Z', a, b, 1), True)], ('x', 'H'))
        g('hessian', self.hessian, t, n, F, second)
        g('large_jacobian', self.large_jacobian, t, n, m, F)
        return self.prover.obls

    # one arbitrary iteration of the loop over the directions
    def looped(self, tag, fname, args, facts, form, users):
        self.sizes, self.loops_seen = [], []
        paths = self.call(tag, fname, args, facts)
        P = self.prover
        P.holds(self.ob(tag, 'loop'), len(self.loops_seen) == 1, (), f'{len(self.loops_seen)} loops with sweeps')
        it = self.loops_seen[0]
        rcs = [r for r, ty in it['phis'] if ty.k == 'int' and r not in it['step']]
        P.holds(self.ob(tag, 'loop-state'), len(rcs) == 1, (), f'{rcs}')
        it['rc'] = it['gen'][rcs[0]]
        self.sure(tag, 'code-starts', it['start'].pc, ile(3, it['v0'][rcs[0]]), f'{it["v0"][rcs[0]]}')
        for x, nw in zip(it['back'], it['news']):
            ok = self.matches(x.st, form) and len(self.events(x.st)) == len(form)
            P.holds(self.ob(tag, 'sweeps'), ok, (), f'{[e[1] for e in self.events(x.st)]}')
            if ok:
                self.code(tag + '/iteration', x.st, nw[rcs[0]], form, it['rc'])
        return it, paths

    def changed(self, tag, st, before, nm, rank, cells):
        """an arbitrary entry of nm: want(idx) where cells(idx) gives (condition, value), otherwise unchanged"""
        idx = [ivar('fg'[q]) for q in range(rank)]
        p = Ptr(nm + '*' * (rank - 1), tuple(iscale(i, 8) for i in idx[:-1]), iscale(idx[-1], 8))
        c, v = cells(*idx)
        self.prove(tag, 'entries', list(st.pc), self.load(st, p), rite(c, v, self.load(before, p)) if c is not None else self.load(before, p))

    def hessian(self, t, n, F, second):
        tag, A = 'hessian', lambda nm: Ptr(nm, (), 0)
        form = second(1, lambda *i: R1)
        it, paths = self.looped(tag, 'hessian', [t, n, A('x'), A('H')], F, form, ('x', 'H'))
        k = it['k']
        x0 = it['back'][0].st
        snap, (p, _) = self.events(x0)[0][5].copy(), self.events(x0)[0][4]['xd']
        i = ivar('i')
        for c in x0.pc + (ile(0, i), ilt(i, n)):
            snap.assume(c)
        row = k
        if Prover(seed=1).eq(list(snap.pc), self.load(snap, p.add(iscale(i, 8))), rite(ieq(i, k), R1, R0))[0] != 'proved':
            row = isub(isub(n, 1), k)
        form[0][2]['xd'] = lambda i: rite(ieq(i, row), R1, R0)
        for x in it['back']:
            self.arguments(tag, x.st, form)
            self.sure(tag, 'row', x.st.pc, band(ile(0, row), ilt(row, n)))
            e = self.events(x.st)[-1]
            self.changed(tag, x.st, it['start'], 'H', 2, lambda a, b: (band(ieq(a, row), ile(0, b), ile(b, a)), out(e, 'Z', b, 1)))
            self.changed(tag, x.st, it['start'], 'x', 1, lambda a: (None, None))
        self.finish(tag, it, paths, form, lambda st: ile(n, k))

    def finish(self, tag, it, paths, form, covered):
        done = 0
        for st, v in paths:
            self.locals_(tag, st)
            if self.events(st):
                self.arguments(tag, st, form)
                self.code(tag, st, v, form, it['rc'])
                s = [c for c in st.pc if c is not True]
                self.sure(tag, 'early', st.pc, ilt(v, 0), 'leaves the loop early without a failure')
            else:
                done += 1
                self.prove(tag, 'return-code', [c for c in st.pc if c is not True], v, it['rc'])
                self.sure(tag, 'all-rows', st.pc, covered(st), 'ends before every direction is done')
        self.prover.holds(self.ob(tag, 'completes'), done > 0, (), 'no path completes')
        self.room_obls(tag)

    def large_jacobian(self, t, n, m, F):
        tag, A = 'large_jacobian', lambda nm: Ptr(nm, (), 0)
        r = ivar('runns')
        I = lambda i, j: rite(ieq(i, j), R1, R0)
        form = [('fov_offset_forward', dict(tag=t, m=m, n=n), dict(x=lambda i: self.user('x', i), X=I))]
        it, paths = self.looped(tag, 'large_jacobian', [t, m, n, r, A('x'), A('y'), A('J')], F, form, ('x', 'y', 'J'))
        k = it['k']
        dirs = None
        for x in it['back']:
            e = self.events(x.st)[0]
            d = e[3]['p']
            dirs = d
            runs = self.bound(x.st, k)
            self.products = [(k, d), (isub(isub(runs, 1), iadd(k, 1)), d)] if runs is not None else [(k, d)]
            self.arguments(tag, x.st, form)
            self.sure(tag, 'block', x.st.pc, ieq(e[3]['off'], imul(k, d)), f'block starts at {show(e[3]["off"])}')
            self.sure(tag, 'block-size', x.st.pc, ile(1, d))
            self.changed(tag, x.st, it['start'], 'J', 2, lambda a, b: (band(ile(0, a), ilt(a, m), ile(e[3]['off'], b), ilt(b, iadd(e[3]['off'], d))), out(e, 'Y', a, b)))
            self.changed(tag, x.st, it['start'], 'x', 1, lambda a: (None, None))
        done = 0
        for st, v in paths:
            self.locals_(tag, st)
            ev = self.events(st)
            self.prover.holds(self.ob(tag, 'last-block'), len(ev) == 1, (), f'{[e[1] for e in ev]}')
            if len(ev) != 1:
                continue
            done += 1
            e = ev[0]
            self.arguments(tag, st, form)
            self.code(tag, st, v, form, it['rc'])
            self.products = [(k, dirs)]
            self.sure(tag, 'last-block-start', st.pc, ieq(e[3]['off'], imul(k, dirs)), f'last block starts at {show(e[3]["off"])}, the others end at {show(imul(k, dirs))}')
            self.sure(tag, 'last-block-end', st.pc, ieq(iadd(e[3]['off'], e[3]['p']), n), 'the last block does not end with the last column')
            self.sure(tag, 'last-block-size', st.pc, ile(1, e[3]['p']), f'{show(e[3]["p"])} columns')
            s = st.copy()
            self.changed(tag, st, e[5], 'J', 2, lambda a, b: (band(ile(0, a), ilt(a, m), ile(e[3]['off'], b), ilt(b, iadd(e[3]['off'], e[3]['p']))), out(e, 'Y', a, b)))
            self.result(tag, st, 'y', [m], lambda j: out(e, 'y', j))
        self.prover.holds(self.ob(tag, 'completes'), done > 0, (), 'no path completes')
        self.room_obls(tag)

    def bound(self, st, k):
        """the upper bound of k in the path condition: k < bound"""
        return None


class AbsNormal(Drivers):
    def check_all(self):
        n, m, t, s = ivar('n'), ivar('m'), ivar('tag'), ivar('s')
        big = 1 << 28
        F = [ile(1, n), ile(1, m), ile(0, s), ile(n, big), ile(m, big), ile(s, big)]
        self.products = []
        self.ex.contracts['get_num_switches'] = lambda ex, st, a, ins: [(st, s)]
        A = lambda nm: Ptr(nm, (), 0)
        u = self.user
        one = lambda off: (lambda i, j: rite(ieq(i, iadd(j, off)), R1, R0))
        form = [('zos_pl_forward', dict(tag=t, m=m, n=n, keep=lambda k: ile(1, k)), dict(x=lambda i: u('x', i))),
                ('fov_pl_reverse', dict(tag=t, m=m, n=n, s=s, q=iadd(m, s)), dict(U=one(0), US=one(m)))]
        def res(ev, i):
            e = ev[-1]
            return [('Y', [m, n], lambda a, b: out(e, 'R', a, b), False), ('J', [m, s], lambda a, b: out(e, 'RS', a, b), False),
                    ('Z', [s, n], lambda a, b: out(e, 'R', iadd(a, m), b), False), ('L', [s, s], lambda a, b: out(e, 'RS', iadd(a, m), b), False),
                    ('y', [m], lambda a: out(ev[0], 'y', a), False), ('z', [s], lambda a: out(ev[0], 'z', a), False)]
        self.guard('abs_normal', self.driver, 'abs_normal', 'abs_normal', [t, m, n, s, A('x'), A('y'), A('z'), A('Y'), A('J'), A('Z'), A('L')], F, [form],
                   {'y': ([m], False), 'z': ([s], False), 'Y': ([m, n], False), 'J': ([m, s], False), 'Z': ([s, n], False), 'L': ([s, s], False)}, res,
                   ('x', 'y', 'z', 'Y', 'J', 'Z', 'L'))
        return self.prover.obls

    def code(self, tag, st, v, form, start=None):
        """abs_normal returns 0 after both sweeps"""
        self.prove(tag, 'return-code', [c for c in st.pc if c is not True], v, 0)
        self.prover.holds(self.ob(tag, 'all-sweeps'), len(self.events(st)) == len(form), (), '')
        return len(self.events(st)) == len(form)
