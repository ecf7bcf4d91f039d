"""Contracts of plain functions: symbolic execution of the real body for
arbitrary arguments, callees replaced by their contracts."""
from execu import *
from interp import INTERP_CONTRACTS
from prover import Prover, Obl
import build

DOUBLE, PTR, I32, I64 = Ty('double'), Ty('ptr'), Ty('int', 32), Ty('int', 64)


class Fun:
    def __init__(self, sources, name, contracts=None, seed=1):
        self.mods = [build.compile_ll(s) for s in sources]
        self.name = self.fname = name
        self.contracts = contracts or {}
        self.prover = Prover(seed=seed)
        self.inlined = set()
        self.trusted = set()
        self.paths = 0
        self.summaries = 0
        self.new()

    def new(self):
        self.ex = Executor(self.mods, dict(self.contracts))
        self.ex.maxu = 40
        return self.ex

    def find(self, fname):
        fs = [f for n, f in self.ex.fn_index.items() if self.ex.short.get(n) == fname]
        if not fs:
            raise Unsupported(f'function not found: {fname}')
        return fs[0]

    def call(self, tag, fname, args, facts=(), setup=None, fn=None):
        """all paths through the function; also the obligations every body has"""
        ex, P = self.ex, self.prover
        ex.fails, ex.unmodelled, ex.bounded = [], {}, []
        st = State()
        for f in facts:
            st.assume(f)
        if setup:
            setup(st)
        paths = ex.call_function(st, fn or self.find(fname), list(args))
        self.paths += len(paths)
        P.holds(self.ob(tag, 'loops'), not ex.bounded, (), f'{ex.bounded[:3]}')
        P.holds(self.ob(tag, 'calls'), not ex.unmodelled, (), f'{sorted(ex.unmodelled)[:6]}')
        P.holds(self.ob(tag, 'progress'), bool(paths), (), 'no path returns')
        for pc, what in ex.fails:
            if ex.solver.check(list(pc)) != 'unsat':
                P.holds(self.ob(tag, 'no-failure'), False, (), f'{what} when {[show(c) for c in pc][:6]}')
        self.inlined |= {ex.short.get(n, n) for n in ex.inlined} | {fname}
        self.trusted |= set(ex.trusted)
        self.summaries += len(ex.summaries)
        return paths

    def ob(self, tag, what):
        return f'{self.name}:{tag}:{what}'

    def prove(self, tag, what, pc, got, want):
        return self.prover.prove(self.ob(tag, what), list(pc), got, want)

    def valid(self, tag, what, pc, cond, detail=''):
        """cond follows from pc"""
        if cond is True:
            return self.prover.holds(self.ob(tag, what), True, (), '')
        ok = cond is not False and self.ex.solver.check([c for c in pc if c is not True] + [bnot(cond)]) == 'unsat'
        return self.prover.holds(self.ob(tag, what), ok, (), detail or show(cond) if isinstance(cond, E) else detail or str(cond))

    def load(self, st, p, ty=DOUBLE):
        a, prev, alts = [], [], self.ex.read(st, p, ty)
        for c, v in alts:
            if len(alts) == 1 or self.ex.solver.check([x for x in list(st.pc) + prev + [c] if x is not True]) != 'unsat':
                a.append((c, v))
            prev.append(bnot(c))
        if len(a) > 1 and all(isinstance(v, Ptr) and (v.obj, v.rows) == (a[0][1].obj, a[0][1].rows) for _, v in a):
            off = a[-1][1].off
            for c, v in reversed(a[:-1]):
                off = iite(c, v.off, off)
            return Ptr(a[0][1].obj, a[0][1].rows, off)
        if len(a) != 1:
            raise Unsupported(f'ambiguous load in contract {a}'[:300])
        return a[0][1]

    def guard(self, tag, f, *a):
        try:
            f(*a)
        except (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, AssertionError) as e:
            self.prover.obls.append(Obl(self.ob(tag, 'verifier'), 'unknown', '-', 0, f'not within reach of the verifier: {type(e).__name__} {e}'))

    def info(self, bound=None):
        return dict(bound=bound, functions=sorted(self.inlined), contracts=sorted(self.trusted), paths=self.paths, summaries=self.summaries)
