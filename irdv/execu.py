"""Symbolic executor / verification-condition generator over LLVM IR.

Machine integers are mathematical integers, doubles are reals.  Calls are
replaced by registered contracts; functions without contract are inlined from
the IR of /repo.  Loops with a concrete trip count are unrolled, loops with a
symbolic trip count are summarised exactly (affine induction variables,
independent iterations, sums); what cannot be summarised is unrolled up to a
bound and reported as bounded."""
import os, re, subprocess, time
from fractions import Fraction
from expr import *
import z3
from llparse import ParseError, Ty

ASSUMED = ParseError


class Unsupported(Exception):
    pass


class PathLimit(Unsupported):
    pass


class Ptr:
    __slots__ = ('obj', 'rows', 'off')

    def __init__(self, obj, rows, off):
        self.obj = obj
        self.rows = rows
        self.off = off

    def __repr__(self):
        return f'&{self.obj}{list(self.rows)}+{self.off}'

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.rows == o.rows and (
            self.off is o.off or (isinstance(self.off, int) and self.off == o.off))

    def __hash__(self):
        return hash(self.obj)

    def add(self, d):
        return Ptr(self.obj, self.rows, iadd(self.off, d))


NULL = Ptr('null', (), 0)


class IntPtr:
    """integer obtained from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg(tuple):
    pass


# ---------------------------------------------------------------- memory log
class W:
    __slots__ = ('guard', 'vars', 'rows', 'off', 'val', 'size')

    def __init__(self, guard, vars, rows, off, val, size):
        self.guard = guard
        self.vars = vars      # tuple of (atom, lo, hi)
        self.rows = rows
        self.off = off
        self.val = val
        self.size = size

    def __repr__(self):
        return f'W[{self.rows},{self.off}]={self.val} if {self.guard} for {self.vars}'


class Fill:
    """[off, off+n) bytes take value zero, or are copied from a snapshot"""
    __slots__ = ('guard', 'rows', 'off', 'n', 'src', 'srcmem')

    def __init__(self, guard, rows, off, n, src=None, srcmem=None):
        self.guard = guard
        self.rows = rows
        self.off = off
        self.n = n
        self.src = src
        self.srcmem = srcmem

    def __repr__(self):
        return f'Fill[{self.rows},{self.off}..+{self.n}] from {self.src}'


class Havoc:
    """every cell of the object gets an unknown value (named)"""
    __slots__ = ('name', 'guard')

    def __init__(self, name):
        self.name = name
        self.guard = True


def vsubst(v, m, memo=None):
    if isinstance(v, E):
        return subst(v, m, memo)
    if isinstance(v, Ptr):
        return Ptr(v.obj, tuple(subst(r, m, memo) for r in v.rows), subst(v.off, m, memo))
    if isinstance(v, Agg):
        return Agg(vsubst(x, m, memo) for x in v)
    return v


class State:
    __slots__ = ('mem', 'pc', 'ev', 'ctr')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.ev = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ev = self.ev
        return s

    def assume(self, c):
        if c is True or c in self.pc:
            return self
        if c is False:
            self.pc = self.pc + (mk('eq0', (ivar('!false'),), 'B'), mk('not', (mk('eq0', (ivar('!false'),), 'B'),), 'B'))
            return self
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
        else:
            self.pc = self.pc + (c,)
        return self


class Item:
    __slots__ = ('st', 'env', 'block', 'idx', 'pred')

    def __init__(self, st, env, block, idx, pred):
        self.st = st
        self.env = env
        self.block = block
        self.idx = idx
        self.pred = pred


class Stop:
    __slots__ = ('st', 'env', 'target', 'pred')

    def __init__(self, st, env, target, pred):
        self.st = st
        self.env = env
        self.target = target
        self.pred = pred


# ---------------------------------------------------------------- solver
def witnesses(conds):
    """consequences of quantified facts: an index that an existential fact
    speaks of (named after the fact), and what the negated ones say about it"""
    pos = [c for c in conds if isinstance(c, E) and c.op == 'bex' and not freebound(c)]
    if not pos:
        return []
    neg = [c.args[0] for c in conds if isinstance(c, E) and c.op == 'not' and c.args[0].op == 'bex' and not freebound(c)]
    out = []
    for c in pos[:6]:
        w = ivar(f'w#{c.id}')
        n = c.args[1]
        out += [ile(0, w), ilt(w, n), subst(c.args[2], {the_atom(c.args[0]): w})]
        for q in neg[:12]:
            if q.args[1] is n or ieq(q.args[1], n) is True:
                out.append(bnot(subst(q.args[2], {the_atom(q.args[0]): w})))
    return [c for c in out if c is not True]


RLIMIT_MS = int(os.environ.get('RLMS', '40000'))


class Solver:
    def __init__(self, timeout=400):
        self.timeout = timeout
        self.cache = {}
        self.tried = {}
        self.queries = 0
        self.time = 0.0
        self.base = []   # always-true facts (E)

    def check(self, conds, timeout=None):
        """'sat' / 'unsat' / 'unknown'"""
        key = frozenset(c.id for c in conds if isinstance(c, E))
        for c in conds:
            if c is False:
                return 'unsat'
        r = self.cache.get(key)
        if r is None or r == 'unknown' and (timeout or self.timeout) > self.tried[key]:
            self.tried[key] = timeout or self.timeout
            t0 = time.time()
            s = z3.Solver()
            s.set('rlimit', RLIMIT_MS * (timeout or self.timeout))   # deterministic, unlike a time limit
            s.set('timeout', 20000)
            for c in self.base:
                s.add(toz3(c))
            for c in conds:
                if c is not True:
                    s.add(toz3(c))
            for c in witnesses(conds):
                s.add(toz3(c))
            r = str(s.check())
            self.queries += 1
            self.time += time.time() - t0
            self.cache[key] = r
        return r

    def model(self, conds, timeout=2000):
        s = z3.Solver()
        s.set('rlimit', RLIMIT_MS * timeout)
        s.set('timeout', 20000)
        for c in self.base:
            s.add(toz3(c))
        for c in conds:
            if c is not True:
                s.add(toz3(c))
        t0 = time.time()
        r = s.check()
        self.queries += 1
        self.time += time.time() - t0
        return s.model() if r == z3.sat else None


_intonly = {}


def intonly(e):
    r = _intonly.get(e.id)
    if r is None:
        r = True
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.sort == 'R':
                r = False
                break
            st.extend(children(x))
        _intonly[e.id] = r
    return r


def conj_relevant(pc):
    return [c for c in pc if intonly(c)]


# ---------------------------------------------------------------- CFG
class Loop:
    __slots__ = ('header', 'body', 'exits', 'latches')


def analyse_cfg(fn):
    if getattr(fn, '_cfg', None):
        return fn._cfg
    fn.parse()
    succ = {}
    for b, blk in fn.blocks.items():
        t = blk.term
        if t is None:
            succ[b] = []
        elif t.op == 'br':
            succ[b] = [t.a]
        elif t.op == 'condbr':
            succ[b] = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            succ[b] = [t.a[1]] + [x for _, x in t.a[2]]
        elif t.op == 'invoke':
            succ[b] = [t.a[2]]          # unwind edges are not followed
        else:
            succ[b] = []
    # reverse postorder
    order = []
    seen = set()
    st = [(fn.entry, iter(succ[fn.entry]))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            if b not in pred[s]:
                pred[s].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == fn.entry:
                return False
            b = idom[b]
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                L = loops.get(s)
                if L is None:
                    L = loops[s] = Loop()
                    L.header = s
                    L.body = {s}
                    L.latches = set()
                L.latches.add(b)
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in L.body:
                        L.body.add(x)
                        stack.extend(pred[x])
    for L in loops.values():
        L.exits = {b for b in L.body if any(s not in L.body for s in succ[b])}
    fn._cfg = (succ, pred, loops, num)
    return fn._cfg


# ---------------------------------------------------------------- names
_dem = {}


def demangle_all(names):
    todo = [n for n in names if n not in _dem]
    if todo:
        p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in todo), capture_output=True,
                           text=True)
        for n, d in zip(todo, p.stdout.split('\n')):
            _dem[n] = d


def basename(d):
    """strip parameter list and return type from a demangled name"""
    s = d.replace('(anonymous namespace)', '{anon}')
    # cut at first '(' at template depth 0 (but not 'operator()')
    depth = 0
    i = 0
    out = None
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator\s*(\(\)|<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|[^\s(<]+|(new|delete)(\[\])?)', s[i:])
            if m:
                i += m.end()
                continue
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif c == '(' and depth == 0:
            out = s[:i]
            break
        i += 1
    if out is None:
        out = s
    # strip return type: last space at template depth 0 (not inside operator names)
    depth = 0
    cut = 0
    m = re.search(r'(^|[^A-Za-z0-9_])operator', out)
    end = m.start() if m else len(out)
    for j in range(end):
        c = out[j]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = j + 1
    return out[cut:]


def strip_templates(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i):
            m = re.match(r'operator\s*(\(\)|<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)', s[i:])
            if m and d == 0:
                out.append(m.group())
                i += m.end()
                continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


SIZE_T_MOD = 1 << 64


def uppers(pc, f):
    """terms b with f < b among the conditions f - b + 1 <= 0"""
    out = []
    for c in pc:
        if isinstance(c, E) and c.op == 'le0':
            d = c.args[0]
            if isinstance(d, E) and d.op == 'lin' and (f, 1) in d.args[1]:
                out.append(iadd(isub(mk('lin', (0, ((f, 1),)), 'I'), d), 1))
    return out


class Executor:
    def __init__(self, modules, contracts=None, maxu=80):
        self.modules = modules
        self.contracts = dict(contracts or {})
        self.solver = Solver()
        self.maxu = maxu
        self.trackers = []
        self.fails = []        # (pc, what)
        self.bounded = []      # loops that were only unrolled
        self.unmodelled = {}   # external calls without contract
        self.inlined = {}
        self.trusted = {}
        self.fn_index = {}
        self.initfn = {}       # object -> initial-content function(coords, ty) -> value
        self.nonnull = lambda p: True
        self.nalloc = 0
        self.dims = {}      # array object -> its dimensions
        self.allocs = {}
        self.depth = 0
        self.bound = 4
        self.maxpaths = 4000
        self.paths = 0
        self.summaries = {}    # loop -> info
        self.fn_summary = {}
        self.loop_hooks = {}
        self.deadline = None
        for m in modules:
            for n in m.functions:
                self.fn_index.setdefault(n, m.functions[n])
        for m in modules:
            for n, to in m.aliases.items():
                if to in m.functions:
                    self.fn_index.setdefault(n, m.functions[to])
        names = set()
        for m in modules:
            names.update(m.functions)
            names.update(m.decls)
        demangle_all(names)
        self.short = {}
        for n in names:
            self.short[n] = strip_templates(basename(_dem[n]))

    # ------------------------------------------------------------ solver helpers
    def decide(self, st, c):
        """True/False if (syntactically or by the solver, integers only) settled"""
        if isinstance(c, bool):
            return c
        if c in st.pc:
            return True
        n = bnot(c)
        if n in st.pc:
            return False
        if intonly(c):
            rel = conj_relevant(st.pc)
            if self.solver.check(rel + [n]) == 'unsat':
                return True
            if self.solver.check(rel + [c]) == 'unsat':
                return False
        return None

    def feasible(self, st, c=True):
        if c is False:
            return False
        if c is True:
            return True
        return self.solver.check(list(st.pc) + [c]) != 'unsat'

    def entails(self, st, c):
        if c is True or c in st.pc:
            return True
        if c is False:
            return self.solver.check(list(st.pc)) == 'unsat'
        return self.solver.check(list(st.pc) + [bnot(c)]) == 'unsat'

    # ------------------------------------------------------------ memory
    def getobj(self, st, name):
        o = st.mem.get(name)
        if o is None:
            o = ({}, None)
            st.mem[name] = o
        return o

    def write(self, st, p, val, size, guard=True):
        if p.obj == 'null':
            self.fails.append((st.pc, 'store through null pointer'))
            return
        if p.obj.startswith('stale:'):
            self.fails.append((st.pc, 'store through a stale pointer'))
            return
        base, log = self.getobj(st, p.obj)
        conc = isinstance(p.off, int) and all(isinstance(r, int) for r in p.rows)
        if log is None and conc and not self.trackers and guard is True:
            base = dict(base)
            base[(p.rows, p.off)] = (val, size)
            st.mem[p.obj] = (base, None)
        else:
            st.mem[p.obj] = (base, (W(guard, (), p.rows, p.off, val, size), log))

    def fill(self, st, p, n, src=None):
        base, log = self.getobj(st, p.obj)
        srcmem = dict(st.mem) if src is not None else None
        st.mem[p.obj] = (base, (Fill(True, p.rows, p.off, n, src, srcmem), log))

    def havoc_obj(self, st, name):
        base, log = self.getobj(st, name)
        st.mem[name] = ({}, (Havoc(fresh('hv')), None))

    def initial(self, name, rows, off, ty, hv=None):
        f = self.initfn.get(name)
        if f is not None and hv is None:
            v = f(rows, off, ty)
            if v is not None:
                return v
        nm = name if hv is None else hv + ':' + name
        if ty.k == 'double' or ty.k == 'float':
            return rcell(nm, *rows, off)
        if ty.k == 'ptr':
            return Ptr(nm + '*', rows + (off,), 0)
        if ty.k == 'int':
            return icell(nm, *rows, off)
        if ty.k in ('struct', 'array', 'pstruct', 'named'):
            return self.load_agg(None, name, rows, off, ty, hv)
        raise Unsupported(f'initial value of type {ty}')

    def solve_radix(self, pend, eqs, m, st):
        """address = S*v + rest with a symbolic stride S: v is determined if the
        rest stays within one stride; returns (variable, value) or None"""
        pc = list(st.pc) if st is not None else []
        for v in pend:
            at = v[0]
            bounds = []
            for w in pend:
                x = mk('lin', (0, ((w[0], 1),)), 'I')
                bounds += [ile(subst(w[1], m), x), ilt(x, subst(w[2], m))]
            for l, rr in eqs:
                l2 = subst(l, m) if m else l
                if not isinstance(l2, E) or not contains(l2, at):
                    continue
                c0, items = l2.args
                S, ok = 0, True
                for a, q in items:
                    if a is at:
                        S = iadd(S, q)
                    elif a.op == 'imul' and sum(f is at for f in a.args) == 1:
                        fs = [f for f in a.args if f is not at]
                        x = q
                        for f in fs:
                            x = imul(x, mk('lin', (0, ((f, 1),)), 'I'))
                        S = iadd(S, x)
                    elif contains(a, at):
                        ok = False
                if not ok or not isinstance(S, E) or any(contains(S, w[0]) for w in pend):
                    continue
                d0 = isub(rr, subst(l2, {at: 0}))
                s0, sit = S.args
                k = 0
                lead, q = max(sit, key=lambda t: (len(t[0].args) if t[0].op == 'imul' else 1, t[0].id))
                lf = list(lead.args) if lead.op == 'imul' else [lead]
                for a, cc in lin_parts(d0)[1]:
                    fs = list(a.args) if a.op == 'imul' else [a]
                    rest = list(fs)
                    try:
                        for f in lf:
                            rest.remove(f)
                    except ValueError:
                        continue
                    if cc % q:
                        continue
                    x = cc // q
                    for f in rest:
                        x = imul(x, mk('lin', (0, ((f, 1),)), 'I'))
                    if isinstance(x, E) and any(contains(x, w[0]) for w in pend):
                        continue
                    k = iadd(k, x)
                rel = isub(d0, imul(k, S) if not isinstance(k, int) else iscale(S, k))
                if self.solver.check(pc + bounds + [bnot(band(ilt(ineg(S), rel), ilt(rel, S), ile(1, S)))]) == 'unsat':
                    return v, k
        return None

    def apart(self, e, eqs, st):
        """the summarised write never has the address, by the ranges of its variables;
        lemma instances: a product of non-negative factors is not negative"""
        pc = [c for c in (st.pc if st is not None else ()) if c is not True]
        iv = lambda a: mk('lin', (0, ((a, 1),)), 'I')
        lem = []

        def nonneg(fs):
            return all(self.solver.check(pc + [ilt(iv(f), 0)]) == 'unsat' for f in fs)
        for v, a, b in e.vars:
            x = iv(v)
            pc += [ile(a, x), ilt(x, b)]
        pc = [c for c in pc if c is not True]
        for l, r in eqs:
            prods = [q for t in (l, r) if isinstance(t, E) for q, _ in lin_parts(t)[1] if q.op == 'imul']
            for q in prods:
                if not nonneg(q.args):
                    continue
                lem.append(ile(0, iv(q)))
                for f in q.args:
                    rest = list(q.args)
                    rest.remove(f)
                    x = 1
                    for g in rest:
                        x = imul(x, iv(g))
                    for b in uppers(pc, f):
                        lem.append(ile(0, imul(isub(isub(b, 1), iv(f)), x)))
        return self.solver.check(pc + [c for c in lem if c is not True] + [ieq(l, r) for l, r in eqs if ieq(l, r) is not True]) == 'unsat'

    def decided(self, e, st):
        """e without the case distinctions in its address that are decided
        whenever the ranges of its variables are not empty"""
        pc = list(st.pc) if st is not None else []
        for v, a, b in e.vars:
            x = mk('lin', (0, ((v, 1),)), 'I')
            pc += [ile(a, x), ilt(x, b)]
        pc = [c for c in pc if c is not True]
        m = {}

        def go(x):
            if isinstance(x, E):
                if x.op == 'iite':
                    for c, r in ((x.args[0], x.args[1]), (bnot(x.args[0]), x.args[2])):
                        if self.solver.check(pc + [bnot(c)]) == 'unsat':
                            m[x] = r
                            return
                for a in x.args:
                    go(a)
            elif isinstance(x, tuple):
                for a in x:
                    go(a)
        for x in tuple(e.rows) + (e.off,):
            go(x)
        if not m:
            return None
        return W(e.guard, e.vars, tuple(subst(x, m) for x in e.rows), subst(e.off, m), e.val, e.size)

    def solve_entry(self, e, rows, off, st=None):
        """substitution for the bound variables of e so that its address is
        (rows, off); returns (cond, m) or (False, None)"""
        eqs = list(zip(e.rows, rows)) + [(e.off, off)]
        m = {}
        cond = []
        pend = list(e.vars)
        progress = True
        while pend and progress:
            progress = False
            for v in list(pend):
                at = v[0]
                for k, (l, r) in enumerate(eqs):
                    l2 = subst(l, m) if m else l
                    if not isinstance(l2, E):
                        continue
                    c, items = l2.args
                    co = 0
                    rest_ok = True
                    others = {w[0] for w in pend if w is not v}
                    for a, q in items:
                        if a is at:
                            co = q
                        elif contains(a, at) or any(contains(a, o) for o in others):
                            rest_ok = False
                    if co == 0 or not rest_ok:
                        continue
                    rest = isub(l2, iscale(mk('lin', (0, ((at, 1),)), 'I'), co))
                    d = isub(r, rest)
                    if co < 0:
                        d, co = ineg(d), -co
                    if co == 1:
                        q = d
                    else:
                        q = exact_div(d, co)
                        if q is None:
                            cc, its = lin_parts(d)
                            if all(x % co == 0 for _, x in its):
                                return False, None
                            cond.append(ieq(imod(d, co), 0))
                            q = idiv(d, co)
                    m[at] = q
                    pend.remove(v)
                    cond.append(ile(subst(v[1], m), q))
                    cond.append(ilt(q, subst(v[2], m)))
                    progress = True
                    break
            if pend and not progress:
                s = self.solve_radix(pend, eqs, m, st)
                if s is not None:
                    v, q = s
                    m[v[0]] = q
                    pend.remove(v)
                    cond.append(ile(subst(v[1], m), q))
                    cond.append(ilt(q, subst(v[2], m)))
                    progress = True
        if pend:
            e2 = self.decided(e, st)
            if e2 is not None:
                return self.solve_entry(e2, rows, off, st)
            if self.apart(e, eqs, st):
                return False, None
            raise Unsupported('cannot invert a summarised write')
        memo = {}
        for l, r in eqs:
            cond.append(ieq(subst(l, m, memo) if m else l, r))
            if cond[-1] is False:
                return False, None
        g = subst(e.guard, m, memo) if isinstance(e.guard, E) else e.guard
        cond.append(g)
        return band(*cond), m

    def read(self, st, p, ty):
        """list of (cond, value) alternatives: scalars always give exactly one"""
        alts = self.read_alts(st.mem, st, p, ty)
        if len(alts) == 1:
            return alts
        if ty.k == 'ptr' or any(isinstance(v, (Ptr, IntPtr, Undef)) for _, v in alts):
            vals = {repr(v) for _, v in alts}
            if len(vals) == 1:
                return [(True, alts[0][1])]
            return alts
        v = alts[-1][1]
        for c, w in reversed(alts[:-1]):
            v = self.vite(c, w, v)
        return [(True, v)]

    def vite(self, c, a, b):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (bool,)) or (isinstance(a, E) and a.sort == 'B') or isinstance(b, bool) or (
                isinstance(b, E) and b.sort == 'B'):
            if isinstance(a, int) and not isinstance(a, bool) or isinstance(b, int) and not isinstance(b, bool):
                return iite(c, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
            return bite(c, a, b)
        if isinstance(a, int) or isinstance(b, int) or (isinstance(a, E) and a.sort == 'I'):
            return iite(c, a, b)
        if isinstance(a, E) and a.sort == 'R' and isinstance(b, E):
            return rite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.rows) == len(b.rows):
            return Ptr(a.obj, tuple(self.vite(c, x, y) for x, y in zip(a.rows, b.rows)), self.vite(c, a.off, b.off))
        if isinstance(a, Agg) and isinstance(b, Agg):
            return Agg(self.vite(c, x, y) for x, y in zip(a, b))
        raise Unsupported(f'cannot merge values {a!r} / {b!r}')

    def coerce(self, v, ty):
        """adapt a stored value to the type it is read with"""
        if ty.k in ('double', 'float'):
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0:
                    return R0
                if v < 0:
                    v += 1 << 64
                import struct
                d = struct.unpack('>d', struct.pack('>Q', v))[0]
                return NAN if d != d else rc(Fraction(d)) if abs(d) != float('inf') else (INF if d > 0 else rneg(INF))
            if isinstance(v, E) and v.sort == 'I':
                return rfn('bitsdouble', v)
        elif ty.k == 'int':
            if isinstance(v, E) and v.sort == 'R':
                if v is R0:
                    return 0
                return ifn('bits', v)
            if isinstance(v, Ptr):
                return 0 if v == NULL else IntPtr(v)
        elif ty.k == 'ptr':
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, IntPtr):
                return v.p
        return v

    def decide_mem(self, st, c):
        if isinstance(c, bool) or st is None:
            return c if isinstance(c, bool) else None
        if c.op == 'and':
            und = False
            for x in c.args:
                d = self.decide(st, x)
                if d is False:
                    return False
                if d is None:
                    und = True
            return None if und else True
        return self.decide(st, c)

    def read_alts(self, mem, st, p, ty):
        if p.obj == 'null':
            if st is not None:
                self.fails.append((st.pc, 'load through null pointer'))
            return [(True, UNDEF)]
        o = mem.get(p.obj)
        rows, off = p.rows, p.off
        out = []
        if o is None:
            base, log = {}, None
        else:
            base, log = o
        node = log
        track = [t for t in self.trackers if t.mem is not None]
        while node is not None:
            for t in track:
                if t.base(self, p.obj) is node:
                    t.reads.append((p.obj, rows, off, ty, st.pc if st is not None else ()))
            e, node = node
            if isinstance(e, Havoc):
                out.append((True, self.initial(p.obj, rows, off, ty, e.name)))
                return out
            if isinstance(e, W):
                c, m = self.solve_entry(e, rows, off, st)
                if c is False:
                    continue
                d = self.decide_mem(st, c)
                if d is False:
                    continue
                v = e.val
                if m:
                    v = vsubst(v, m)
                v = self.coerce(v, ty)
                if d is True:
                    out.append((True, v))
                    return out
                out.append((c, v))
            else:
                cs = [e.guard] + [ieq(a, b) for a, b in zip(e.rows, rows)]
                cs += [ile(e.off, off), ilt(off, iadd(e.off, e.n))]
                c = band(*cs)
                if c is False:
                    continue
                d = self.decide_mem(st, c)
                if d is False:
                    continue
                if e.src is None:
                    v = self.coerce(0, ty)
                else:
                    q = e.src.add(isub(off, e.off))
                    al = self.read_alts(e.srcmem, st, q, ty)
                    if len(al) == 1:
                        v = al[0][1]
                    elif ty.k == 'ptr':
                        raise Unsupported('copied pointer alternatives')
                    else:
                        v = al[-1][1]
                        for cc, w in reversed(al[:-1]):
                            v = self.vite(cc, w, v)
                if d is True:
                    out.append((True, v))
                    return out
                out.append((c, v))
        for t in track:
            if t.base(self, p.obj) is None:
                t.reads.append((p.obj, rows, off, ty, st.pc if st is not None else ()))
        conc = isinstance(off, int) and all(isinstance(r, int) for r in rows)
        if conc:
            b = base.get((rows, off))
            if b is not None:
                out.append((True, self.coerce(b[0], ty)))
                return out
        else:
            for (br, bo), (bv, bs) in base.items():
                c = band(*([ieq(x, y) for x, y in zip(br, rows)] + [ieq(bo, off)]))
                if c is False:
                    continue
                d = self.decide_mem(st, c)
                if d is False:
                    continue
                v = self.coerce(bv, ty)
                if d is True:
                    out.append((True, v))
                    return out
                out.append((c, v))
        out.append((True, self.initial(p.obj, rows, off, ty)))
        return out

    def alloc(self, st, hint='h', init=None):
        self.nalloc += 1
        nm = f'{hint}.{self.nalloc}'
        self.allocs[nm] = self.nalloc
        rows = tuple(t.ivar for t in self.trackers if t.ivar is not None)
        st.mem[nm] = ({}, None)
        if init == 'zero':
            self.initfn[nm] = lambda rows, off, ty: self.zero(ty)
        return Ptr(nm, rows, 0)

    def zero(self, ty):
        if ty.k in ('double', 'float'):
            return R0
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'int':
            return 0
        return None

    def load1(self, st, p, ty):
        """single-valued load (used by contracts)"""
        a = self.read(st, p, ty)
        if len(a) != 1:
            raise Unsupported('ambiguous load in contract')
        return a[0][1]

    # ------------------------------------------------------------ operands
    def operand(self, fn, env, t, v):
        k = v[0]
        if k == 'local':
            return env[v[1]]
        if k == 'int':
            if t.k == 'int' and t.a == 1:
                return bool(v[1])
            return v[1]
        if k == 'fp':
            return rc(v[1])
        if k == 'fpnan':
            return NAN
        if k == 'fpinf':
            return INF if v[1] > 0 else rneg(INF)
        if k == 'null':
            return NULL
        if k == 'global':
            nm = v[1]
            m = fn.module
            if nm in m.aliases:
                nm = m.aliases[nm]
            if nm in self.fn_index or nm in m.decls:
                return Ptr('fn:' + nm, (), 0)
            return self.globptr(fn.module, nm)
        if k == 'undef':
            rt = fn.module.resolve(t)
            if rt.k in ('struct', 'array', 'pstruct'):
                n = len(rt.a) if rt.k != 'array' else rt.a[0]
                return Agg([UNDEF] * n)
            return UNDEF
        if k == 'zero':
            rt = fn.module.resolve(t)
            if rt.k in ('struct', 'pstruct'):
                return Agg(self.operand(fn, env, x, ('zero',)) for x in rt.a)
            if rt.k == 'array':
                return Agg(self.operand(fn, env, rt.a[1], ('zero',)) for _ in range(rt.a[0]))
            return self.zero(rt)
        if k == 'cgep':
            base = self.operand(fn, env, v[2][0][0], v[2][0][1])
            return self.gep(fn, env, v[1], base, v[2][1:])
        if k == 'ccast':
            x = self.operand(fn, env, v[2], v[3])
            if v[1] == 'ptrtoint':
                return IntPtr(x)
            return x
        if k == 'agg':
            return Agg(self.operand(fn, env, tt, vv) for tt, vv in v[1])
        raise Unsupported('operand ' + repr(v)[:80])

    def globptr(self, module, nm):
        # internal globals are per module
        txt = module.globals.get(nm, '')
        if re.match(r'(private|internal)', txt):
            name = f'g:{module.name}:{nm}'
        else:
            name = f'g:{nm}'
        if name not in self.initfn:
            gi = module.global_init(nm) if nm in module.globals else None
            if gi is None or gi[1] is None:
                for m in self.modules:
                    if nm in m.globals:
                        g2 = m.global_init(nm)
                        if g2 and g2[1] is not None and not re.match(r'(private|internal)', m.globals[nm]):
                            gi = g2
                            module = m
                            break
            if gi is not None and gi[1] is not None and gi[2]:
                ty, val, const = gi

                def f(rows, off, t, ty=ty, val=val, module=module):
                    if not isinstance(off, int):
                        # symbolic index into a constant table
                        return self.const_table(module, ty, val, off, t)
                    return self.const_at(module, ty, val, off, t)
                self.initfn[name] = f
            else:
                self.initfn[name] = lambda rows, off, ty: None
        return Ptr(name, (), 0)

    def const_table(self, module, ty, val, off, t):
        ty = module.resolve(ty)
        if ty.k == 'struct' and len(ty.a) == 1 and val[0] == 'agg':
            return self.const_table(module, val[1][0][0], val[1][0][1], off, t)
        if ty.k != 'array' or val[0] != 'agg':
            return None
        es = module.size(ty.a[1])
        r = None
        for i, (et, ev) in reversed(list(enumerate(val[1]))):
            v = self.const_at(module, et, ev, 0, t)
            if v is None or isinstance(v, Ptr):
                return None
            r = v if r is None else self.vite(ieq(off, i * es), v, r)
        return r

    def const_at(self, module, ty, val, off, t):
        ty = module.resolve(ty)
        if val[0] == 'zero':
            return self.zero(t)
        if ty.k in ('struct', 'pstruct'):
            if val[0] != 'agg':
                return None
            for i in range(len(ty.a)):
                o, ft = module.field_off(ty, i)
                if o <= off < o + module.size(ft):
                    return self.const_at(module, ft, val[1][i][1], off - o, t)
            return None
        if ty.k == 'array':
            es = module.size(ty.a[1])
            i = off // es
            if val[0] == 'agg':
                if not (0 <= i < len(val[1])):
                    return None
                return self.const_at(module, ty.a[1], val[1][i][1], off - i * es, t)
            if val[0] == 'str':
                return ord('?') if False else ifn('strchar', off)
            return None
        if off != 0:
            return None

        class _F:
            pass
        f = _F()
        f.module = module
        return self.operand(f, {}, ty, val)

    def gep(self, fn, env, bt, base, idx):
        if base is UNDEF:
            raise Unsupported('gep on undef')
        if isinstance(base, IntPtr):
            base = base.p
        m = fn.module
        ty = bt
        off = base.off
        for k, (t, v) in enumerate(idx):
            x = self.operand(fn, env, t, v)
            if isinstance(x, Undef):
                raise Unsupported('gep index undef')
            if k == 0:
                off = iadd(off, iscale(x, m.size(ty)))
            else:
                rt = m.resolve(ty)
                if rt.k in ('struct', 'pstruct'):
                    o, ft = m.field_off(rt, x)
                    off = iadd(off, o)
                    ty = ft
                else:
                    off = iadd(off, iscale(x, m.size(rt.a[1])))
                    ty = rt.a[1]
        if base.obj == 'null':
            return base if isinstance(off, int) and off == 0 else Ptr('null', (), off)
        return Ptr(base.obj, base.rows, off)

    # ------------------------------------------------------------ instructions
    def bool_of(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, E):
            if v.sort == 'B':
                return v
            return bnot(ieq(imod(v, 2), 0)) if not (is_atom(v) and the_atom(v).op == 'b2i') else the_atom(v).args[0]
        if v is UNDEF:
            return bvar(fresh('undef'))
        raise Unsupported(f'bool of {v!r}')

    def int_of(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, E) and v.sort == 'B':
            return b2i(v)
        if v is UNDEF:
            return ivar(fresh('undef'))
        return v

    def binop(self, op, t, a, b):
        if t.k == 'int' and t.a == 1:
            a, b = self.bool_of(a), self.bool_of(b)
            if op == 'and':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op == 'xor':
                return bxor(a, b)
            raise Unsupported('i1 ' + op)
        if t.k == 'vector':
            raise Unsupported('vector')
        a, b = self.int_of(a), self.int_of(b)
        if isinstance(a, IntPtr) and a.p.obj == 'null':
            a = a.p.off
        if isinstance(b, IntPtr) and b.p.obj == 'null':
            b = b.p.off
        if isinstance(a, IntPtr) or isinstance(b, IntPtr):
            if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, IntPtr) and a.p.obj == b.p.obj and a.p.rows == b.p.rows:
                return isub(a.p.off, b.p.off)
            if op == 'add' and isinstance(a, IntPtr) and not isinstance(b, IntPtr):
                return IntPtr(a.p.add(b))
            if op == 'sub' and isinstance(a, IntPtr) and not isinstance(b, IntPtr):
                return IntPtr(a.p.add(ineg(b)))
            if op == 'sub' and isinstance(a, IntPtr) and isinstance(b, IntPtr):
                pa, pb = a.p, b.p
                return isub(iadd(self.addr(pa), pa.off), iadd(self.addr(pb), pb.off))
            raise Unsupported('pointer arithmetic ' + op)
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        if op == 'and':
            return iband(a, b)
        if op == 'or':
            return ibor(a, b)
        if op == 'xor':
            if isinstance(b, int) and b == -1:
                return isub(-1, a)
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if is_atom(a) and the_atom(a).op == 'b2i' and b == 1:
                return b2i(bnot(the_atom(a).args[0]))
            return atom_int('ixor', (a, b))
        if op == 'shl':
            if isinstance(b, int):
                return iscale(a, 1 << b)
            return atom_int('ishl', (a, b))
        if op in ('lshr', 'ashr'):
            if isinstance(b, int):
                return idiv(a, 1 << b)
            return atom_int('ishr', (a, b))
        if op in ('sdiv', 'udiv'):
            return idiv(a, b, trunc=(op == 'sdiv' and isinstance(a, int)))
        if op in ('srem', 'urem'):
            return imod(a, b)
        raise Unsupported(op)

    def addr(self, p):
        """symbolic numeric address of the start of an object row"""
        return ifn('addr:' + p.obj, *p.rows)

    def ptr_eq(self, a, b):
        if isinstance(a, IntPtr):
            a = a.p
        if isinstance(b, IntPtr):
            b = b.p
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            return bvar(fresh('pe'))
        if a.obj == b.obj and len(a.rows) == len(b.rows):
            c = [ieq(x, y) for x, y in zip(a.rows, b.rows)]
            if all(x is True for x in c):
                return ieq(a.off, b.off)
            if a.obj == 'null':
                return ieq(a.off, b.off)
            return band(*c, ieq(a.off, b.off))
        if a.obj == 'null' or b.obj == 'null':
            x = b if a.obj == 'null' else a
            return self.isnull(x)
        return False

    def isnull(self, p):
        if p.obj == 'null':
            return ieq(p.off, 0)
        if p.obj.startswith('stale:'):
            return bvar(fresh('stale'))
        if '*' not in p.obj and not p.obj.startswith('arg:?'):
            return False
        nn = self.nonnull(p)
        if nn is True:
            return False
        if nn is False:
            return True
        return bfn('isnull:' + p.obj, *p.rows)

    def icmp(self, t, pred, a, b):
        if t.k == 'ptr' or isinstance(a, (Ptr, IntPtr)) or isinstance(b, (Ptr, IntPtr)):
            if pred == 'eq':
                return self.ptr_eq(a, b)
            if pred == 'ne':
                return bnot(self.ptr_eq(a, b))
            if isinstance(a, IntPtr):
                a = a.p
            if isinstance(b, IntPtr):
                b = b.p
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj and all(ieq(x, y) is True for x, y in zip(a.rows, b.rows)):
                    x, y = a.off, b.off
                else:
                    x, y = iadd(self.addr(a), a.off), iadd(self.addr(b), b.off)
                return {'lt': ilt, 'le': ile, 'gt': lambda p, q: ilt(q, p), 'ge': lambda p, q: ile(q, p)}[pred[1:]](x, y)
            return bvar(fresh('pc'))
        if t.k == 'int' and t.a == 1:
            a, b = self.bool_of(a), self.bool_of(b)
            if pred == 'ne':
                return bxor(a, b)
            if pred == 'eq':
                return bnot(bxor(a, b))
            raise Unsupported('i1 cmp')
        a, b = self.int_of(a), self.int_of(b)
        if pred == 'eq':
            return ieq(a, b)
        if pred == 'ne':
            return bnot(ieq(a, b))
        if pred[0] == 'u':
            if isinstance(a, int) and a < 0:
                a += 1 << t.a
            if isinstance(b, int) and b < 0:
                b += 1 << t.a
        p = pred[1:]
        if p == 'lt':
            return ilt(a, b)
        if p == 'le':
            return ile(a, b)
        if p == 'gt':
            return ilt(b, a)
        return ile(b, a)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return bvar(fresh('undef'))
        if pred in ('ord',):
            return bnot(bor(self.isnan(a), self.isnan(b)))
        if pred in ('uno',):
            return bor(self.isnan(a), self.isnan(b))
        p = pred[1:]
        if p == 'eq':
            return req(a, b)
        if p == 'ne':
            return bnot(req(a, b))
        if p == 'lt':
            return rlt(a, b)
        if p == 'gt':
            return rlt(b, a)
        if p == 'le':
            return rle(a, b)
        if p == 'ge':
            return rle(b, a)
        raise Unsupported('fcmp ' + pred)

    def isnan(self, a):
        return a is NAN

    def cast(self, op, t, v, t2):
        if op in ('zext', 'sext'):
            if t.k == 'int' and t.a == 1:
                b = self.bool_of(v)
                r = b2i(b)
                return ineg(r) if op == 'sext' else r
            if op == 'zext' and isinstance(v, int) and v < 0:
                return v + (1 << t.a)
            return self.int_of(v)
        if op == 'trunc':
            if t2.a == 1:
                return self.bool_of(v)
            if isinstance(v, int):
                v &= (1 << t2.a) - 1
                if v >= 1 << (t2.a - 1):
                    v -= 1 << t2.a
                return v
            return v
        if op in ('sitofp', 'uitofp'):
            if t.k == 'int' and t.a == 1:
                return rite(self.bool_of(v), R1, R0)
            v = self.int_of(v)
            return i2r(v)
        if op in ('fptosi', 'fptoui'):
            if isrc(v):
                return int(v.args[0])
            if v.op == 'i2r':
                return v.args[0]
            if v.op == 'rite':
                # integer valued branches
                return iite(v.args[0], self.cast(op, t, v.args[1], t2), self.cast(op, t, v.args[2], t2))
            return atom_int('r2i', (v,))
        if op in ('fpext', 'fptrunc', 'bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint':
            return 0 if v == NULL else IntPtr(v)
        if op == 'inttoptr':
            if isinstance(v, IntPtr):
                return v.p
            if isinstance(v, int) and v == 0:
                return NULL
            raise Unsupported('inttoptr')
        raise Unsupported(op)

    # ------------------------------------------------------------ running
    def bind(self, fn, args):
        env = {}
        for (t, n, at), v in zip(fn.params, args):
            env[n] = v
        return env

    def call_function(self, st, fn, args):
        fn.parse()
        if len(args) != len(fn.params):
            raise Unsupported(f'arity of {fn.name}')
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        env = self.bind(fn, args)
        d = self.inlined
        d[fn.name] = d.get(fn.name, 0) + 1
        rets, stops = self.run([Item(st, env, fn.entry, 0, None)], fn, None)
        self.depth -= 1
        return rets

    def run(self, items, fn, region, stop_at=frozenset()):
        """region: Loop or None.  Executes until return / leaving the region /
        jumping to region.header / jumping to a block in stop_at"""
        rets, stops = [], []
        succ, pred, loops, num = analyse_cfg(fn)
        work = list(items)
        while work:
            it = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit')
            st, env, block, idx, prd = it.st, it.env, it.block, it.idx, it.pred
            blk = fn.blocks[block]
            ins_list = blk.ins
            n = len(ins_list)
            dead = False
            while idx < n:
                ins = ins_list[idx]
                idx += 1
                res = self.step(st, fn, env, ins)
                if res is None:
                    continue
                # list of alternatives (st, value)
                if not res:
                    dead = True
                    break
                for s2, v2 in res[1:]:
                    e2 = dict(env)
                    if ins.res is not None:
                        e2[ins.res] = v2
                    self.paths += 1
                    work.append(Item(s2, e2, block, idx, prd))
                st = res[0][0]
                if ins.res is not None:
                    env[ins.res] = res[0][1]
                if self.paths > self.maxpaths:
                    raise PathLimit('too many paths')
            if dead:
                continue
            t = blk.term
            if t is None or t.op in ('unreachable', 'resume'):
                continue
            if t.op == 'ret':
                rets.append((st, None if t.a is None else self.operand(fn, env, t.ty, t.a)))
                continue
            outs = []
            if t.op == 'br':
                outs = [(st, env, t.a)]
            elif t.op == 'condbr':
                c = self.bool_of(self.operand(fn, env, Ty('int', 1), t.a[0]))
                outs = self.branch(st, env, c, t.a[1], t.a[2], fn, block, region)
            elif t.op == 'switch':
                v = self.int_of(self.operand(fn, env, t.ty, t.a[0]))
                outs = self.do_switch(st, env, v, t)
            elif t.op == 'invoke':
                res = self.call(st, fn, env, t, t.a[0], t.a[1])
                for s2, v2 in res:
                    e2 = env if len(res) == 1 else dict(env)
                    if t.res is not None:
                        e2[t.res] = v2
                    outs.append((s2, e2, t.a[2]))
            for s2, e2, tgt in outs:
                self.goto(work, rets, stops, s2, e2, block, tgt, fn, region, stop_at, loops)
        return rets, stops

    def goto(self, work, rets, stops, st, env, frm, tgt, fn, region, stop_at, loops):
        if tgt in stop_at:
            stops.append(Stop(st, env, tgt, frm))
            return
        if region is not None and (tgt == region.header or tgt not in region.body):
            stops.append(Stop(st, env, tgt, frm))
            return
        L = loops.get(tgt)
        if L is not None and frm not in L.body:
            r2, outs = self.enter_loop(st, env, fn, L, frm)
            rets.extend(r2)
            for s in outs:
                self.goto(work, rets, stops, s.st, s.env, s.pred, s.target, fn, region, stop_at, loops)
            return
        if L is not None and (region is None or region.header != tgt):
            # back edge reached outside loop handling (started inside the loop)
            raise Unsupported('unexpected back edge')
        work.append(self.jump(st, env, frm, tgt, fn))

    def phis(self, env, frm, tgt, fn):
        if isinstance(frm, tuple):     # merged state: values precomputed
            return dict(frm[1])
        vals = {}
        for ph in fn.blocks[tgt].phis:
            for v, b in ph.a:
                if b == frm:
                    vals[ph.res] = self.operand(fn, env, ph.ty, v)
                    break
            else:
                raise Unsupported('phi without edge')
        return vals

    def jump(self, st, env, frm, tgt, fn):
        if fn.blocks[tgt].phis:
            vals = self.phis(env, frm, tgt, fn)
            env = dict(env)
            env.update(vals)
        else:
            env = dict(env)
        return Item(st, env, tgt, 0, frm)

    def branch(self, st, env, c, tb, fb, fn, block, region):
        if tb == fb:
            return [(st, env, tb)]
        exiting = region is not None and ((tb not in region.body) != (fb not in region.body))
        if isinstance(c, bool):
            if exiting and self.trackers and self.trackers[-1].region is region and self.trackers[-1].fn is fn:
                self.trackers[-1].exitcond(block, c if tb in region.body else (not c), st)
            return [(st, env, tb if c else fb)]
        if exiting and self.trackers and self.trackers[-1].region is region and self.trackers[-1].fn is fn:
            tr = self.trackers[-1]
            stay = c if tb in region.body else bnot(c)
            tr.exitcond(block, stay, st)
            if tr.generic:
                st.assume(stay)
                return [(st, env, tb if tb in region.body else fb)]
        d = self.decide(st, c)
        if d is True:
            return [(st, env, tb)]
        if d is False:
            return [(st, env, fb)]
        if exiting:
            for f in self.loopwatch:
                f(region, fn)
        nc = bnot(c)
        ft = self.feasible(st, c)
        ff = self.feasible(st, nc)
        if ft and ff:
            self.paths += 1
            if self.paths > self.maxpaths:
                raise PathLimit('too many paths')
            s2 = st.copy()
            st.assume(c)
            s2.assume(nc)
            return [(st, env, tb), (s2, dict(env), fb)]
        if ft:
            st.assume(c)
            return [(st, env, tb)]
        if ff:
            st.assume(nc)
            return [(st, env, fb)]
        return []

    loopwatch = ()

    def do_switch(self, st, env, v, t):
        _, dflt, cases = t.a
        if isinstance(v, int):
            for cv, b in cases:
                if cv == v or cv == v - 256 or (cv < 0 and cv + 256 == v):
                    return [(st, env, b)]
            return [(st, env, dflt)]
        out = []
        neg = []
        for cv, b in cases:
            c = ieq(v, cv)
            if c is False or not self.feasible(st, c):
                continue
            s2 = st.copy()
            s2.assume(c)
            out.append((s2, dict(env), b))
            neg.append(bnot(c))
        s2 = st.copy()
        ok = True
        for c in neg:
            s2.assume(c)
        if self.solver.check(list(s2.pc)) != 'unsat':
            out.append((s2, dict(env), dflt))
        return out

    def ptr_alternatives(self, st, alts):
        """fork on pointer-valued alternatives"""
        res = []
        cur = st
        for k, (c, v) in enumerate(alts):
            last = k == len(alts) - 1
            if last or c is True:
                res.append((cur, v))
                break
            if not self.feasible(cur, c):
                continue
            s2 = cur.copy()
            s2.assume(c)
            res.append((s2, v))
            nc = bnot(c)
            if not self.feasible(cur, nc):
                return res
            cur = cur.copy()
            cur.assume(nc)
        return res

    def load_agg(self, st, name, rows, off, ty, hv=None, module=None):
        raise Unsupported('aggregate load')

    def step(self, st, fn, env, ins):
        op = ins.op
        o = lambda t, v: self.operand(fn, env, t, v)
        if op == 'load':
            p = o(Ty('ptr'), ins.a)
            ty = fn.module.resolve(ins.ty)
            if p is UNDEF:
                raise Unsupported('load from undef')
            if isinstance(p, IntPtr):
                p = p.p
            if ty.k in ('struct', 'array', 'pstruct'):
                parts = []
                n = len(ty.a) if ty.k != 'array' else ty.a[0]
                for i in range(n):
                    fo, ft = fn.module.field_off(ty, i) if ty.k != 'array' else (i * fn.module.size(ty.a[1]), ty.a[1])
                    parts.append(self.load1(st, p.add(fo), fn.module.resolve(ft)))
                env[ins.res] = Agg(parts)
                return None
            a = self.read(st, p, ty)
            if len(a) == 1:
                v = a[0][1]
                if ty.k == 'int' and ty.a == 1:
                    v = self.bool_of(v)
                env[ins.res] = v
                return None
            return self.ptr_alternatives(st, a)
        if op == 'store':
            v = o(ins.ty, ins.a[0])
            p = o(Ty('ptr'), ins.a[1])
            if isinstance(v, Agg):
                ty = fn.module.resolve(ins.ty)
                for i, x in enumerate(v):
                    fo = fn.module.field_off(ty, i)[0] if ty.k != 'array' else i * fn.module.size(ty.a[1])
                    self.write(st, p.add(fo), x, 8)
                return None
            if p is UNDEF:
                raise Unsupported('store to undef')
            if isinstance(v, bool) or (isinstance(v, E) and v.sort == 'B'):
                v = b2i(v)
            self.write(st, p, v, fn.module.size(ins.ty))
            return None
        if op == 'gep':
            base = o(*ins.a[0])
            env[ins.res] = self.gep(fn, env, ins.ty, base, ins.a[1:])
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            env[ins.res] = self.binop(op, ins.ty, o(ins.ty, ins.a[0]), o(ins.ty, ins.a[1]))
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = o(ins.ty, ins.a[0]), o(ins.ty, ins.a[1])
            if a is UNDEF:
                a = rvar(fresh('undef'))
            if b is UNDEF:
                b = rvar(fresh('undef'))
            if op == 'frem':
                env[ins.res] = rfn('fmod', a, b)
            else:
                env[ins.res] = {'fadd': radd, 'fsub': rsub, 'fmul': rmul, 'fdiv': rdiv}[op](a, b)
            return None
        if op == 'fneg':
            env[ins.res] = rneg(o(ins.ty, ins.a))
            return None
        if op == 'icmp':
            env[ins.res] = self.icmp(ins.ty, ins.a[0], o(ins.ty, ins.a[1]), o(ins.ty, ins.a[2]))
            return None
        if op == 'fcmp':
            env[ins.res] = self.fcmp(ins.a[0], o(ins.ty, ins.a[1]), o(ins.ty, ins.a[2]))
            return None
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr',
                  'fpext', 'fptrunc', 'addrspacecast'):
            v = o(ins.a[0], ins.a[1])
            if v is UNDEF:
                env[ins.res] = UNDEF
                return None
            if op == 'bitcast' and ins.a[0].k == 'double' and ins.ty.k == 'int':
                v = self.coerce(v, ins.ty)
            elif op == 'bitcast' and ins.a[0].k == 'int' and ins.ty.k == 'double':
                v = self.coerce(v, ins.ty)
            env[ins.res] = self.cast(op, ins.a[0], v, ins.ty)
            return None
        if op == 'freeze':
            env[ins.res] = o(ins.ty, ins.a)
            return None
        if op == 'select':
            c = self.bool_of(o(Ty('int', 1), ins.a[0]))
            a, b = o(ins.ty, ins.a[1]), o(ins.ty, ins.a[2])
            if isinstance(c, E):
                d = self.decide(st, c)
                if d is not None:
                    c = d
            if c is True:
                env[ins.res] = a
                return None
            if c is False:
                env[ins.res] = b
                return None
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptr_alternatives(st, [(c, a), (True, b)])
            if a is UNDEF or b is UNDEF:
                env[ins.res] = b if a is UNDEF else a
                return None
            env[ins.res] = self.vite(c, a, b)
            return None
        if op == 'alloca':
            n = o(Ty('int', 64), ins.a)
            env[ins.res] = self.alloc(st, 'al')
            return None
        if op == 'extractvalue':
            v = o(ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v[i]
            env[ins.res] = v
            return None
        if op == 'insertvalue':
            v = o(ins.ty, ins.a[0])
            w = o(ins.a[1], ins.a[2])

            def put(x, path):
                if not path:
                    return w
                l = list(x)
                l[path[0]] = put(l[path[0]], path[1:])
                return Agg(l)
            env[ins.res] = put(v, ins.a[3])
            return None
        if op == 'call':
            res = self.call(st, fn, env, ins, ins.a[0], ins.a[1])
            if len(res) == 1 and res[0][0] is st:
                if ins.res is not None:
                    env[ins.res] = res[0][1]
                return None
            return res
        if op == 'landingpad':
            return []
        raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ calls
    NORETURN = re.compile(r'^(ADOLCError::fail|__assert_fail|std::__throw_.*|abort|exit|std::terminate|__cxa_throw|'
                          r'__cxa_rethrow|std::unreachable|__clang_call_terminate|__glibcxx_assert_fail|std::__glibcxx_assert_fail)$')
    NOOP = re.compile(r'^(fprintf|printf|puts|putchar|fflush|llvm\.dbg.*|llvm\.lifetime.*|llvm\.assume|'
                      r'llvm\.experimental.*|__cxa_guard_release|fputs|fputc|fwrite|free|operator delete|operator delete\[\]|'
                      r'llvm\.stacksave.*|llvm\.stackrestore.*|__cxa_begin_catch|__cxa_end_catch|__cxa_atexit|perror|'
                      r'std::cout|std::cerr|llvm\.prefetch.*)$')
    MATHF = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'log',
             'log10', 'log2', 'sqrt', 'cbrt', 'pow', 'erf', 'erfc', 'fabs', 'floor', 'ceil', 'trunc', 'fmod', 'atan2', 'frexp',
             'nextafter', 'fmax', 'fmin', 'hypot', 'ldexp', 'expm1', 'log1p', 'round', 'copysign'}

    def call(self, st, fn, env, ins, callee, args):
        if callee[0] == 'global':
            name = callee[1]
            m = fn.module
            if name in m.aliases:
                name = m.aliases[name]
        else:
            p = self.operand(fn, env, Ty('ptr'), callee)
            if isinstance(p, Ptr) and p.obj.startswith('fn:'):
                name = p.obj[3:]
            else:
                h = self.contracts.get('#indirect')
                if h:
                    r = h(self, st, [p] + [self.operand(fn, env, t, v) for t, v, _ in args], ins)
                    if r is not NotImplemented:
                        return r
                name = '#indirect'
        if name.startswith('@llvm.'):
            short = name[1:]
            vals = [self.operand(fn, env, t, v) if t.k != 'metadata' else None for t, v, _ in args]
            return self.intrinsic(st, short, vals, ins, args)
        vals = [self.operand(fn, env, t, v) for t, v, _ in args]
        short = self.short.get(name)
        if short is None:
            demangle_all([name])
            short = self.short[name] = strip_templates(basename(_dem[name])) if name != '#indirect' else name
        return self.call_named(st, name, short, vals, ins, args, fn)

    def call_named(self, st, name, short, vals, ins, args, fn):
        c = self.contracts.get(name) or self.contracts.get(short)
        if c is not None:
            r = c(self, st, vals, ins)
            if r is not NotImplemented:
                self.trusted[short] = self.trusted.get(short, 0) + 1
                return r
        if self.NORETURN.match(short):
            self.fails.append((st.pc, short))
            return []
        if self.NOOP.match(short):
            return [(st, 0 if ins.ty is not None and ins.ty.k == 'int' else None)]
        if short in self.MATHF and name == '@' + short:
            self.trusted[short] = self.trusted.get(short, 0) + 1
            if short == 'frexp':
                raise Unsupported('frexp')
            return [(st, self.mathfn(st, short, vals))]
        if short in ('std::max', 'std::min') and name not in self.fn_index:
            pass
        if short in ('operator new', 'operator new[]', 'malloc'):
            return [(st, self.alloc(st, 'new'))]
        if short == 'calloc':
            return [(st, self.alloc(st, 'new', 'zero'))]
        if short == '__cxa_guard_acquire':
            return [(st, 0)]
        if short == 'memcpy' or short == 'memmove':
            self.copy(st, vals[0], vals[1], vals[2])
            return [(st, vals[0])]
        if short == 'memset':
            self.fill(st, vals[0], vals[2])
            return [(st, vals[0])]
        f = self.fn_index.get(name)
        if fn is not None and name in fn.module.functions:
            f = fn.module.functions[name]
        if f is not None:
            return self.call_function(st, f, vals)
        return self.unknown_call(st, short, vals, ins)

    def mathfn(self, st, name, vals):
        if name == 'fabs':
            c = rlt(vals[0], R0)
            d = self.decide(st, c)
            if d is not None:
                c = d
            return rite(c, rneg(vals[0]), vals[0])
        if name in ('fmax', 'maxnum', 'fmin', 'minnum') and all(isinstance(x, E) for x in vals):
            a, b = vals
            return rite(rlt(a, b), b, a) if 'max' in name else rite(rlt(b, a), b, a)
        return rfn(name, *vals)

    def unknown_call(self, st, short, vals, ins):
        self.unmodelled[short] = self.unmodelled.get(short, 0) + 1
        for t in self.trackers:
            t.opaque = True
        st.ev = st.ev + ((short, tuple(vals)),)
        ty = ins.ty
        return [(st, self.unknown_value(ty, short))]

    def unknown_value(self, ty, hint='u'):
        if ty is None or ty.k == 'void':
            return None
        if ty.k == 'int':
            if ty.a == 1:
                return bvar(fresh(hint))
            return ivar(fresh(hint))
        if ty.k == 'double':
            return rvar(fresh(hint))
        if ty.k == 'ptr':
            return Ptr(fresh(hint) + '*', (), 0)
        if ty.k in ('struct', 'pstruct'):
            return Agg(self.unknown_value(t, hint) for t in ty.a)
        return UNDEF

    def copy(self, st, dst, src, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int) and isinstance(dst.off, int) and isinstance(src.off, int) and n <= 512:
            so = st.mem.get(src.obj)
            do = self.getobj(st, dst.obj)
            if so is not None and so[1] is None and do[1] is None and not self.trackers and all(
                    isinstance(r, int) for r in src.rows + dst.rows):
                cells = [(o, v) for (r, o), v in so[0].items() if r == src.rows and src.off <= o < src.off + n]
                self.fill(st, dst, n, src)
                for o, (v, sz) in cells:
                    self.write(st, dst.add(o - src.off), v, sz)
                return
        if isinstance(n, int) and n == 8 and src.obj in self.allocs and self.trackers:
            v = self.read(st, src, Ty('ptr'))
            if len(v) == 1 and isinstance(v[0][1], Ptr) and v[0][1].obj != 'null':
                self.write(st, dst, v[0][1], 8)
                return
        self.fill(st, dst, n, src)

    def intrinsic(self, st, name, vals, ins, args):
        b = name.split('.')[1]
        if b in ('memcpy', 'memmove'):
            self.copy(st, vals[0], vals[1], vals[2])
            return [(st, None)]
        if b == 'memset':
            if not (isinstance(vals[1], int) and vals[1] == 0):
                raise Unsupported('memset non-zero')
            self.fill(st, vals[0], vals[2])
            return [(st, None)]
        if b in ('fabs', 'floor', 'ceil', 'trunc', 'sqrt', 'pow', 'exp', 'log', 'sin', 'cos', 'round', 'copysign', 'maxnum', 'minnum'):
            return [(st, self.mathfn(st, b, vals))]
        if b == 'fmuladd':
            return [(st, radd(rmul(vals[0], vals[1]), vals[2]))]
        if b in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub') and 'with' in name:
            f = {'mul': imul, 'add': iadd, 'sub': isub}[b[1:]]
            return [(st, Agg([f(vals[0], vals[1]), False]))]
        if b in ('smax', 'umax'):
            return [(st, iite(ilt(vals[0], vals[1]), vals[1], vals[0]))]
        if b in ('smin', 'umin'):
            return [(st, iite(ilt(vals[1], vals[0]), vals[1], vals[0]))]
        if b == 'abs':
            return [(st, iite(ilt(vals[0], 0), ineg(vals[0]), vals[0]))]
        if b in ('dbg', 'lifetime', 'assume', 'experimental', 'stacksave', 'stackrestore', 'prefetch', 'invariant'):
            return [(st, NULL if ins.ty is not None and ins.ty.k == 'ptr' else None)]
        if b == 'trap':
            return []
        if b == 'expect':
            return [(st, vals[0])]
        if b == 'is' and 'fpclass' in name:
            return [(st, False)]
        if b == 'is' and 'constant' in name:
            return [(st, False)]
        if b == 'objectsize':
            return [(st, -1)]
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    def enter_loop(self, st, env, fn, L, frm):
        hook = self.loop_hooks.get((fn.name, L.header)) or self.loop_hooks.get(fn.name)
        if hook:
            r = hook(self, st, env, fn, L, frm)
            if r is not NotImplemented:
                return r
        rets, outs = [], []
        cur = [(st, env, frm)]
        first = None
        for it in range(self.maxu):
            nxt = []
            for (s, e, f) in cur:
                snap = s.copy()
                flag = []
                watch = lambda reg, ff: flag.append(1) if (reg is L and ff is fn) else None
                old = self.loopwatch
                nf = len(self.fails)
                self.loopwatch = old + (watch,)
                tr = None
                try:
                    item = self.jump(s, e, f, L.header, fn)
                    r2, stops = self.run([item], fn, L)
                finally:
                    self.loopwatch = old
                back = [x for x in stops if x.target == L.header]
                ext = [x for x in stops if x.target != L.header]
                if it == 0 and len(cur) == 1 and back and not flag and not r2 and not ext:
                    first = (snap, e, f, back, nf)
                if flag and back and it == 1 and first is not None and len(cur) == 1:
                    # the first iteration was only decided by the path
                    # condition: cover it with the summary as well
                    try:
                        nf2 = len(self.fails)
                        r2, o2 = self.summarise1(first[0].copy(), first[1], fn, L, first[2], first[3])
                        del self.fails[first[4]:nf2]
                        rets.extend(r2)
                        outs.extend(o2)
                        return rets, outs
                    except PathLimit:
                        raise
                    except Unsupported:
                        del self.fails[nf2:]
                if flag and back:
                    del self.fails[nf:]
                    r2, o2 = self.summarise(snap, e, fn, L, f, back)
                    rets.extend(r2)
                    outs.extend(o2)
                else:
                    rets.extend(r2)
                    outs.extend(ext)
                    nxt.extend(back)
            if not nxt:
                return rets, outs
            if len(nxt) > 1:
                nxt = self.merge_stops(nxt, fn, L)
            cur = [(x.st, x.env, x.pred) for x in nxt]
        raise Unsupported(f'loop {L.header} in {fn.name}: unrolling limit')

    def merge_stops(self, stops, fn, L):
        """try to merge back-edge states into one"""
        groups = {}
        for s in stops:
            groups.setdefault(s.pred, []).append(s)
        try:
            r = self.merge_all(stops, fn, L)
            return [r]
        except Unsupported:
            return stops

    def merge_all(self, stops, fn, L):
        if len(stops) == 1:
            return stops[0]
        # phi values per stop
        ph = [self.phis(s.env, s.pred, L.header, fn) for s in stops]
        # common pc prefix
        pcs = [s.st.pc for s in stops]
        k = 0
        while all(len(p) > k for p in pcs) and all(p[k] is pcs[0][k] for p in pcs):
            k += 1
        conds = [band(*p[k:]) for p in pcs]
        st = stops[0].st.copy()
        vals = dict(ph[0])
        acc = stops[0].st
        evs = {s.st.ev for s in stops}
        if len(evs) > 1:
            raise Unsupported('events differ')
        # merge: last one as default
        res_vals = dict(ph[-1])
        for j in range(len(stops) - 2, -1, -1):
            for n in res_vals:
                res_vals[n] = self.vite(conds[j], ph[j][n], res_vals[n])
        mem = self.merge_mem([s.st.mem for s in stops], conds)
        st.mem = mem
        st.pc = pcs[0][:k]
        st.assume(bor(*conds))
        env = dict(stops[0].env)
        return Stop(st, env, L.header, ('vals', res_vals))

    def merge_mem(self, mems, conds):
        out = {}
        names = set()
        for m in mems:
            names.update(m)
        for n in names:
            os = [m.get(n) for m in mems]
            pres = [o for o in os if o is not None]
            o0 = pres[0]
            if all(o is o0 for o in os) or all(o is None or o is o0 for o in os):
                out[n] = o0
                continue
            if any(o is None for o in os):
                # object allocated on some paths only
                if len(pres) == 1:
                    out[n] = pres[0]
                    continue
                os = pres
                cs = [c for c, m in zip(conds, mems) if m.get(n) is not None]
            else:
                cs = conds
            logs = [o[1] for o in os]
            if all(l is logs[0] for l in logs):
                # bases differ
                keys = set()
                for o in os:
                    keys.update(o[0])
                base = {}
                for k in keys:
                    vs = [o[0].get(k) for o in os]
                    if any(v is None for v in vs):
                        if logs[0] is not None:
                            raise Unsupported('merge base')
                        sz = [v for v in vs if v is not None][0]
                        ty = self.guess_ty(sz[0])
                        vs = [v if v is not None else (self.initial(n, k[0], k[1], ty), sz[1]) for v in vs]
                    v = vs[-1][0]
                    for c, w in zip(reversed(cs[:-1]), reversed(vs[:-1])):
                        if w[0] is not v:
                            v = self.vite(c, w[0], v)
                    base[k] = (v, vs[0][1])
                out[n] = (base, logs[0])
                continue
            # common log suffix (older part)
            lists = []
            for l in logs:
                x = []
                while l is not None:
                    x.append(l)
                    l = l[1]
                x.reverse()
                lists.append(x)
            k = 0
            while all(len(x) > k for x in lists) and all(x[k] is lists[0][k] for x in lists):
                k += 1
            bases = [o[0] for o in os]
            if not all(b is bases[0] or b == bases[0] for b in bases):
                raise Unsupported('merge of base and log')
            node = lists[0][k - 1] if k else None
            for x, c in zip(lists, cs):
                for ent in x[k:]:
                    e = ent[0]
                    if isinstance(e, W):
                        node = (W(band(c, e.guard), e.vars, e.rows, e.off, e.val, e.size), node)
                    elif isinstance(e, Fill):
                        node = (Fill(band(c, e.guard), e.rows, e.off, e.n, e.src, e.srcmem), node)
                    else:
                        raise Unsupported('merge havoc')
            out[n] = (bases[0], node)
        return out

    def guess_ty(self, v):
        if isinstance(v, (Ptr, IntPtr)):
            return Ty('ptr')
        if isinstance(v, E) and v.sort == 'R':
            return Ty('double')
        return Ty('int', 64)

    # ---- summarisation
    def linear_n(self, stay, iat):
        """number of completed iterations from the stay-condition at iteration i"""
        c = stay
        if isinstance(c, bool):
            return None
        if c.op == 'le0':
            l = c.args[0]
            cc, items = l.args
            a = 0
            for t, q in items:
                if t is iat:
                    a = q
                elif contains(t, iat):
                    return None
            if a <= 0:
                return None
            rest = isub(l, iscale(mk('lin', (0, ((iat, 1),)), 'I'), a))
            # a*i + rest <= 0  <=> i <= floor(-rest/a)
            return iadd(idiv(ineg(rest), a), 1)
        if c.op == 'not' and c.args[0].op == 'eq0':
            l = c.args[0].args[0]
            cc, items = l.args
            a = 0
            for t, q in items:
                if t is iat:
                    a = q
                elif contains(t, iat):
                    return None
            if a == 0:
                return None
            rest = isub(l, iscale(mk('lin', (0, ((iat, 1),)), 'I'), a))
            if a < 0:
                a, rest = -a, ineg(rest)
            q = exact_div(ineg(rest), a)
            return q
        return None

    def lin_delta(self, a, b):
        """b - a as a displacement, or None"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj or len(a.rows) != len(b.rows):
                return None
            if not all(isinstance(isub(y, x), int) and isub(y, x) == 0 for x, y in zip(a.rows, b.rows)):
                return None
            return isub(b.off, a.off)
        if isinstance(a, bool) or isinstance(b, bool):
            return 0 if a is b else None
        if isinstance(a, (int, E)) and isinstance(b, (int, E)):
            if isinstance(a, E) and a.sort != 'I' or isinstance(b, E) and b.sort != 'I':
                return 0 if a is b else None
            return isub(b, a)
        if a == b:
            return 0
        return None

    def shift(self, v, d):
        if isinstance(d, int) and d == 0:
            return v
        if isinstance(v, Ptr):
            return v.add(d)
        return iadd(v, d)

    def summarise(self, st, env, fn, L, frm, trial):
        try:
            return self.summarise1(st.copy(), env, fn, L, frm, trial)
        except PathLimit:
            raise
        except Unsupported as ex:
            why = str(ex)
        return self.bounded_loop(st, env, fn, L, frm, why)

    def bounded_loop(self, st, env, fn, L, frm, why):
        rets, outs = [], []
        cur = [(st, env, frm)]
        for it in range(self.bound + 1):
            nxt = []
            for (s, e, f) in cur:
                item = self.jump(s, e, f, L.header, fn)
                r2, stops = self.run([item], fn, L)
                rets.extend(r2)
                outs.extend(x for x in stops if x.target != L.header)
                nxt.extend(x for x in stops if x.target == L.header)
            if len(nxt) > 1:
                nxt = self.merge_stops(nxt, fn, L)
            cur = [(x.st, x.env, x.pred) for x in nxt]
            if not cur:
                break
        else:      # not all paths have left the loop
            self.bounded.append((self.short.get(fn.name, fn.name), L.header, why))
        return rets, outs

    def summarise1(self, st, env, fn, L, frm, trial):
        tr0 = self.merge_all(list(trial), fn, L)
        v0 = self.phis(env, frm, L.header, fn)
        v1 = self.phis(tr0.env, tr0.pred, L.header, fn)
        kinds = {}
        for n in v0:
            d = self.lin_delta(v0[n], v1[n])
            if d is not None:
                kinds[n] = ('aff', d)
            else:
                kinds[n] = ('acc',)
        cells = {}   # (obj, rows, off) -> [ty, v0, kind]
        arrs = {}    # (obj, rows, off(q), lo, hi) -> [q, name of the accumulated array, size]
        nfails = len(self.fails)
        for attempt in range(12):
            del self.fails[nfails:]
            i = ivar(fresh('i'))
            iat = the_atom(i)
            s = st.copy()
            s.assume(ile(0, i))
            syms = {}
            gv = {}
            for n, k in kinds.items():
                gv[n] = self.carry_value(v0[n], k, i, n, syms)
            for key, c in cells.items():
                obj, rows, off = key
                val = self.carry_value(c[1], c[2], i, key, syms)
                self.trackers, sv = [], self.trackers
                base, log = self.getobj(s, obj)
                s.mem[obj] = (base, (W(True, (), rows, off, val, c[3]), log))
                self.trackers = sv
            for (obj, rows, off, lo, hi), a in arrs.items():
                self.trackers, sv = [], self.trackers
                base, log = self.getobj(s, obj)
                s.mem[obj] = (base, (W(True, ((the_atom(a[0]), lo, hi),), rows, off, a[3](a[1], a[0]), a[2]), log))
                self.trackers = sv
            tr = Tracker(L, fn, dict(s.mem), i)
            tr.nalloc0 = self.nalloc
            self.trackers.append(tr)
            try:
                e2 = dict(env)
                e2.update(gv)
                item = Item(s, e2, L.header, 0, frm)
                r2, stops = self.run([item], fn, L)
            finally:
                self.trackers.pop()
            back = [x for x in stops if x.target == L.header]
            ext = [x for x in stops if x.target != L.header]
            if r2 or ext:
                raise Unsupported('loop has several exits')
            if tr.opaque:
                raise Unsupported('opaque call in loop')
            if len(tr.conds) != 1:
                raise Unsupported('no single exit condition')
            if not back:
                raise Unsupported('no back edge')
            (eb, stay), = tr.conds
            m = self.merge_all(back, fn, L)
            nv = self.phis(m.env, m.pred, L.header, fn)
            ms = m.st
            # entries written in this iteration
            ents = []
            retry = False
            for name, o in ms.mem.items():
                o0 = tr.mem.get(name)
                if o0 is None:
                    if self.allocs.get(name, 0) > tr.nalloc0:
                        continue
                    o0 = EMPTY
                if o0 is o:
                    continue
                if o0[0] is not o[0] and o0[0] != o[0]:
                    if tr.mem.get(name) is None and o[1] is None:
                        for (r_, f_), (v_, s_) in o[0].items():
                            ents.append((name, W(True, (), r_, f_, v_, s_)))
                        continue
                    raise Unsupported('base changed')
                node = o[1]
                sub = []
                while node is not o0[1]:
                    if node is None:
                        raise Unsupported('log rewritten')
                    sub.append(node[0])
                    node = node[1]
                sub.reverse()
                for e in sub:
                    ents.append((name, e))
            # fixed address writes -> carried cells
            newc = {}
            newa = {}
            for name, e in ents:
                if isinstance(e, W) and isinstance(e.val, Ptr) and self.allocs.get(e.val.obj, 0) > tr.nalloc0:
                    raise Unsupported('object allocated in an iteration escapes')
                if isinstance(e, Fill):
                    if any(contains(x, iat) for x in list(e.rows) + [e.off] if isinstance(x, E)) or True:
                        raise Unsupported('block fill in loop')
                fixed = not any(isinstance(x, E) and contains(x, iat) for x in list(e.rows) + [e.off])
                if fixed and e.vars:
                    if len(e.vars) != 1 or not (isinstance(e.val, E) and e.val.sort in 'RI') or any(
                            isinstance(x, E) and contains(x, iat) for x in e.vars[0][1:]):
                        raise Unsupported('carried array')
                    akey = self.array_key(name, e)
                    if akey not in arrs:
                        newa[akey] = [ivar('!q0'), str(fresh('acc')), e.size, rfn if e.val.sort == 'R' else ifn]
                    continue
                if fixed:
                    key = (name, e.rows, e.off)
                    if key not in cells:
                        ty = self.guess_ty(e.val)
                        if isinstance(e.val, Undef):
                            raise Unsupported('undef cell')
                        if ty.k == 'int':
                            ty = Ty('int', e.size * 8)
                        self.trackers, sv = [], self.trackers
                        try:
                            w0 = self.load1(st, Ptr(*key), ty)
                            w1 = self.load1(tr0.st, Ptr(*key), ty)
                        finally:
                            self.trackers = sv
                        d = self.lin_delta(w0, w1)
                        newc[key] = [ty, w0, ('aff', d) if d is not None and not (
                            ty.k == 'double' and d != 0) else ('acc',), e.size]
            if newa and not newc:
                arrs.update(newa)
                continue
            if newc:
                # integers and pointers first: addresses may depend on them
                ints = {k: v for k, v in newc.items() if v[0].k != 'double'}
                cells.update(ints or newc)
                continue
            n = self.linear_n(stay, iat)
            if n is None:
                raise Unsupported(f'exit condition {show(stay) if isinstance(stay, E) else stay}')
            # check carried values
            carried = [(n_, v0[n_], kinds[n_], nv[n_]) for n_ in kinds]
            self.trackers, sv = [], self.trackers
            try:
                for key, c in cells.items():
                    carried.append((key, c[1], c[2], self.load1(ms, Ptr(*key), c[0])))
            finally:
                self.trackers = sv
            accs, mins, ors, poss = {}, {}, {}, {}
            for key, w0, k, nxt in carried:
                if k[0] == 'aff':
                    want = w0 if isinstance(k[1], int) and k[1] == 0 else self.shift(w0, imul(iadd(i, 1), k[1]))
                    if self.same(ms, nxt, want):
                        continue
                    newk = ('acc',)
                elif k[0] == 'acc':
                    A = syms[key]
                    t = self.acc_term(nxt, A, ms)
                    if t is not None:
                        accs[key] = t
                        continue
                    t = self.min_term(nxt, A, ms)
                    if t is not None:
                        mins[key] = t
                        continue
                    t = self.or_term(nxt, A)
                    if t is not None:
                        ors[key] = t
                        continue
                    t = self.pos_term(nxt, A, ms, syms)
                    if t is not None:
                        poss[key] = t
                        continue
                    # value independent of the previous one?
                    parts = list(nxt.rows) + [nxt.off] if isinstance(nxt, Ptr) else [nxt]
                    if all(isinstance(q, int) or isinstance(q, E) and not any(
                            contains(q, the_sym(x)) for x in [A] + list(syms.values())) for q in parts):
                        newk = ('last', vsubst(nxt, {iat: isub(i, 1)}), i)
                    else:
                        newk = ('hav',)
                elif k[0] == 'last':
                    want = vsubst(k[1], {the_atom(k[2]): iadd(i, 1)})
                    if self.same(ms, nxt, want):
                        continue
                    newk = ('hav',)
                else:
                    continue
                if isinstance(w0, (Ptr, IntPtr, Undef, Agg)):
                    if newk[0] != 'last':
                        if isinstance(w0, Undef):
                            newk = ('undef',)
                        else:
                            newk = ('stale',)
                if key in kinds:
                    kinds[key] = newk
                else:
                    cells[key][2] = newk
                retry = True
            if retry:
                continue
            break
        else:
            raise Unsupported('no fixpoint for carried values')
        # closed forms of accumulators
        sub_i = {}
        for key, c in poss.items():
            w0 = v0[key] if key in v0 else cells[key][1]
            j = ivar(fresh('j'))
            sub_i[the_sym(syms[key])] = rite(bexists(j, i, vsubst(c, {iat: j})), mk('rfn', ('pos#', rfn('hv' + str(fresh('h')), i)), 'R'), w0)
        spos = dict(sub_i)
        if spos:
            accs = {k_: vsubst(t, spos) for k_, t in accs.items()}
            mins = {k_: [(vsubst(c, spos), kk) for c, kk in t] for k_, t in mins.items()}
            ors = {k_: vsubst(t, spos) for k_, t in ors.items()}
        for key, t in accs.items():
            A = syms[key]
            w0 = v0[key] if key in v0 else cells[key][1]
            j = ivar(fresh('j'))
            tj = vsubst(t, {iat: j})
            for other in accs:
                if contains(t, the_sym(syms[other])):
                    raise Unsupported('nested accumulators')
            if isinstance(A, E) and A.sort == 'R':
                sub_i[the_sym(A)] = radd(w0, rsum(j, 0, i, tj)) if isinstance(w0, E) else None
            else:
                sub_i[the_sym(A)] = iadd(w0, self.isum(j, i, tj))
        for key, t in mins.items():
            w0 = v0[key] if key in v0 else cells[key][1]
            for c, kk in t:
                j = ivar(fresh('j'))
                if any(contains(c, the_sym(syms[o])) for o in list(accs) + list(mins)):
                    raise Unsupported('nested accumulators')
                w0 = iite(band(bexists(j, i, vsubst(c, {iat: j})), ilt(kk, w0)), kk, w0)
            sub_i[the_sym(syms[key])] = w0
        for key, t in ors.items():
            w0 = v0[key] if key in v0 else cells[key][1]
            j = ivar(fresh('j'))
            if any(isinstance(t, E) and contains(t, the_sym(syms[o])) for o in list(accs) + list(mins) + list(ors)):
                raise Unsupported('nested accumulators')
            sub_i[the_sym(syms[key])] = ibor(w0, iors(j, i, vsubst(t, {iat: j})))
        # accumulated arrays
        afin = []
        posa = {}
        anames = [b[1] for b in arrs.values()]

        def without(x, st):
            """x without the carried arrays: it does not depend on them, or their value in iteration i is known"""
            if not isinstance(x, E) or not any(rfn_name(x, nm) for nm in anames):
                return x
            refs = [y for y in subterms(x) if y.op == 'rfn' and y.args[0] in anames]
            x0 = subst(x, {y: R1 for y in refs})
            if x.sort in 'RB' and self.entails(st, req(x, x0) if x.sort == 'R' else bnot(bxor(x, x0))):
                return x0
            m = {}
            for y in refs:
                pi = posa.get(y.args[0])
                if pi is not None:
                    q, w0, t, hv = pi
                    at, j = the_atom(q), ivar(fresh('j'))
                    idx = y.args[1]
                    m[y] = rite(bexists(j, i, subst(subst(t, {at: idx}), {iat: j})),
                                mk('rfn', ('pos#', rfn(hv, i, idx)), 'R'), subst(w0, {at: idx}))
            return subst(x, m) if m else x
        for (obj, rows, off, lo, hi), a in arrs.items():
            q = ivar(fresh('q'))
            qm = {the_atom(a[0]): q}
            qf = [ile(lo, q), ilt(q, hi)]
            s1, s2 = ms.copy(), st.copy()
            for f in qf:
                s1.assume(f)
                s2.assume(f)
            self.trackers, sv = [], self.trackers
            try:
                p = Ptr(obj, rows, subst(off, qm))
                ty = Ty('double') if a[3] is rfn else Ty('int', 8 * a[2])
                nxt = self.load1(s1, p, ty)
                w0 = self.load1(s2, p, ty)
            finally:
                self.trackers = sv
            A = a[3](a[1], q)
            if spos:
                nxt = vsubst(nxt, spos)
            t = self.acc_term(nxt, A, s1) if a[3] is rfn else self.or_term(nxt, A)
            if t is None and a[3] is rfn:
                t = self.pos_term(nxt, A, s1, {**syms, **{b[1]: b[3](b[1], q) for b in arrs.values()}})
                if t is not None:
                    j = ivar(fresh('j'))
                    posa[a[1]] = (q, w0, t, 'hv' + str(fresh('h')))
                    afin.append((obj, rows, off, lo, hi, a, q, w0, j, vsubst(t, {iat: j})))
                    continue
            if isinstance(t, E) and t.sort == 'R':
                t = without(t, s1)
            if t is None or any(rfn_name(t, b[1]) for b in arrs.values()) or sub_i and any(
                    contains(t, x) for x in sub_i):
                raise Unsupported('carried array is no sum')
            j = ivar(fresh('j'))
            afin.append((obj, rows, off, lo, hi, a, q, w0, j, vsubst(t, {iat: j})))
        if arrs:
            names = anames
            if posa:
                for e in ents_w(ents, lambda name, e: e.vars and self.array_key(name, e) in arrs):
                    sv = ms.copy()
                    for v_, lo_, hi_ in e[1].vars:
                        vv = mk('lin', (0, ((v_, 1),)), 'I')
                        sv.assume(ile(lo_, vv))
                        sv.assume(ilt(vv, hi_))
                    if isinstance(e[1].val, E):
                        n_ = e[1]
                        ents[ents.index(e)] = (e[0], W(without(n_.guard, sv), n_.vars, n_.rows, n_.off, without(n_.val, sv), n_.size))
            other = [stay] + [x[3] for x in carried]
            for name, e in ents:
                if e.vars and self.array_key(name, e) in arrs:
                    continue
                other += [e.val, e.guard, e.off] + list(e.rows)
            for x in other:
                if isinstance(x, Ptr):
                    x = x.off
                if isinstance(x, E) and any(rfn_name(x, nm) for nm in names):
                    raise Unsupported('carried array used elsewhere ' + show(x)[:300])
        # independence of iterations
        self.check_independent(ms, tr, ents, cells, i, n, st, arrs)
        # result
        outs, rets = [], []
        # (a) zero iterations
        nz = ile(1, n)
        if not self.entails(st, nz):
            s0 = st.copy()
            stay0 = subst(stay, {iat: 0})
            if self.feasible(s0, bnot(stay0)):
                s0.assume(bnot(stay0))
                item = self.jump(s0, env, frm, L.header, fn)
                r2, stops = self.run([item], fn, L)
                rets += r2
                for x in stops:
                    if x.target == L.header:
                        raise Unsupported('zero-trip case loops')
                    outs.append(x)
        if not self.feasible(st, nz):
            return rets, outs
        s = st.copy()
        s.assume(nz)
        memo = {}
        cellkeys = set(cells)
        for name, e in ents:
            if (name, e.rows, e.off) in cellkeys or e.vars and self.array_key(name, e) in arrs:
                continue
            val, g, off, rows = e.val, e.guard, e.off, e.rows
            if sub_i:
                val = vsubst(val, sub_i)
                g = subst(g, sub_i) if isinstance(g, E) else g
            base, log = self.getobj(s, name)
            s.mem[name] = (base, (W(g, ((iat, 0, n),) + tuple(e.vars), rows, off, val, e.size), log))
        for num, (obj, rows, off, lo, hi, a, q, w0, j, tj) in enumerate(afin):
            base, log = self.getobj(s, obj)
            if a[1] in posa:
                val = rite(bexists(j, n, tj), mk('rfn', ('pos#', rfn(posa[a[1]][3], n, q)), 'R'), w0)
            else:
                val = radd(w0, rsum(j, 0, n, tj)) if a[3] is rfn else ibor(w0, iors(j, n, tj))
            s.mem[obj] = (base, (W(True, ((the_atom(q), lo, hi),), rows, subst(off, {the_atom(a[0]): q}), val, a[2]), log))
        fin = {}
        for n_, k in kinds.items():
            fin[n_] = self.final_value(v0[n_], k, n, n_, syms, sub_i, iat)
        for key, c in cells.items():
            val = self.final_value(c[1], c[2], n, key, syms, sub_i, iat)
            if key in poss:
                j = ivar(fresh('j'))
                val = rite(bexists(j, n, vsubst(poss[key], {iat: j})), positive(), c[1])
            base, log = self.getobj(s, key[0])
            conc = isinstance(key[2], int) and all(isinstance(r, int) for r in key[1])
            if log is None and conc and not self.trackers:
                base = dict(base)
                base[(key[1], key[2])] = (val, c[3])
                s.mem[key[0]] = (base, None)
            else:
                s.mem[key[0]] = (base, (W(True, (), key[1], key[2], val, c[3]), log))
        self.summaries[(self.short.get(fn.name, fn.name), L.header)] = show(n)
        e2 = dict(env)
        e2.update(fin)
        # facts established by the path conditions of the iterations are lost (sound)
        sav = s.pc
        nstay = subst(stay, {iat: n})
        s.assume(bnot(nstay)) if not isinstance(nstay, bool) else None
        item = Item(s, e2, L.header, 0, frm)
        r2, stops = self.run([item], fn, L)
        rets += r2
        for x in stops:
            if x.target == L.header:
                if self.feasible(x.st):
                    if self.solver.check(list(x.st.pc)) == 'unsat':
                        continue
                raise Unsupported('loop continues after its trip count')
            outs.append(x)
        return rets, outs

    def isum(self, j, n, t):
        if isinstance(t, int):
            return iscale(n, t)
        if not contains(t, the_atom(j)):
            return imul(n, t)
        depth = 0
        for f in _ab(t):
            depth = max(depth, f + 1)
        bv = ivar(f'!b{depth}')
        return atom_int('isum', (bv, n, subst(t, {the_atom(j): bv})))

    def same(self, st, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj != b.obj:
                return False
            return all(self.same(st, x, y) for x, y in zip(a.rows + (a.off,), b.rows + (b.off,)))
        if isinstance(a, (Undef, IntPtr)) or isinstance(b, (Undef, IntPtr)):
            return a is b
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, E) and a.sort == 'B'):
            if a is b:
                return True
            x = bxor(a, b)
            return x is False or (isinstance(x, E) and self.entails(st, bnot(x)))
        if isinstance(a, E) and a.sort == 'R':
            return isinstance(b, E) and poly_equal(a, b)
        if isinstance(a, Agg):
            return isinstance(b, Agg) and all(self.same(st, x, y) for x, y in zip(a, b))
        c = ieq(a, b)
        if isinstance(c, bool):
            return c
        return self.entails(st, c)

    def carry_value(self, w0, k, i, key, syms):
        if k[0] == 'aff':
            if isinstance(k[1], int) and k[1] == 0:
                return w0
            return self.shift(w0, imul(i, k[1]))
        if k[0] == 'undef':
            return UNDEF
        if k[0] == 'stale':
            return Ptr('stale:' + fresh('p'), (), 0)
        if k[0] == 'last':
            v = vsubst(k[1], {the_atom(k[2]): i})
            if isinstance(v, Ptr) and not isinstance(w0, Undef):
                try:
                    return self.vite(ieq(i, 0), w0, v)
                except Unsupported:
                    return Ptr('stale:' + fresh('p'), (), 0)
            return self.vite(ieq(i, 0), w0, v) if not isinstance(w0, Undef) else v
        isr = isinstance(w0, E) and w0.sort == 'R'
        isb = isinstance(w0, bool) or (isinstance(w0, E) and w0.sort == 'B')
        if k[0] == 'acc':
            if isr:
                A = rvar(fresh('A'))
            elif isb:
                A = bvar(fresh('A'))
            elif isinstance(w0, (int, E)):
                A = ivar(fresh('A'))
            else:
                A = ivar(fresh('A'))
                syms[key] = A
                return w0
            syms[key] = A
            return A
        nm = 'hv' + str(fresh('h'))
        if isr:
            return rfn(nm, i)
        if isb:
            return bfn(nm, i)
        if isinstance(w0, (Ptr, IntPtr)):
            raise Unsupported('havoc pointer')
        return ifn(nm, i)

    def final_value(self, w0, k, n, key, syms, sub_i, iat):
        if k[0] == 'aff':
            if isinstance(k[1], int) and k[1] == 0:
                return w0
            return self.shift(w0, imul(n, k[1]))
        if k[0] == 'undef':
            return UNDEF
        if k[0] == 'stale':
            return Ptr('stale:' + fresh('p'), (), 0)
        if k[0] == 'last':
            return vsubst(k[1], {the_atom(k[2]): n})
        if k[0] == 'acc':
            v = sub_i[the_sym(syms[key])]
            return vsubst(v, {iat: n})
        isr = isinstance(w0, E) and w0.sort == 'R'
        isb = isinstance(w0, bool) or (isinstance(w0, E) and w0.sort == 'B')
        if isr:
            return rvar(fresh('hv'))
        if isb:
            return bvar(fresh('hv'))
        return ivar(fresh('hv'))

    def min_term(self, nxt, A, st):
        """nxt == the least of A and the constants k whose condition c holds, for
        conditions without A: [(c, k)], largest k first"""
        if not isinstance(nxt, E) or not isinstance(A, E) or nxt.sort != 'I' or A.sort != 'I' or not is_atom(A):
            return None
        at = the_atom(A)
        if at.op != 'iv':
            return None
        ks = set()
        seen, stk = set(), [nxt]
        while stk:
            x = stk.pop()
            if isinstance(x, int) and not isinstance(x, bool):
                ks.add(x)
            if not isinstance(x, E) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'lin' and is_atom(x):
                stk.append(the_atom(x))
            elif x.op == 'iite':
                stk += x.args[1:]
        out = []
        if ks:
            big = subst(nxt, {at: max(ks) + 1})
            for k in sorted(ks, reverse=True):
                c = ieq(big, k)
                if c is False:
                    continue
                if isinstance(c, bool) or contains(c, at):
                    return None
                out.append((c, k))
            r = A
            for c, k in out:
                r = iite(band(c, ilt(k, r)), k, r)
            if out and self.same(st, nxt, r):
                return out
        return None

    def pos_term(self, nxt, A, st, syms):
        """nxt == (c ? v : A) with c free of carried values and v positive (whatever A is): c.
        The final value is positive when some iteration satisfies c, the initial one otherwise."""
        if not isinstance(nxt, E) or nxt.sort != 'R' or not isinstance(A, E) or A.sort != 'R':
            return None
        at = the_sym(A)
        used = [the_sym(x) for x in syms.values() if isinstance(x, E)]

        lits, seen, stk = [], set(), [nxt]
        while stk:
            x = stk.pop()
            if not isinstance(x, E) or x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ('rite', 'iite', 'and', 'or', 'not'):
                stk.extend(children(x))
            elif x.sort == 'B' and not any(contains(x, u) for u in used):
                lits += [x, bnot(x)]
        for c in lits[:40]:
            s = st.copy()
            s.assume(bnot(c))
            if not self.entails(s, req(nxt, A)):
                continue
            s = st.copy()
            s.assume(c)
            if self.entails(s, rlt(R0, nxt)):
                return c
        return None

    def or_term(self, nxt, A):
        """nxt == A | t with t free of A: t"""
        if not isinstance(nxt, E) or nxt.sort != 'I' or not isinstance(A, E) or A.sort != 'I':
            return None
        if nxt is A:
            return 0
        if not is_atom(nxt):
            return None
        at, x = the_sym(A), the_atom(nxt)
        if x.op == 'iite':
            a, b = self.or_term(x.args[1], A), self.or_term(x.args[2], A)
            if a is None or b is None or contains(x.args[0], at):
                return None
            return iite(x.args[0], a, b)
        if x.op != 'ibor':
            return None
        found, t = False, 0
        for y in x.args:
            if y is A:
                found = True
            elif isinstance(y, E) and contains(y, at):
                z = self.or_term(y, A)
                if z is None:
                    return None
                found = True
                t = ibor(t, z)
            else:
                t = ibor(t, y)
        return t if found else None

    def acc_term(self, nxt, A, st):
        if isinstance(nxt, int):
            return None
        if not isinstance(nxt, E) or not isinstance(A, E) or nxt.sort != A.sort:
            return None
        at = the_sym(A)
        if nxt.sort == 'R':
            if nxt is A:
                return R0
            if nxt.op == 'rite':
                a = self.acc_term(nxt.args[1], A, st)
                b = self.acc_term(nxt.args[2], A, st)
                if a is None or b is None or contains(nxt.args[0], at):
                    return None
                return rite(nxt.args[0], a, b)
            z = subst(nxt, {at: R0})
            if poly_equal(nxt, radd(A, z)):
                return z
            return None
        if nxt.sort == 'I':
            d = isub(nxt, A)
            if not isinstance(d, E) or not contains(d, at):
                return d
            # ite
            c, items = nxt.args
            if len(items) == 1 and items[0][1] == 1 and items[0][0].op == 'iite' and c == 0:
                cc, x, y = items[0][0].args
                if contains(cc, at):
                    return None
                dx, dy = isub(x, A), isub(y, A)
                if not (isinstance(dx, E) and contains(dx, at)) and not (isinstance(dy, E) and contains(dy, at)):
                    return iite(cc, dx, dy)
        return None

    def array_key(self, name, e):
        v, lo, hi = e.vars[0]
        if len(e.vars) != 1:
            return None
        return (name, e.rows, subst(e.off, {v: ivar('!q0')}), lo, hi)

    def check_independent(self, ms, tr, ents, cells, i, n, st, arrs={}):
        iat = the_atom(i)
        j = ivar(fresh('k'))
        jm = {iat: j}
        by = {}
        for name, e in ents:
            if (name, e.rows, e.off) in cells or e.vars and self.array_key(name, e) in arrs:
                continue
            by.setdefault(name, []).append(e)
        if not by:
            return
        cellk = {}
        for (o, r, f) in cells:
            cellk.setdefault(o, []).append((r, f))
        base = [c for c in conj_relevant(st.pc)] + [ile(0, j), ilt(j, n), ile(0, i), ilt(i, n)]

        def ren(vars_):
            m = {}
            cs = []
            for (a, lo, hi) in vars_:
                nv = ivar(fresh('q'))
                m[a] = nv
                cs.append(ile(subst(lo, m), nv))
                cs.append(ilt(nv, subst(hi, m)))
            return m, cs

        def overlap(rows1, off1, extra1, e2, strict):
            m2, cs2 = ren(e2.vars)
            mm = dict(jm)
            r2 = [subst(subst(x, m2), mm) for x in e2.rows]
            o2 = subst(subst(e2.off, m2), mm)
            cs2 = [subst(c, mm) if isinstance(c, E) else c for c in cs2]
            conds = [ieq(a, b) for a, b in zip(rows1, r2)] + [ieq(off1, o2)]
            if any(c is False for c in conds):
                return False
            order = ilt(j, i) if strict else bnot(ieq(i, j))
            q = base + extra1 + cs2 + conds + [order]
            if any(c is False for c in q):
                return False
            return self.solver.check([c for c in q if c is not True]) != 'unsat'
        seen = set()
        for (name, rows, off, ty, rpc) in tr.reads:
            if name not in by:
                continue
            if (name, rows, off) in cells:
                continue
            k = (name, rows, off)
            if k in seen:
                continue
            seen.add(k)
            for e in by[name]:
                if overlap(list(rows), off, [c for c in conj_relevant(rpc)], e, True):
                    raise Unsupported(f'iteration reads {name}{list(rows)}+{off}, written by an earlier iteration {e}')
        for name, es in by.items():
            for e1 in es:
                m1, cs1 = ren(e1.vars)
                rows1 = [subst(x, m1) for x in e1.rows]
                off1 = subst(e1.off, m1)
                for e2 in es:
                    if overlap(rows1, off1, cs1, e2, False):
                        raise Unsupported(f'iterations write the same cell of {name}')
                for (nm, r, f, lo, hi) in arrs:
                    if nm != name:
                        continue
                    cs = [ile(lo, ivar('!q0')), ilt(ivar('!q0'), hi)]
                    conds = [ieq(a, b) for a, b in zip(rows1, r)] + [ieq(off1, f)]
                    if any(c is False for c in conds):
                        continue
                    if self.solver.check([c for c in base + cs + cs1 + conds if c is not True]) != 'unsat':
                        raise Unsupported('carried array overlaps array write')
                for (r, f) in cellk.get(name, ()):
                    conds = [ieq(a, b) for a, b in zip(rows1, r)] + [ieq(off1, f)]
                    if any(c is False for c in conds):
                        continue
                    if self.solver.check([c for c in base + cs1 + conds if c is not True]) != 'unsat':
                        raise Unsupported('carried cell overlaps array write')


def ents_w(ents, skip):
    return [x for x in ents if not skip(*x)]


def rfn_name(e, nm):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('rfn', 'ifn') and x.args[0] == nm:
            return True
        st.extend(children(x))
    return False


def _ab(e):
    import expr
    return expr._allbound(e)


def the_sym(A):
    if A.sort == 'I':
        return the_atom(A)
    return A


EMPTY = ({}, None)


class Tracker:
    def __init__(self, region, fn, mem, ivar_):
        self.region = region
        self.fn = fn
        self.mem = mem
        self.ivar = ivar_
        self.reads = []
        self.conds = set()
        self.generic = True
        self.opaque = False
        self.nalloc0 = 0

    def base(self, ex, name):
        """log node of the object at the start of the iteration (0: allocated in it)"""
        o = self.mem.get(name)
        if o is not None:
            return o[1]
        return 0 if ex.allocs.get(name, 0) > self.nalloc0 else None

    def exitcond(self, block, stay, st):
        self.conds.add((block, stay))


