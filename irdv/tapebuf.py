"""C09: the tape buffers. Files enter by contract (a call of fread, fwrite or
fseek is an event with its arguments); loops that do file access or exchange a
block are cut at their head with an invariant that is searched among linear
relations (and proved)."""
import os, itertools
from fun import *
from execu import Havoc, Item, Undef
import build

BUFS = ('op', 'loc', 'val', 'tay')
ELT = dict(op=1, loc=8, val=8, tay=8)
TYPE = dict(op=Ty('int', 8), loc=I64, val=DOUBLE, tay=DOUBLE)
UP = dict(op='Op', loc='Loc', val='Val', tay='Tay')


def source():
    t = '''#include <adolc/valuetape/tapeinfos.h>
#include <adolc/valuetape/infotype.h>
#include <adolc/adolcerror.h>
using namespace ADOLC::detail; using ADOLCError::ErrorType;
extern "C" {
size_t g_next(TapeInfos &t) { return t.nextBufferNumber; }
size_t g_last(TapeInfos &t) { return t.lastTayBlockInCore; }
double g_get_taylor(TapeInfos &t) { return t.get_taylor(); }
void g_write_scaylor(TapeInfos &t, double v, const char *f) { t.write_scaylor(v, f); }
void g_put_loc(TapeInfos &t, size_t v) { t.put_loc(v); }
void g_put_vals(TapeInfos &t, double *v, size_t n) { t.put_vals_notWriteBlock(v, n); }
double *g_get_val_v_f(TapeInfos &t, size_t n) { return t.get_val_v_f(n); }
double *g_get_val_v_r(TapeInfos &t, size_t n) { return t.get_val_v_r(n); }
void g_reset_val_r(TapeInfos &t) { t.reset_val_r(); }
'''
    for b in BUFS:
        t += f'''size_t g_{b}_pos(TapeInfos &t) {{ return t.{b}Buffer_.position(); }}
size_t g_{b}_cap(TapeInfos &t) {{ return t.{b}Buffer_.capacity(); }}
size_t g_{b}_num(TapeInfos &t) {{ return t.{b}Buffer_.numOnTape(); }}
void *g_{b}_buf(TapeInfos &t) {{ return t.{b}Buffer_.begin(); }}
FILE *g_{b}_file(TapeInfos &t) {{ return t.{b}Buffer_.file(); }}
size_t g_{b}_size(TapeInfos &t) {{ return t.stats[TapeInfos::{b.upper()}_BUFFER_SIZE]; }}
void g_{b}_put(TapeInfos &t, const char *f, size_t n) {{ t.put_block<{UP[b]}Info<TapeInfos, ErrorType>>(f, n); }}
'''
    for f in ('end_of_int', 'end_of_op', 'end_of_val'):
        t += f'int g_{f}() {{ return {f}; }}\n'
    return t + '}\n'


def sum3(v):
    return iadd(iadd(v[0], v[1]), v[2])


class TapeBuf(Fun):
    files_only = False
    cut_all = False  # also loops without file access
    triples, stride = False, 1
    lowers = uppers = ()      # bounds of loop variables worth trying
    hints = ()       # steps of loop variables worth trying

    def __init__(self, name, seed=1):
        p = os.path.join(build.workdir(), 'ghost_tape.cpp')
        s = source()
        if not os.path.exists(p) or open(p).read() != s:
            open(p, 'w').write(s)
        self.ghost = build.compile_ll(p)
        self.failures, self.loops, self.units = [], [], set()
        super().__init__(['valuetape/tapeinfos.cpp'], name, {}, seed)

    def new(self):
        self.ex = ex = Executor(self.mods + [self.ghost], dict(self.contracts))
        ex.maxu = 40
        for f in ('fread', 'fwrite', 'fseek'):
            ex.contracts[f] = self.io(f)
        ex.contracts['__assert_fail'] = self.failed_assert
        ex.contracts['strlen'] = lambda ex, st, a, ins: [(st, ivar(fresh('len')))]
        ex.contracts['ADOLCError::fail'] = self.failure
        ex.contracts['fclose'] = ex.contracts['remove'] = lambda ex, st, a, ins: [(st, ivar(fresh('rc:file')))]
        ex.contracts['fopen'] = self.fopen
        for n, f in ex.fn_index.items():
            ex.loop_hooks[f.name] = self.loop
        off = {}
        self.off = {}
        s0 = State()
        probe = {}
        ex.initfn['T0'] = lambda r, o, ty: probe.setdefault(o, Ptr(f'arg:TI{o}', (), 0)) if ty.k == 'ptr' else ivar(f'TI{o}') if ty.k == 'int' else None
        for b in BUFS:
            self.off[b, 'buf'] = int(self.get(s0, b, 'buf', 'T0').obj[6:])
            self.off[b, 'file'] = int(self.get(s0, b, 'file', 'T0').obj[6:])
        names = {self.off[b, 'buf']: Ptr('B' + b, (), 0) for b in BUFS}
        names.update({self.off[b, 'file']: Ptr('arg:?F' + b, (), 0) for b in BUFS})
        fld = {}
        for b in BUFS:
            for q in ('pos', 'cap', 'num', 'size'):
                fld[self.get(s0, b, q, 'T0')] = f'{b}.{q}'
        fld[self.g(s0, 'g_next', obj='T0')] = 'next'
        self.field = {int(the_atom(k).args[0][2:]): n for k, n in fld.items()}
        ex.initfn['TI'] = lambda r, o, ty: names.get(o) if ty.k == 'ptr' else ivar(self.field.get(o, f'TI{o}')) if ty.k == 'int' else None
        for b in BUFS:
            ex.initfn['B' + b] = (lambda b: lambda r, o, ty: rcell('B' + b, o) if ty.k == 'double' else None)(b)
        self.failures, self.loops = [], []
        return ex

    def g(self, st, name, *a, obj='TI'):
        f = next(f for n, f in self.ex.fn_index.items() if n == '@' + name)
        r = self.ex.call_function(st.copy(), f, [Ptr(obj, (), 0)] + list(a))
        if len(r) != 1:
            raise Unsupported(name)
        return r[0][1]

    def get(self, st, b, q, obj='TI'):
        return self.g(st, f'g_{b}_{q}', obj=obj)

    # ------------------------------------------------------------ contracts
    def io(self, name):
        def f(ex, st, a, ins):
            k = len(st.ev)
            rc = ivar(fresh(f'rc:{name}'))
            st.ev = st.ev + ((name,) + tuple(a) + (st.copy(),),)
            if name == 'fread' and isinstance(a[0], Ptr):
                st.mem[a[0].obj] = ({}, (Havoc(f'file:{a[0].obj}'), None))
            for t in ex.trackers:
                t.opaque = True
            return [(st, rc)]
        return f

    def fopen(self, ex, st, a, ins):
        st.ev = st.ev + (('fopen', a[0], a[1]),)
        return [(st, Ptr(f'arg:?NEW{len(st.ev)}', (), 0))]

    def failed_assert(self, ex, st, a, ins):
        ex.fails.append((st.pc, 'assertion'))
        return []

    def failure(self, ex, st, a, ins):
        self.failures.append(st.pc)
        return []

    def exchange(self, b, put):
        """put_block / get_*_block: the block border as an event"""
        def f(ex, st, a, ins):
            st.ev = st.ev + ((('put' if put else 'get'), b, a[-1] if put else None, st.copy()),)
            def setf(q, v):
                st_off = next(o for o, n in self.field.items() if n == f'{b}.{q}')
                ex.write(st, Ptr('TI', (), st_off), v, I64)
            if put:
                setf('num', iadd(self.get(st, b, 'num'), a[-1]))
                setf('pos', 0)
            else:
                n = ivar(fresh('got'))
                setf('pos', self.get(st, b, 'cap'))
                o = next(o for o, nm in self.field.items() if nm == 'next')
                ex.write(st, Ptr('TI', (), o), isub(self.g(st, 'g_next'), 1), I64)
                st.mem['B' + b] = ({}, (Havoc(f'block{len(st.ev)}:B{b}'), None))
            for t in ex.trackers:
                t.opaque = True
            return [(st, None)]
        return f

    IO = ('fread', 'fwrite', 'TapeInfos::get_tay_block_r')

    def does_io(self, f, bodies=None, depth=0):
        ex = self.ex
        f.parse()
        for bn, b in f.blocks.items():
            if bodies is not None and bn not in bodies:
                continue
            for ins in b.ins + ([b.term] if b.term is not None and b.term.op == 'invoke' else []):
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'global':
                    nm = ins.a[0][1]
                    sh = ex.short.get(nm, nm)
                    if sh in self.IO or 'put_block' in sh:
                        return True
                    h = ex.fn_index.get(nm) or f.module.functions.get(nm)
                    if h is not None and h is not f and depth < 5 and self.does_io(h, None, depth + 1):
                        return True
        return False

    # ---------------------------------------------------------------- loops
    def loop(self, ex, st, env, fn, L, frm):
        if not self.cut_all and not self.does_io(fn, L.body):
            return NotImplemented
        n = len(self.loops)
        self.loops.append(None)
        phis = [(ph.res, ph.ty) for ph in fn.blocks[L.header].phis]
        v0 = ex.phis(env, frm, L.header, fn)
        entry = st.copy()
        k = ivar(f'K{n}')
        step, sym, chg, havoc = {}, {}, set(), set()
        cands = None
        for attempt in range(30):
            s = entry.copy()
            s.ev = entry.ev + (('loop', n, k),)
            s.assume(ile(0, k))
            gen, vals = {}, {}
            for r, ty in phis:
                if ty.k == 'int':
                    gen[r] = iadd(v0[r], iscale(k, step[r])) if r in step else ivar(f'L{n}:{r}')
                    vals[r] = (gen[r], v0[r])
                elif isinstance(v0[r], Ptr):
                    o = iscale(k, step[r]) if r in step else iscale(ivar(f'L{n}:{r}'), self.stride)
                    gen[r] = Ptr(v0[r].obj, v0[r].rows, iadd(v0[r].off, o))
                    vals[r] = (o if r in step else ivar(f'L{n}:{r}'), 0)
                else:
                    raise Unsupported(f'loop state of type {ty}')
            for o in chg:
                v = ivar(f'L{n}:{self.field[o]}')
                ex.write(s, Ptr('TI', (), o), v, I64)
                vals[o] = (v, self.load(entry, Ptr('TI', (), o), I64))
            for o in havoc:
                s.mem[o] = ({}, (Havoc(f'file:{o}' if self.files_only else f'loop{n}:{o}'), None))
            if cands is not None:
                for c in cands.values():
                    s.assume(c[0])
            start = s.copy()
            e2 = dict(env)
            e2.update(gen)
            nf, nl = len(ex.fails), len(self.loops)
            rets, stops = ex.run([Item(s, e2, L.header, 0, None)], fn, L)
            back = [x for x in stops if x.target == L.header]
            outs = [x for x in stops if x.target != L.header]
            if not back:
                break
            news = [ex.phis(x.env, x.pred, L.header, fn) for x in back]

            def again():
                del ex.fails[nf:], self.loops[nl:]
            more = False
            for x in back:
                for o in self.field:
                    if o not in chg and ieq(self.load(x.st, Ptr('TI', (), o), I64), self.load(start, Ptr('TI', (), o), I64)) is not True:
                        chg.add(o)
                        more = True
                for o in x.st.mem:
                    if o != 'TI' and o not in havoc and x.st.mem[o] is not start.mem.get(o) and (o in start.mem or self.named(o)):
                        havoc.add(o)
                        more = True
            if more:
                again()
                continue
            for r, ty in phis:
                if r in step:
                    continue
                ds = []
                for nw in news:
                    if isinstance(nw[r], Ptr):
                        if (nw[r].obj, nw[r].rows) != (gen[r].obj, gen[r].rows):
                            raise Unsupported('pointer changes its array')
                        ds.append(isub(nw[r].off, gen[r].off))
                    else:
                        ds.append(isub(nw[r], gen[r]))
                if ds and all(isinstance(d, int) and d == ds[0] for d in ds):
                    step[r] = ds[0]
                    more = True
            if more:
                cands = None
                again()
                continue
            newvals = []
            for x, nw in zip(back, news):
                d = {r: (isub(nw[r].off, v0[r].off) if isinstance(nw[r], Ptr) else nw[r]) for r, ty in phis}
                for r in d:
                    if isinstance(nw[r], Ptr) and r not in step and self.stride != 1:
                        e = idiv(d[r], self.stride)
                        if ieq(iscale(e, self.stride), d[r]) is not True and ex.solver.check([q for q in x.st.pc if q is not True] + [bnot(ieq(iscale(e, self.stride), d[r]))]) != 'unsat':
                            raise Unsupported('pointer does not move by whole elements')
                        d[r] = e
                d.update({o: self.load(x.st, Ptr('TI', (), o), I64) for o in chg})
                d['#'] = iadd(k, 1)
                newvals.append(d)
            if cands is None:
                vals['#'] = (k, 0)
                cands = self.candidates(vals, entry, chg)
                again()
                continue
            keep = {}
            for nm, c in cands.items():
                if all(ex.solver.check([q for q in x.st.pc if q is not True] + [bnot(c[1](d))]) == 'unsat' for x, d in zip(back, newvals)):
                    keep[nm] = c
            if len(keep) < len(cands):
                cands = keep
                again()
                continue
            break
        else:
            raise Unsupported('no loop invariant found')
        if not back:
            news = []
        common = [c for c in (back[0].st.pc if back else ()) if c not in start.pc and all(c in x.st.pc for x in back)]
        own = {f'L{n}:'}
        common = [c for c in common if not self.local(c)]
        for x in outs:
            if common and step:
                x.st.assume(bor(ieq(k, 0), band(*[subst(c, {the_atom(k): isub(k, 1)}) for c in common])))
        self.loops[n] = dict(entry=entry, start=start, gen=gen, v0=v0, back=back, news=news, outs=outs, rets=rets, vals=vals, k=k, step=step, n=n)
        return rets, outs

    def named(self, o):
        return o in ('Bop', 'Bloc', 'Bval', 'Btay', 'S')

    def local(self, e):
        if isinstance(e, E):
            return e.op in ('iv', 'rv') and str(e.args[0]).startswith(('L', 'rc:')) or any(self.local(a) for a in e.args)
        if isinstance(e, (tuple, list)):
            return any(self.local(a) for a in e)
        return False

    def candidates(self, vals, entry, chg):
        """linear relations that hold at the entry of the loop"""
        c = {}
        sat = lambda f: f is True or f is not False and self.ex.solver.check([q for q in entry.pc if q is not True] + [bnot(f)]) == 'unsat'
        def add(nm, f):
            at0 = f({r: v0 for r, (_, v0) in vals.items()})
            if sat(at0):
                here = f({r: g for r, (g, _) in vals.items()})
                if here is not True:
                    c[nm] = (here, f)
        for r in vals:
            if r != '#':
                for h in self.hints:
                    add((r, repr(h)), lambda d, r=r, h=h: ieq(isub(d[r], vals[r][1]), imul(d['#'], h)))
            add(('nonneg', r), lambda d, r=r: ile(0, d[r]))
            for u in self.lowers:
                add((r, repr(u), '>='), lambda d, r=r, u=u: ile(u, d[r]))
            for u in self.uppers:
                add((r, repr(u), '<='), lambda d, r=r, u=u: ile(d[r], u))
            if r in self.field and self.field[r].endswith('.pos'):
                b = self.field[r][:3].rstrip('.')
                cap = ivar(f'{b}.cap')
                add(('cap', r), lambda d, r=r, cap=cap: ile(d[r], cap))
        keys = list(vals)
        if self.triples:
            for a, b, e in itertools.combinations([q for q in keys if q != '#'], 3):
                for k in itertools.product((1, 8), (1, -1, 8, -8), (1, -1, 8, -8)):
                    if 1 in map(abs, k):
                        add((a, b, e) + k, lambda d, q=(a, b, e), k=k: ieq(sum3([iscale(isub(d[r], vals[r][1]), m) for r, m in zip(q, k)]), 0))
        for a, b in itertools.combinations(keys, 2):
            for m in (1, -1, 8, -8):
                add((a, b, m), lambda d, a=a, b=b, m=m: ieq(isub(d[a], vals[a][1]), iscale(isub(d[b], vals[b][1]), m)))
                if m in (8, -8):
                    add((b, a, m), lambda d, a=a, b=b, m=m: ieq(isub(d[b], vals[b][1]), iscale(isub(d[a], vals[a][1]), m)))
        return c

    # ----------------------------------------------------------------- checks
    def facts(self, minimum=None):
        F = []
        for b in BUFS:
            cap, pos, num = [ivar(f'{b}.{q}') for q in ('cap', 'pos', 'num')]
            F += [ieq(ivar(f'{b}.size'), cap), ile((minimum or {}).get(b, 1), cap), ile(0, pos), ile(pos, cap), ile(0, num)]
        return F

    def go(self, tag, fname, args, facts, fn=None):
        self.failures, self.loops = [], []
        fn = fn or next((f for n, f in self.ex.fn_index.items() if n == '@' + fname), None)
        paths = self.call(tag, fname, [Ptr('TI', (), 0)] + args, facts, fn=fn)
        ok = [pc for pc, w in self.ex.fails if w == 'assertion' and self.ex.solver.check([c for c in pc if c is not True]) != 'unsat']
        self.prover.holds(self.ob(tag, 'buffer bounds'), not ok, (), f'an assertion can fail: {[show(c) for c in (ok or [()])[0] if c is not True][-6:]}'[:600])
        names = {}
        for pc in self.failures:
            for c in pc:
                self.rcs(c, names)
        good = [ieq(v, 1) if n.startswith(('rc:fread', 'rc:fwrite')) else ile(0, v) if n.startswith('rc:fseek') else ieq(v, 0) for n, v in names.items()]
        ok = [pc for pc in self.failures if self.ex.solver.check([c for c in pc if c is not True] + good) != 'unsat']
        self.prover.holds(self.ob(tag, 'fails only if an access fails'), not ok, (), f'{[show(c) for c in (ok or [()])[0] if c is not True][-6:]}'[:600])
        self.units.add(tag)
        return paths

    def rcs(self, e, out):
        if isinstance(e, E):
            if e.op == 'iv' and str(e.args[0]).startswith('rc:'):
                out[e.args[0]] = ivar(e.args[0])
            for a in e.args:
                self.rcs(a, out)
        elif isinstance(e, (tuple, list)):
            for a in e:
                self.rcs(a, out)

    def sure(self, tag, what, st, cond, detail=''):
        return self.valid(tag, what, [c for c in st.pc if c is not True], cond, detail)

    def others(self, tag, st, s0, *changed):
        for o, nm in self.field.items():
            if nm not in changed:
                self.sure(tag, 'unchanged:' + nm, st, ieq(self.load(st, Ptr('TI', (), o), I64), self.load(s0, Ptr('TI', (), o), I64)))

    def stream(self, tag, st, b, op, number, seek):
        """the accesses of the path move `number` elements between the buffer
        and the file, in order and without gaps"""
        P, T = self.prover, 0
        file = Ptr('arg:?F' + b, (), 0)
        sought = None
        ev = [e for e in st.ev if e[0] in ('fread', 'fwrite', 'fseek', 'loop')]
        for e in ev:
            if e[0] == 'fseek':
                P.holds(self.ob(tag, 'seek'), T == 0 and sought is None, (), 'seeks in the middle')
                sought = e
                self.is_file(tag, st, b, e[1])
                self.sure(tag, 'seek', st, band(ieq(e[2], seek), ieq(e[3], 0)) if seek is not None else False, f'seeks to {show(e[2]) if isinstance(e[2], E) else e[2]}')
            elif e[0] == op:
                T = self.access(tag, st, b, e, T)
            elif e[0] == 'loop':
                it, k = self.loops[e[1]], e[2]
                size = None
                for x in it['back']:
                    a = [q for q in x.st.ev[len(it['start'].ev):] if q[0] in ('fread', 'fwrite', 'fseek', 'loop')]
                    P.holds(self.ob(tag, 'one access'), len(a) == 1 and a[0][0] == op, (), f'{[q[0] for q in a]}')
                    if len(a) != 1 or a[0][0] != op:
                        continue
                    n = imul(a[0][2], a[0][3])
                    size = n if size is None else size
                    P.holds(self.ob(tag, 'chunk'), isinstance(n, int) and n == size, (), f'chunk {n}')
                    self.access(tag, x.st, b, a[0], iadd(T, imul(k, size)))
                T = iadd(T, imul(k, size if size is not None else 0))
            else:
                P.holds(self.ob(tag, 'accesses'), False, (), e[0])
        P.holds(self.ob(tag, 'seek'), (sought is None) == (seek is None), (), 'file position is not set')
        self.sure(tag, 'all elements', st, ieq(T, imul(number, ELT[b])), f'moves {show(T) if isinstance(T, E) else T} bytes')

    def is_file(self, tag, st, b, f):
        ok = isinstance(f, Ptr) and (f.obj == 'arg:?F' + b or f.obj.startswith('arg:?NEW'))
        self.prover.holds(self.ob(tag, 'file'), ok, (), f'{f!r}')

    def access(self, tag, st, b, e, T):
        p, n = e[1], imul(e[2], e[3])
        self.is_file(tag, st, b, e[4])
        ok = isinstance(p, Ptr) and p.obj == 'B' + b
        self.prover.holds(self.ob(tag, 'buffer'), ok, (), f'{p!r}')
        self.sure(tag, 'in order', st, ieq(p.off, T) if ok else False, f'at {show(p.off) if isinstance(p.off, E) else p.off} for {show(T) if isinstance(T, E) else T}')
        return iadd(T, n)

    def check_all(self):
        for name in self.PARTS:
            self.lowers, self.cut_all, self.hints, self.uppers, self.triples, self.stride = (), False, (), (), False, 1
            self.guard(name, getattr(self, name))


class Blocks(TapeBuf):
    """block exchange between buffer and file"""
    PARTS = ('forward', 'reverse', 'taylor', 'write')
    files_only = True  # a cell is read once: its content is that of the file

    def forward(self):
        for b in ('op', 'loc', 'val'):
            tag = f'get_{b}_block_f'
            s0 = State()
            cap, pos, num = [ivar(f'{b}.{q}') for q in ('cap', 'pos', 'num')]
            F = self.facts() + [ile(1, num)] + ([ilt(ivar('loc.pos'), ivar('loc.cap'))] if b == 'val' else [])
            number = iite(ilt(cap, num), cap, num)
            for st, v in self.go(tag, 'TapeInfos::' + tag, [], F, self.find('TapeInfos::' + tag)):
                self.stream(tag, st, b, 'fread', number, None)
                self.sure(tag, 'position', st, ieq(self.get(st, b, 'pos'), 0))
                self.sure(tag, 'number on tape', st, ieq(self.get(st, b, 'num'), isub(num, number)))
                ch = [f'{b}.pos', f'{b}.num']
                if b == 'val':
                    self.sure(tag, 'skips the count', st, ieq(self.get(st, 'loc', 'pos'), iadd(ivar('loc.pos'), 1)))
                    ch.append('loc.pos')
                self.others(tag, st, s0, *ch)

    def reverse(self):
        for b in ('op', 'loc', 'val'):
            tag = f'get_{b}_block_r'
            s0 = State()
            cap, pos, num = [ivar(f'{b}.{q}') for q in ('cap', 'pos', 'num')]
            F = self.facts() + [ile(cap, num)] + ([ile(1, ivar('loc.pos'))] if b == 'val' else [])
            self.asserted = False
            fn = self.find('TapeInfos::' + tag)
            left = None
            if b == 'val':
                left = self.load(s0, Ptr('Bloc', (), iscale(isub(ivar('loc.pos'), 1), 8)), I64)
            elif b == 'loc':
                left = self.ex.initial('Bloc', (), iscale(isub(cap, 1), 8), I64, 'file:Bloc')
            # the count of unused elements that was written with the block
            G = [ile(0, left), ile(left, cap)] if left is not None else []
            for st, v in self.go(tag, 'TapeInfos::' + tag, [], F + G, fn):
                self.stream(tag, st, b, 'fread', cap, imul(ELT[b], isub(num, cap)))
                self.sure(tag, 'position', st, ieq(self.get(st, b, 'pos'), cap if left is None else isub(cap, left)))
                self.sure(tag, 'number on tape', st, ieq(self.get(st, b, 'num'), isub(num, cap)))
                ch = [f'{b}.pos', f'{b}.num']
                if b == 'val':
                    self.sure(tag, 'takes the count', st, ieq(self.get(st, 'loc', 'pos'), isub(ivar('loc.pos'), 1)))
                    ch.append('loc.pos')
                self.others(tag, st, s0, *ch)

    def taylor(self):
        tag = 'get_tay_block_r'
        s0 = State()
        cap, nx = ivar('tay.cap'), ivar('next')
        for st, v in self.go(tag, 'TapeInfos::' + tag, [], self.facts() + [ile(0, nx)], self.find('TapeInfos::' + tag)):
            self.stream(tag, st, 'tay', 'fread', cap, imul(8, imul(nx, cap)))
            self.sure(tag, 'position', st, ieq(self.get(st, 'tay', 'pos'), cap))
            self.sure(tag, 'next block', st, ieq(self.g(st, 'g_next'), isub(nx, 1)))
            self.sure(tag, 'not in core', st, ieq(self.g(st, 'g_last'), 0))
            self.others(tag, st, s0, 'tay.pos', 'next')

    def write(self):
        for b in BUFS:
            tag = f'put_block<{b}>'
            s0 = State()
            n = ivar('n')
            F = self.facts() + [ile(0, n), ile(n, ivar(f'{b}.cap'))]
            for st, v in self.go(tag, f'g_{b}_put', [Ptr('NAME', (), 0), n], F):
                self.stream(tag, st, b, 'fwrite', n, None)
                self.sure(tag, 'position', st, ieq(self.get(st, b, 'pos'), 0))
                self.sure(tag, 'number on tape', st, ieq(self.get(st, b, 'num'), iadd(ivar(f'{b}.num'), n)))
                self.others(tag, st, s0, f'{b}.pos', f'{b}.num')


class Stack(TapeBuf):
    """the Taylor stack: what is written comes back in reverse order, whatever
    the size of the buffer. A block border is an event: put - the full buffer
    goes to the file; get - the previous block fills the buffer"""
    PARTS = ('one', 'write_taylor', 'write_scaylors', 'get_taylors', 'write_taylors', 'get_taylors_p')

    def new(self):
        ex = super().new()
        for nm, sh in ex.short.items():
            if '9put_block' in nm:
                ex.contracts[sh] = self.exchange(next(b for b in BUFS if UP[b] + 'Info' in nm), True)
        ex.contracts['TapeInfos::get_tay_block_r'] = self.exchange('tay', False)
        ex.initfn['S'] = lambda r, o, ty: rcell('S', o) if ty.k == 'double' else None
        return ex

    def cell(self, st, i):
        return self.load(st, Ptr('Btay', (), iscale(i, 8)))

    def src(self, st, i):
        return self.load(st, Ptr('S', (), iscale(i, 8)))

    def pos(self, st):
        return self.get(st, 'tay', 'pos')

    def borders(self, st, since=0):
        return [e for e in st.ev[since:] if e[0] in ('put', 'get')]

    def sat(self, st, *fs):
        s = st.copy()
        for f in fs:
            s.assume(f)
        return s if self.ex.solver.check([c for c in s.pc if c is not True]) != 'unsat' else None

    def same(self, tag, st, a, b, i, *fs, what='kept'):
        """cell i of the buffer is the same in both states"""
        s = self.sat(st, *fs)
        if s:
            self.prove(tag, what, [c for c in s.pc if c is not True], self.withpc(a, s, i), self.withpc(b, s, i))

    def withpc(self, a, s, i, f=None):
        t = a.copy()
        t.pc = s.pc
        return (f or self.cell)(t, i)

    def full(self, tag, st, e):
        self.sure(tag, 'whole block', st, ieq(e[2], ivar('tay.cap')), 'a block of another size')

    def one(self):
        i, v = ivar('i'), rvar('v')
        cap, pos = ivar('tay.cap'), ivar('tay.pos')
        tag, s0 = 'write_scaylor', State()
        for st, _ in self.go(tag, 'g_write_scaylor', [v, Ptr('NAME', (), 0)], self.facts()):
            ev = self.borders(st)
            self.prover.holds(self.ob(tag, 'borders'), len(ev) <= 1, (), '')
            self.sure(tag, 'border when full', st, ieq(pos, cap) if ev else ilt(pos, cap))
            for e in ev:
                self.full(tag, st, e)
            p = 0 if ev else pos
            self.sure(tag, 'position', st, ieq(self.pos(st), iadd(p, 1)))
            self.prove(tag, 'pushed', [c for c in st.pc if c is not True], self.cell(st, p), v)
            self.same(tag, st, st, s0, i, ile(0, i), ilt(i, cap), bnot(ieq(i, p)))
            self.others(tag, st, s0, 'tay.pos', 'tay.num')
        tag = 'get_taylor'
        for st, r in self.go(tag, 'g_get_taylor', [], self.facts()):
            ev = self.borders(st)
            self.prover.holds(self.ob(tag, 'borders'), len(ev) <= 1, (), '')
            self.sure(tag, 'border when empty', st, ieq(pos, 0) if ev else ilt(0, pos))
            p = isub(cap if ev else pos, 1)
            self.sure(tag, 'position', st, ieq(self.pos(st), p))
            self.prove(tag, 'popped', [c for c in st.pc if c is not True], r, self.cell(st, p))
            self.others(tag, st, s0, 'tay.pos', 'next')

    def progress(self, it):
        """the number of elements that were moved before this iteration: a loop
        variable that every iteration changes by what it moves"""
        amount = self.pos(it['start'])
        return amount

    def done(self, tag, it, amount):
        for r, (g, v) in it['vals'].items():
            if r in self.field or r == '#':
                continue
            for m in (1, -1):
                d = iscale(isub(g, v), m)
                if it['back'] and all(self.ex.solver.check([c for c in x.st.pc if c is not True] + [bnot(ieq(iscale(isub(
                        nw[r].off if isinstance(nw[r], Ptr) else nw[r], it['gen'][r].off if isinstance(it['gen'][r], Ptr) else g), m), amount))]) == 'unsat'
                        for x, nw in zip(it['back'], it['news'])):
                    return d
        self.prover.holds(self.ob(tag, 'progress'), False, (), 'no loop variable counts the elements')
        return None

    def write_taylor(self):
        self.pushes('write_taylor', 'TapeInfos::write_taylor')

    def write_scaylors(self):
        self.pushes('write_scaylors', 'TapeInfos::write_scaylors')

    def pushes(self, tag, fname):
        i, N = ivar('i'), ivar('N')
        cap = ivar('tay.cap')
        s0 = State()
        paths = self.go(tag, fname, [Ptr('S', (), 0), N, Ptr('NAME', (), 0)], self.facts() + [ile(0, N)], self.find(fname))
        D = {}
        for it in self.loops:
            p = self.pos(it['start'])
            D[it['n']] = d = self.done(tag, it, isub(cap, p))
            if d is None:
                return
            for x in it['back']:
                ev = self.borders(x.st, len(it['start'].ev))
                ok = len(ev) == 1 and ev[0][0] == 'put'
                self.prover.holds(self.ob(tag, 'one block'), ok, (), f'{len(ev)} borders')
                if not ok:
                    continue
                self.full(tag, x.st, ev[0])
                at = ev[0][3]
                s = self.sat(x.st, ile(0, i), ilt(i, isub(cap, p)))
                if s:
                    self.prove(tag, 'block content', [c for c in s.pc if c is not True], self.withpc(at, s, iadd(p, i)), self.withpc(s0, s, iadd(d, i), self.src))
                self.same(tag, x.st, at, it['start'], i, ile(0, i), ilt(i, p))
                self.sure(tag, 'position after block', x.st, ieq(self.pos(x.st), 0))
                self.others(tag, x.st, it['start'], 'tay.pos', 'tay.num')
        for st, _ in paths:
            ls = [e[1] for e in st.ev if e[0] == 'loop']
            ev = [e for e in self.borders(st)]
            self.prover.holds(self.ob(tag, 'borders'), not ev and len(ls) <= 1, (), 'a border outside the loop')
            p, d, b = (self.pos(self.loops[ls[0]]['start']), D[ls[0]], self.loops[ls[0]]['start']) if ls else (self.pos(s0), 0, s0)
            self.sure(tag, 'position', st, ieq(self.pos(st), iadd(p, isub(N, d))))
            self.sure(tag, 'fits', st, band(ile(d, N), ile(self.pos(st), cap)))
            s = self.sat(st, ile(0, i), ilt(i, isub(N, d)))
            if s:
                self.prove(tag, 'pushed', [c for c in s.pc if c is not True], self.cell(s, iadd(p, i)), self.withpc(s0, s, iadd(d, i), self.src))
            self.same(tag, st, st, b, i, ile(0, i), ilt(i, p))
            self.others(tag, st, b, 'tay.pos', 'tay.num')

    def get_taylors(self):
        tag, fname = 'get_taylors', 'TapeInfos::get_taylors'
        i, N = ivar('i'), ivar('N')
        s0 = State()
        paths = self.go(tag, fname, [Ptr('S', (), 0), N], self.facts() + [ile(0, N)], self.find(fname))
        D = {}
        for it in self.loops:
            p = self.pos(it['start'])
            D[it['n']] = d = self.done(tag, it, p)
            if d is None:
                return
            for x in it['back']:
                ev = self.borders(x.st, len(it['start'].ev))
                ok = len(ev) == 1 and ev[0][0] == 'get'
                self.prover.holds(self.ob(tag, 'one block'), ok, (), f'{len(ev)} borders')
                if not ok:
                    continue
                at = ev[0][3]
                s = self.sat(x.st, ile(0, i), ilt(i, p))
                if s:
                    self.prove(tag, 'rest of the block', [c for c in s.pc if c is not True], self.withpc(at, s, isub(isub(isub(N, d), 1), i), self.src),
                               self.withpc(it['start'], s, isub(isub(p, 1), i)))
                    self.sure(tag, 'inside', s, ile(0, isub(isub(isub(N, d), 1), i)))
                s = self.sat(x.st, bor(ilt(i, isub(isub(N, d), p)), ile(isub(N, d), i)))
                if s:
                    self.prove(tag, 'others kept', [c for c in s.pc if c is not True], self.src(s, i), self.withpc(it['start'], s, i, self.src))
                self.others(tag, x.st, it['start'], 'tay.pos', 'next')
        for st, _ in paths:
            ls = [e[1] for e in st.ev if e[0] == 'loop']
            self.prover.holds(self.ob(tag, 'borders'), not self.borders(st) and len(ls) <= 1, (), 'a border outside the loop')
            p, d, b = (self.pos(self.loops[ls[0]]['start']), D[ls[0]], self.loops[ls[0]]['start']) if ls else (self.pos(s0), 0, s0)
            R = isub(N, d)
            self.sure(tag, 'position', st, ieq(self.pos(st), isub(p, R)))
            self.sure(tag, 'available', st, band(ile(0, R), ile(R, p)))
            s = self.sat(st, ile(0, i), ilt(i, R))
            if s:
                self.prove(tag, 'popped', [c for c in s.pc if c is not True], self.src(s, isub(isub(R, 1), i)), self.withpc(b, s, isub(isub(p, 1), i)))
            s = self.sat(st, bor(ilt(i, 0), ile(R, i)))
            if s:
                self.prove(tag, 'others kept', [c for c in s.pc if c is not True], self.src(s, i), self.withpc(b, s, i, self.src))
            self.others(tag, st, b, 'tay.pos', 'next')

    # --------------------------------------------------- several directions
    def shifted(self, e, it, x, nw):
        """an expression over the loop state, at the end of the iteration"""
        m = {the_atom(it['k']): iadd(it['k'], 1)}
        for r, (g, v) in it['vals'].items():
            if isinstance(r, str) and r != '#' and r in nw and r not in it['step']:
                m[the_atom(g)] = isub(nw[r].off, it['v0'][r].off) if isinstance(nw[r], Ptr) else nw[r]
        return subst(e, m) if isinstance(e, E) else e

    def atstart(self, e, it):
        m = {the_atom(it['k']): 0}
        for r, (g, v) in it['vals'].items():
            if isinstance(r, str) and r != '#' and r not in it['step']:
                m[the_atom(g)] = v
        return subst(e, m) if isinstance(e, E) else e

    def nest(self, tag, first, stride, step, inner_n, outer_n, paths, element, tops_n=1):
        """element(inner iteration's end state) -> address of the element that
        is moved; checks that the addresses are those of a regular nest"""
        P = self.prover
        tops = {tuple(e[1] for e in st.ev if e[0] == 'loop')[:1] for st, _ in paths}
        outer = self.loops[min(tops)[0]] if len(tops) == 1 and min(tops) else None
        inner = {e[1] for x in outer['back'] for e in x.st.ev[len(outer['start'].ev):] if e[0] == 'loop'} if outer else ()
        P.holds(self.ob(tag, 'loops nest'), len(inner) == 1, (), f'{tops} around {inner}')
        if len(inner) != 1:
            return None
        inner = self.loops[min(inner)]
        at = None
        for x, nw in zip(inner['back'], inner['news']):
            a = element(x.st, inner)
            if a is None:
                return None
            if at is not None:
                self.sure(tag, 'same address', x.st, ieq(a, at))
            at = a
            self.sure(tag, 'next element', x.st, ieq(isub(self.shifted(a, inner, x, nw), a), step))
        base = self.atstart(at, inner)
        for st in [inner['entry']]:
            self.sure(tag, 'first element', st, ieq(self.atstart(base, outer), first))
        for x, nw in zip(outer['back'], outer['news']):
            ls = [e for e in x.st.ev[len(outer['start'].ev):]]
            P.holds(self.ob(tag, 'one inner loop'), [e[0] for e in ls] == ['loop'], (), f'{[e[0] for e in ls]}')
            if [e[0] for e in ls] == ['loop']:
                self.sure(tag, 'all of a direction', x.st, ieq(ls[0][2], inner_n))
            self.sure(tag, 'next direction', x.st, ieq(isub(self.shifted(base, outer, x, nw), base), stride))
        for st, _ in paths:
            ls = [e for e in st.ev if e[0] == 'loop']
            P.holds(self.ob(tag, 'one nest'), len(ls) == tops_n and ls[0][1] == outer['n'], (), '')
            self.sure(tag, 'all directions', st, ieq(ls[0][2], outer_n))
        return outer

    def write_taylors(self):
        tag, fname = 'write_taylors', 'TapeInfos::write_taylors'
        i, keep, deg, nd = ivar('i'), ivar('keep'), ivar('degree'), ivar('numDir')
        cap = ivar('tay.cap')
        s0 = State()
        paths = self.go(tag, fname, [Ptr('S', (), 0), keep, deg, nd, Ptr('NAME', (), 0)], self.facts() + [ile(0, keep), ile(0, nd), ile(0, deg)], self.find(fname))

        def element(st, it):
            b = it['start']
            ev = self.borders(st, len(b.ev))
            p = self.pos(b)
            ok = len(ev) <= 1 and all(e[0] == 'put' for e in ev)
            self.prover.holds(self.ob(tag, 'borders'), ok, (), '')
            self.sure(tag, 'border when full', st, ieq(p, cap) if ev else ilt(p, cap))
            for e in ev:
                self.full(tag, st, e)
                p = 0
            self.sure(tag, 'position', st, ieq(self.pos(st), iadd(p, 1)))
            self.same(tag, st, st, b, i, ile(0, i), ilt(i, cap), bnot(ieq(i, p)))
            self.others(tag, st, b, 'tay.pos', 'tay.num')
            v = self.cell(st, p)
            ok = isinstance(v, E) and v.op == 'rcell' and v.args[0] == 'S' and len(v.args) == 2
            self.prover.holds(self.ob(tag, 'pushed'), ok, (), f'pushes {v!r}')
            return v.args[1] if ok else None
        o = self.nest(tag, 0, iscale(iite(ilt(keep, deg), deg, keep), 8), 8, keep, nd, paths, element)
        for st, _ in paths if o else ():
            b = o['start']
            self.sure(tag, 'end', st, ieq(self.pos(st), self.pos(b)))
            self.same(tag, st, st, b, i, ile(0, i), ilt(i, cap))
            self.others(tag, st, b)

    def get_taylors_p(self):
        tag, fname = 'get_taylors_p', 'TapeInfos::get_taylors_p'
        i, deg, nd = ivar('i'), ivar('degree'), ivar('numDir')
        cap = ivar('tay.cap')
        s0 = State()
        self.cut_all = True
        self.hints = [iscale(deg, -8), iscale(deg, 8), deg, ineg(deg)]
        paths = self.go(tag, fname, [Ptr('S', (), 0), deg, nd], self.facts() + [ile(0, nd), ile(1, deg)], self.find(fname))

        def element(st, it):
            b = it['start']
            ev = self.borders(st, len(b.ev))
            p = self.pos(b)
            ok = len(ev) <= 1 and all(e[0] == 'get' for e in ev)
            self.prover.holds(self.ob(tag, 'borders'), ok, (), '')
            self.sure(tag, 'border when empty', st, ieq(p, 0) if ev else ilt(0, p))
            p = isub(cap if ev else p, 1)
            self.sure(tag, 'position', st, ieq(self.pos(st), p))
            self.others(tag, st, b, 'tay.pos', 'next')
            w = st.mem['S'][1]
            w = w[0] if w else None
            ok = w is not None and hasattr(w, 'val') and not w.vars and w.guard is True
            self.prover.holds(self.ob(tag, 'stored'), ok, (), f'{w!r}')
            if not ok:
                return None
            self.prove(tag, 'popped', [c for c in st.pc if c is not True], self.load(st, Ptr('S', (), w.off)), self.cell(st, p))
            s = self.sat(st, bnot(ieq(iscale(i, 8), w.off)))
            if s:
                self.prove(tag, 'others kept', [c for c in s.pc if c is not True], self.src(s, i), self.withpc(b, s, i, self.src))
            return w.off
        o = self.nest(tag, iscale(isub(imul(deg, nd), 1), 8), iscale(deg, -8), -8, isub(deg, 1), nd, paths, element, 2)
        for st, _ in paths if o else ():
            b = o['start']
            ev = self.borders(st)
            p = self.pos(b)
            self.prover.holds(self.ob(tag, 'borders'), len(ev) <= 1 and all(e[0] == 'get' for e in ev), (), '')
            self.sure(tag, 'border when empty', st, ieq(p, 0) if ev else ilt(0, p))
            p = isub(cap if ev else p, 1)
            self.sure(tag, 'position', st, ieq(self.pos(st), p))
            ls = [e for e in st.ev if e[0] == 'loop']
            it = self.loops[ls[1][1]]
            self.sure(tag, 'base points', st, ieq(ls[1][2], nd))
            base = None
            for x, nw in zip(it['back'], it['news']):
                self.prover.holds(self.ob(tag, 'borders'), not self.borders(x.st, len(it['start'].ev)), (), '')
                w = x.st.mem['S'][1]
                w = w[0] if w else None
                ok = w is not None and hasattr(w, 'val') and not w.vars and w.guard is True
                self.prover.holds(self.ob(tag, 'stored'), ok, (), f'{w!r}')
                if not ok:
                    continue
                self.prove(tag, 'base point', [c for c in x.st.pc if c is not True], self.load(x.st, Ptr('S', (), w.off)), self.withpc(st, x.st, p))
                self.sure(tag, 'first base point', it['entry'], ieq(self.atstart(w.off, it), 0))
                self.sure(tag, 'next base point', x.st, ieq(isub(self.shifted(w.off, it, x, nw), w.off), iscale(deg, 8)))
                s = self.sat(x.st, bnot(ieq(iscale(i, 8), w.off)))
                if s:
                    self.prove(tag, 'others kept', [c for c in s.pc if c is not True], self.src(s, i), self.withpc(it['start'], s, i, self.src))
                self.others(tag, x.st, it['start'])
            s = self.sat(it['entry'])
            self.prove(tag, 'others kept', [c for c in s.pc if c is not True], self.src(s, i), self.withpc(b, s, i, self.src))
            self.others(tag, st, b, 'tay.pos', 'next')


class Records(Stack):
    """the recording side: what is put on the tape is appended, block borders
    are marked so that both directions find their way"""
    PARTS = ('put_op', 'put_vals_writeBlock', 'get_val_space', 'simple')

    def at(self, st, b, i):
        return self.load(st, Ptr('B' + b, (), iscale(i, ELT[b])), TYPE[b])

    def code_of(self, name):
        f = next(f for n, f in self.ex.fn_index.items() if n == '@g_' + name)
        return self.ex.call_function(State(), f, [])[0][1]

    def equal(self, tag, what, st, a, b):
        if isinstance(a, E) and a.sort == 'R' or isinstance(b, E) and b.sort == 'R':
            self.prove(tag, what, [c for c in st.pc if c is not True], a, b)
        else:
            m = lambda x: x
            self.sure(tag, what, st, ieq(a, b), f'{a!r} is not {b!r}'[:200])

    def walk(self, tag, st, s0, script):
        """script(emit, put, event): replays the path against the expected
        appends; streams hold what has been appended so far"""
        ev = self.borders(st)
        pos = {b: self.get(s0, b, 'pos') for b in BUFS}
        cells = {b: [] for b in BUFS}
        cap = {b: ivar(f'{b}.cap') for b in BUFS}
        flushed = set()
        state = dict(i=0)
        i = ivar('i')

        def check(b, t):
            for k, v in cells[b]:
                if k == 'zeros':
                    s = self.sat(st, ile(v[0], i), ilt(i, v[1]))
                    if s:
                        self.equal(tag, f'{b} zeros', s, self.withpc(t, s, i, lambda q, j: self.at(q, b, j)), R0 if b in ('val', 'tay') else 0)
                elif k == 'src':
                    s = self.sat(st, ile(v[0], i), ilt(i, v[1]))
                    if s:
                        self.equal(tag, f'{b} values', s, self.withpc(t, s, i, lambda q, j: self.at(q, b, j)), self.src(s0, isub(i, v[0])))
                else:
                    self.equal(tag, f'{b} content', st, self.withpc(t, st, k, lambda q, j: self.at(q, b, j)), v)
            if b not in flushed:
                s = self.sat(st, ile(0, i), ilt(i, self.get(s0, b, 'pos')))
                if s:
                    self.equal(tag, f'{b} kept', s, self.withpc(t, s, i, lambda q, j: self.at(q, b, j)), self.at(s0, b, i))

        def nxt(b):
            return state['i'] < len(ev) and ev[state['i']][1] == b

        def flush(b):
            e = ev[state['i']]
            state['i'] += 1
            self.sure(tag, 'whole block', st, ieq(e[2], cap[b]), 'a block of another size')
            check(b, e[3])
            flushed.add(b)
            cells[b].clear()
            pos[b] = 0

        def put(b, v):
            self.sure(tag, f'{b} room', st, ilt(pos[b], cap[b]))
            cells[b].append((pos[b], v))
            pos[b] = iadd(pos[b], 1)

        def emit(x):
            if nxt('op') and self.sat(st, bnot(ieq(pos['op'], isub(cap['op'], 1)))) is None:
                self.sure(tag, 'op border', st, ieq(pos['op'], isub(cap['op'], 1)))
                put('op', self.code_of('end_of_op'))
                flush('op')
                put('op', self.code_of('end_of_op'))
            else:
                self.sure(tag, 'op border', st, ilt(pos['op'], isub(cap['op'], 1)))
            put('op', x)
        env = dict(emit=emit, put=put, flush=flush, nxt=nxt, pos=pos, cells=cells, cap=cap, need=lambda w, c: self.sure(tag, w, st, c))
        script(env)
        self.prover.holds(self.ob(tag, 'borders'), state['i'] == len(ev), (), f'{[e[:2] for e in ev]}')
        for b in ('op', 'loc', 'val'):
            self.sure(tag, f'{b} position', st, ieq(self.get(st, b, 'pos'), pos[b]))
            check(b, st)
        self.others(tag, st, s0, *[f'{b}.{q}' for b in ('op', 'loc', 'val') for q in ('pos', 'num')])

    def put_op(self):
        tag = 'put_op'
        op, res = ivar('OP'), ivar('reserve')
        F = self.facts(dict(op=4, loc=20, val=6)) + [ile(0, res), ile(iadd(res, 12), ivar('loc.cap')), ilt(ivar('loc.pos'), ivar('loc.cap')),
                                                     ilt(ivar('op.pos'), ivar('op.cap')), ile(0, op), ile(op, 255)]
        s0 = State()
        N = [Ptr('N%d' % k, (), 0) for k in range(3)]
        paths = self.go(tag, 'TapeInfos::put_op', [op] + N + [res], F, self.find('TapeInfos::put_op'))

        def script(v):
            pos, cap, cells = v['pos'], v['cap'], v['cells']
            full = ilt(isub(isub(cap['loc'], 10), res), pos['loc'])
            if v['nxt']('loc'):
                v['need']('loc border', full)
                left = isub(cap['loc'], pos['loc'])
                cells['loc'].append(('zeros', (pos['loc'], isub(cap['loc'], 1))))
                pos['loc'] = isub(cap['loc'], 1)
                v['put']('loc', left)
                v['flush']('loc')
                v['emit'](self.code_of('end_of_int'))
            else:
                v['need']('loc border', bnot(full))
            full = ilt(isub(cap['val'], 5), pos['val'])
            # the value border: the number of unused cells goes to the locations
            if any(e[1] == 'val' for e in self.borders(v['st'])):
                v['need']('val border', full)
                left = isub(cap['val'], pos['val'])
                v['put']('loc', left)
                cells['val'].append(('zeros', (pos['val'], cap['val'])))
                v['flush']('val')
                v['emit'](self.code_of('end_of_val'))
            else:
                v['need']('val border', bnot(full))
            v['emit'](op)
            v['need']('room for the record', band(ile(9, isub(isub(cap['loc'], pos['loc']), res)), ile(5, isub(cap['val'], pos['val']))))
        for st, _ in paths:
            self.walk(tag, st, s0, lambda v, st=st: script(dict(v, st=st)))

    def put_vals_writeBlock(self):
        tag = 'put_vals_writeBlock'
        n = ivar('n')
        F = self.facts(dict(op=4, loc=20, val=6)) + [ile(0, n), ile(n, isub(ivar('val.cap'), ivar('val.pos'))), ilt(ivar('loc.pos'), ivar('loc.cap')),
                                                     ilt(ivar('op.pos'), ivar('op.cap'))]
        s0 = State()
        paths = self.go(tag, 'TapeInfos::' + tag, [Ptr('S', (), 0), n, Ptr('N0', (), 0), Ptr('N1', (), 0)], F, self.find('TapeInfos::' + tag))

        def script(v):
            pos, cap, cells = v['pos'], v['cap'], v['cells']
            cells['val'].append(('src', (pos['val'], iadd(pos['val'], n))))
            pos['val'] = iadd(pos['val'], n)
            v['put']('loc', isub(cap['val'], pos['val']))
            v['flush']('val')
            v['emit'](self.code_of('end_of_val'))
        for st, _ in paths:
            self.walk(tag, st, s0, script)

    def get_val_space(self):
        tag = 'get_val_space'
        F = self.facts(dict(op=4, loc=20, val=6)) + [ilt(ivar('loc.pos'), ivar('loc.cap')), ilt(ivar('op.pos'), ivar('op.cap'))]
        s0 = State()
        for st, r in self.go(tag, 'TapeInfos::' + tag, [Ptr('N0', (), 0), Ptr('N1', (), 0)], F, self.find('TapeInfos::' + tag)):
            def script(v):
                pos, cap = v['pos'], v['cap']
                full = ilt(isub(cap['val'], 5), pos['val'])
                if v['nxt']('val'):
                    v['need']('val border', full)
                    v['put']('loc', isub(cap['val'], pos['val']))
                    v['flush']('val')
                    v['emit'](self.code_of('end_of_val'))
                else:
                    v['need']('val border', bnot(full))
                v['need']('space', ieq(r, isub(cap['val'], pos['val'])))
                v['need']('at least five', ile(5, r))
            self.walk(tag, st, s0, script)

    def simple(self):
        n = ivar('n')
        x = ivar('x')
        s0 = State()
        room = isub(ivar('val.cap'), ivar('val.pos'))
        for st, _ in self.go('put_loc', 'g_put_loc', [x], self.facts() + [ilt(ivar('loc.pos'), ivar('loc.cap'))]):
            self.walk('put_loc', st, s0, lambda v: v['put']('loc', x))
        def vals(v):
            p = v['pos']['val']
            v['cells']['val'].append(('src', (p, iadd(p, n))))
            v['pos']['val'] = iadd(p, n)
        for st, _ in self.go('put_vals', 'g_put_vals', [Ptr('S', (), 0), n], self.facts() + [ile(0, n), ile(n, room)]):
            self.walk('put_vals', st, s0, vals)
        for tag, new, at in (('get_val_v_f', iadd(ivar('val.pos'), n), ivar('val.pos')), ('get_val_v_r', isub(ivar('val.pos'), n), isub(ivar('val.pos'), n))):
            for st, r in self.go(tag, 'g_' + tag, [n], self.facts() + [ile(0, n), ile(n, room if tag[-1] == 'f' else ivar('val.pos'))]):
                self.sure(tag, 'first value', st, self.ex.ptr_eq(r, Ptr('Bval', (), iscale(at, 8))))
                self.sure(tag, 'position', st, ieq(self.get(st, 'val', 'pos'), new))
                self.others(tag, st, s0, 'val.pos')


class Params(Stack):
    """the parameters: taken from the store of the recording to the tape, at
    the end of the value stream, read back, skipped in reverse and replaced"""
    PARTS = ('set_param_vec', 'save_params', 'discard_params_r', 'read_params')
    VT = ''.join(f'{t} vt_{n}(ValueTape &v) {{ return {e}; }}\n' for t, n, e in (
        ('TapeInfos *', 'infos', '&v.tapeInfos_'), ('double *', 'ps', 'v.paramstore()'), ('double *', 'pp', 'v.pStore()'),
        ('size_t', 'gnp', 'v.numparam()'), ('size_t', 'np', 'v.tapestats(TapeInfos::NUM_PARAM)'), ('size_t', 'nv', 'v.tapestats(TapeInfos::NUM_VALUES)'),
        ('char *', 'name', 'v.val_fileName()')))
    triples = False

    def __init__(self, name, seed=1):
        self.have = True
        p = os.path.join(build.workdir(), 'ghost_valuetape.cpp')
        with open(p, 'w') as f:
            f.write('#include <adolc/valuetape/valuetape.h>\nextern "C" {\n' + self.VT + '}\n')
        self.more = [build.compile_ll(p, extra=('-fno-access-control',)), build.compile_ll('valuetape/valuetape.cpp')]
        super().__init__(name, seed)

    def new(self):
        mods = self.mods
        self.mods = mods + self.more
        ex = super().new()
        self.mods = mods
        s0 = State()
        self.D = self.g(s0, 'vt_infos', obj='T0').off
        base = Ptr('T1', (), 0)
        probe = {}
        ex.initfn['T1'] = lambda r, o, ty: Ptr(f'arg:@{o}', (), 0) if ty.k == 'ptr' else ivar(f'T1@{o}') if ty.k == 'int' else None
        inner = ex.initfn['TI']
        ptrs, ints = {}, {}
        for n in ('ps', 'pp', 'name'):
            ptrs[int(self.g(s0, 'vt_' + n, obj='T1').obj.split('@')[1]) - self.D] = n
        for n in ('gnp', 'np', 'nv'):
            ints[int(the_atom(self.g(s0, 'vt_' + n, obj='T1')).args[0].split('@')[1]) - self.D] = n
        self.psoff = next(o for o, n in ptrs.items() if n == 'ps')
        self.field.update(ints)
        obj = dict(ps='PS', pp='PP', name='NAME')

        def init(r, o, ty):
            if ty.k == 'ptr' and o in ptrs:
                return NULL if ptrs[o] == 'ps' and not self.have else Ptr(obj[ptrs[o]], (), 0)
            return ivar(ints[o]) if o in ints and ty.k == 'int' else inner(r, o, ty)
        ex.initfn['TI'] = init
        for n in ('PS', 'PP', 'VEC'):
            ex.initfn[n] = (lambda n: lambda r, o, ty: rcell(n, o) if ty.k == 'double' else None)(n)
        for f in ('ValueTape::openTape', 'ValueTape::finish_tay_file', 'ValueTape::free_all_taping_params'):
            ex.contracts[f] = (lambda f: lambda ex, st, a, ins: [(self.event(st, f), None)])(f)
        for f in ('operator new[]', 'operator delete[]'):
            ex.contracts[f] = (lambda f: lambda ex, st, a, ins: self.heap(f, ex, st, a))(f)
        return ex

    def event(self, st, *e):
        st.ev = st.ev + (tuple(e),)
        return st

    def heap(self, f, ex, st, a):
        if 'delete' in f:
            return [(self.event(st, 'free', a[0]), None)]
        p = ex.alloc(st, 'blk')
        return [(self.event(st, 'alloc', p.obj, a[0]), p)]

    def named(self, o):
        return super().named(o) or o in ('PS', 'PP') or o.startswith('blk')

    def vt(self, tag, fname, args, facts):
        """one run with parameters stored before, one without"""
        for self.have in (True, False):
            t = tag + ('' if self.have else '/first')
            # TapeInfos is a member of the value tape: `this` lies before it
            self.failures, self.loops = [], []
            paths = self.call(t, fname, [Ptr('TI', (), -self.D)] + args, self.facts() + [ile(0, ivar('np')), ile(0, ivar('nv')), ile(0, ivar('gnp'))] + facts,
                              fn=self.find(fname))
            ok = [pc for pc, w in self.ex.fails if w == 'assertion' and self.ex.solver.check([c for c in pc if c is not True]) != 'unsat']
            self.prover.holds(self.ob(t, 'buffer bounds'), not ok, (), 'an assertion can fail')
            self.units.add(t)
            for st, v in paths:
                yield t, st

    def at(self, st, p, i):
        return self.load(st, p.add(iscale(i, 8)))

    def store(self, st):
        return self.load(st, Ptr('TI', (), self.psoff), PTR)

    def only(self, tag, st, *objs):
        """no other array of the tape is written"""
        bad = sorted(o for o in st.mem if o.startswith(('B', 'PP', 'VEC', 'NAME')) and o not in objs and st.mem[o] != ({}, None))
        self.prover.holds(self.ob(tag, 'writes'), not bad, (), f'{bad}')

    def room(self, tag, st, np):
        """where the parameters are stored there is room for them"""
        ps = self.store(st)
        new = [e for e in st.ev if e[0] == 'alloc' and isinstance(ps, Ptr) and e[1] == ps.obj]
        fr = [e[1].obj for e in st.ev if e[0] == 'free' and isinstance(e[1], Ptr)]
        ok = isinstance(ps, Ptr) and ps is not NULL and ps.obj not in fr and (ps.obj == 'PS' and self.have or len(new) == 1)
        self.prover.holds(self.ob(tag, 'store'), bool(ok), (), f'{ps!r}')
        if new:
            self.sure(tag, 'store size', st, ieq(new[0][2], imul(8, np)), f'{new[0][2]}')
        return ps if ok else None

    def rest(self, tag, st, *changed):
        self.others(tag, st, State(), *changed)

    # --------------------------------------------------------------------
    def set_param_vec(self):
        i, n, np = ivar('i'), ivar('N'), ivar('np')
        for tag, st in self.vt('set_param_vec', 'ValueTape::set_param_vec', [ivar('tag'), n, Ptr('VEC', (), 0)], [ile(0, n)]):
            self.sure(tag, 'number', st, ieq(n, np))
            ps = self.room(tag, st, np)
            if ps is None:
                continue
            self.prover.holds(self.ob(tag, 'tape is opened'), [e[0] for e in st.ev if e[0].startswith('ValueTape')] == ['ValueTape::openTape', 'ValueTape::finish_tay_file'], (), '')
            s = self.sat(st, ile(0, i), ilt(i, np))
            if s:
                self.prove(tag, 'value', [c for c in s.pc if c is not True], self.at(s, ps, i), self.withpc(State(), s, i, lambda t, i: self.at(t, Ptr('VEC', (), 0), i)))
            self.only(tag, st)
            self.rest(tag, st)
        for pc in self.failures:
            ok = self.ex.solver.check([c for c in pc if c is not True] + [ieq(n, np)]) == 'unsat'
            self.prover.holds(self.ob('set_param_vec', 'refuses only a wrong number'), ok, (), '')
        ok = any(self.ex.solver.check([c for c in pc if c is not True] + [bnot(ieq(n, np))]) != 'unsat' for pc in self.failures)
        self.prover.holds(self.ob('set_param_vec', 'refuses a wrong number'), ok, (), '')

    def val(self, st, i):
        return self.load(st, Ptr('Bval', (), iscale(i, 8)))

    def save_params(self):
        i, np, cap = ivar('i'), ivar('gnp'), ivar('val.cap')
        s0 = State()
        pos = lambda st: self.get(st, 'val', 'pos')
        seen = set()
        self.uppers = (np,)
        for tag, st in self.vt('save_params', 'ValueTape::save_params', [], []):
            ps = self.room(tag, st, np)
            if ps is None:
                continue
            self.sure(tag, 'number', st, ieq(self.load(st, Ptr('TI', (), next(o for o, n in self.field.items() if n == 'np')), I64), np))
            s = self.sat(st, ile(0, i), ilt(i, np))
            if s:
                self.prove(tag, 'value', [c for c in s.pc if c is not True], self.at(s, ps, i), self.withpc(s0, s, i, lambda t, i: self.at(t, Ptr('PP', (), 0), i)))
            self.prover.holds(self.ob(tag, 'indices are released'), sum(e[0].endswith('free_all_taping_params') for e in st.ev) == 1, (), '')
            self.only(tag, st, 'Bval')
            self.rest(tag, st, 'np', 'val.pos', 'val.num')
            ls = [e[1] for e in st.ev if e[0] == 'loop']
            out = [e for e in self.borders(st)]
            self.prover.holds(self.ob(tag, 'borders'), not out and len(ls) <= 1, (), 'a border outside the loop')
            if not ls:
                p = ivar('val.pos')
                self.appended(tag, st, s0, ps, p, 0, np)
                self.sure(tag, 'position', st, band(ieq(pos(st), iadd(p, np)), ile(pos(st), cap)))
                continue
            it = self.loops[ls[0]]
            if not it['back']:
                self.sure(tag, 'nothing to do', st, ieq(np, 0))
                continue
            d = self.counter(it, np)
            self.prover.holds(self.ob(tag, 'progress'), d is not None, (), 'no loop variable counts the parameters')
            if d is None:
                continue
            self.sure(tag, 'all', st, ieq(it['gen'][d], np))
            self.sure(tag, 'position', st, ieq(pos(st), pos(it['start'])))
            self.sure(tag, 'starts', it['entry'], ieq(it['v0'][d], 0))
            if (tag, ls[0]) in seen:
                continue
            seen.add((tag, ls[0]))
            for x, nw in zip(it['back'], it['news']):
                ev = self.borders(x.st, len(it['start'].ev))
                self.prover.holds(self.ob(tag, 'one block'), len(ev) <= 1 and all(e[:2] == ('put', 'val') for e in ev), (), f'{len(ev)} borders')
                p, k = pos(it['start']), isub(nw[d], it['gen'][d])
                at = ev[0][3] if ev else x.st
                self.appended(tag, x.st, it['start'], ps, p, it['gen'][d], k, at)
                self.sure(tag, 'inside the buffer', x.st, band(ile(0, k), ile(iadd(p, k), cap)))
                for e in ev:
                    self.sure(tag, 'whole block', x.st, band(ieq(e[2], cap), ieq(iadd(p, k), cap)))
                self.sure(tag, 'position', x.st, ieq(pos(x.st), 0 if ev else iadd(p, k)))
                self.sure(tag, 'ends', x.st, bor(ilt(0, k), ilt(pos(x.st), p)))
                self.others(tag, x.st, it['start'], 'val.pos', 'val.num')

    def appended(self, tag, st, old, ps, p, d, k, at=None):
        at = st if at is None else at
        i = ivar('i')
        s = self.sat(st, ile(0, i), ilt(i, k))
        if s:
            self.prove(tag, 'appended', [c for c in s.pc if c is not True], self.withpc(at, s, iadd(p, i), self.val), self.withpc(st, s, iadd(d, i), lambda t, i: self.at(t, ps, i)))
        s = self.sat(st, ile(0, i), ilt(i, p))
        if s:
            self.prove(tag, 'earlier values', [c for c in s.pc if c is not True], self.withpc(at, s, i, self.val), self.withpc(old, s, i, self.val))

    def counter(self, it, total, start=0):
        """the loop variable that runs from start"""
        for r in it['v0']:
            if not isinstance(it['v0'][r], Ptr) and not isinstance(it['gen'][r], Ptr):
                s = it['entry']
                if self.ex.solver.check([c for c in s.pc if c is not True] + [bnot(ieq(it['v0'][r], start))]) == 'unsat' and any(
                        self.ex.solver.check([c for c in x.st.pc if c is not True] + [bnot(ieq(it['gen'][r], nw[r]))]) != 'unsat' for x, nw in zip(it['back'], it['news'])):
                    return r
        return None

    # ------------------------------------------------------- reading it back
    def block(self, tag, st, ev, obj, number, seek, want):
        """these accesses fill cells 0..number of the array from that place of the file"""
        P, T, sought = self.prover, 0, False
        for e in ev:
            if e[0] == 'fseek':
                P.holds(self.ob(tag, 'seek'), not sought and T == 0, (), 'seeks in the middle')
                sought = True
                self.sure(tag, 'seek', st, band(ieq(e[2], imul(8, seek)), ieq(e[3], 0)), f'seeks to {e[2]}')
            elif e[0] == 'fread':
                T = self.chunk(tag, st, e, obj, T)
            elif e[0] == 'loop':
                it, k, size = self.loops[e[1]], e[2], None
                for x in it['back']:
                    a = [q for q in x.st.ev[len(it['start'].ev):] if q[0] in ('fread', 'fwrite', 'fseek', 'loop')]
                    P.holds(self.ob(tag, 'one access'), len(a) == 1 and a[0][0] == 'fread', (), f'{[q[0] for q in a]}')
                    if len(a) == 1 and a[0][0] == 'fread':
                        size = imul(a[0][2], a[0][3])
                        P.holds(self.ob(tag, 'chunk'), isinstance(size, int), (), f'{size}')
                        self.chunk(tag, x.st, a[0], obj, iadd(T, imul(k, size)))
                T = iadd(T, imul(k, size if size is not None else 0))
        P.holds(self.ob(tag, 'seek'), sought or not want, (), 'file position is not set')
        self.sure(tag, 'all elements', st, ieq(T, imul(number, 8)), f'reads {T} bytes')

    def chunk(self, tag, st, e, obj, T):
        ok = isinstance(e[1], Ptr) and e[1].obj == obj
        self.prover.holds(self.ob(tag, 'buffer'), ok, (), f'{e[1]!r}')
        self.sure(tag, 'in order', st, ieq(e[1].off, T) if ok else False, f'at {e[1]!r}')
        return iadd(T, imul(e[2], e[3]))

    def io_events(self, st, since=0):
        return [e for e in st.ev[since:] if e[0] in ('fread', 'fwrite', 'fseek', 'loop')]

    def discard_params_r(self):
        np, cap = ivar('np'), ivar('val.cap')
        pos, num = (lambda st: self.get(st, 'val', 'pos')), (lambda st: self.get(st, 'val', 'num'))
        self.triples = True
        self.uppers = (np,)
        tag, s0, seen = 'discard_params_r', State(), False
        for tag, st in self.vt(tag, 'ValueTape::' + tag, [], [ile(np, iadd(ivar('val.pos'), ivar('val.num')))]):
            self.sure(tag, 'place', st, ieq(iadd(pos(st), num(st)), isub(iadd(ivar('val.pos'), ivar('val.num')), np)))
            self.rest(tag, st, 'val.pos', 'val.num')
            ls = [e[1] for e in st.ev if e[0] == 'loop']
            self.prover.holds(self.ob(tag, 'accesses'), len(ls) == 1 and len(self.io_events(st)) == 1, (), 'reads outside the loop')
            if not seen and ls:
                it = self.loops[ls[0]]
                for x in it['back']:
                    ev = self.io_events(x.st, len(it['start'].ev))
                    if not ev:
                        self.sure(tag, 'same block', x.st, ieq(num(x.st), num(it['start'])))
                        continue
                    self.sure(tag, 'earlier block', x.st, ieq(num(x.st), isub(num(it['start']), cap)))
                    self.sure(tag, 'taken before', x.st, ieq(pos(x.st), cap))
                    for e in ev:
                        if e[0] != 'loop':
                            self.is_file(tag, x.st, 'val', e[1] if e[0] == 'fseek' else e[4])
                    self.block(tag, x.st, ev, 'Bval', cap, num(x.st), True)
                seen = True
            self.only(tag, st, 'Bval')

    def read_params(self):
        """PS[i] = value stream[NV - np + i]. The stream is known through the
        blocks that were read: cells 0..c of the array hold stream[b..b+c)"""
        i, np, nv, cap = ivar('i'), ivar('np'), ivar('nv'), ivar('val.cap')
        rest = imod(nv, ivar('val.size'))
        self.triples, self.uppers, self.lowers, self.stride = True, (np,), (isub(0, rest),), 8
        seen = False
        for tag, st in self.vt('read_params', 'ValueTape::read_params', [], [ile(np, nv), ile(0, rest), ilt(rest, cap)]):
            ps = self.room(tag, st, np)
            if ps is None:
                continue
            self.only(tag, st)
            self.rest(tag, st)
            own = [e for e in st.ev if e[0] == 'alloc' and e[1] != ps.obj]
            self.prover.holds(self.ob(tag, 'one block of memory'), len(own) == 1, (), '')
            if len(own) != 1:
                continue
            vb = own[0][1]
            self.sure(tag, 'size of the block', st, ieq(own[0][2], imul(8, cap)))
            self.prover.holds(self.ob(tag, 'released'), [e[1].obj for e in st.ev if e[0] == 'free' and isinstance(e[1], Ptr)] == [vb], (), '')
            ls = [k for k, e in enumerate(st.ev) if e[0] == 'loop']
            # the last loop is the one over the blocks
            main = [k for k in ls if any(any(q[0] == 'fseek' for q in x.st.ev[len(self.loops[st.ev[k][1]]['start'].ev):]) for x in self.loops[st.ev[k][1]]['back'])]
            none = not main and ls and not self.loops[st.ev[ls[-1]][1]]['back']
            if none:
                self.sure(tag, 'nothing to do', st, ieq(np, 0))
                continue
            if len(main) != 1:
                self.prover.holds(self.ob(tag, 'loop over the blocks'), False, (), f'{len(main)}')
                continue
            it = self.loops[st.ev[main[0]][1]]
            pre = [e for e in st.ev[:main[0]] if e[0] in ('fread', 'fwrite', 'fseek', 'loop')]
            self.prover.holds(self.ob(tag, 'accesses'), not self.io_events(st, main[0] + 1), (), 'reads after the loop')
            self.block(tag, st, pre, vb, rest, isub(nv, rest), True)
            ent = [c for c in it['entry'].pc if c is not True]
            eq = lambda a, b: self.ex.solver.check(ent + [bnot(ieq(a, b))]) == 'unsat'
            ip = [r for r, v in it['v0'].items() if not isinstance(v, Ptr) and eq(v, np)]
            cv = [r for r, v in it['v0'].items() if isinstance(v, Ptr) and v.obj == vb and eq(v.off, imul(8, rest))]
            bs = [r for r, v in it['v0'].items() if not isinstance(v, Ptr) and eq(v, isub(nv, rest))]
            self.prover.holds(self.ob(tag, 'loop variables'), bool(ip and cv and bs), (), f'{ip} {cv} {bs}')
            if not (ip and cv and bs):
                continue
            (ip, cv, bs), g, s1 = (ip[0], cv[0], bs[0]), it['gen'], it['start']
            c = idiv(g[cv].off, 8)
            # cell j of the array is stream[base + j]: the parameter i is in cell i + nv - np - base
            place = lambda j: isub(iadd(j, isub(nv, np)), g[bs])
            arr = lambda t, j: self.at(t, Ptr(vb, (), 0), j)
            par = lambda t, j: self.at(t, ps, j)

            def copied(x, newip):
                s = self.sat(x, ile(newip, i), ilt(i, g[ip]))
                if s:
                    self.prove(tag, 'value', [q for q in s.pc if q is not True], self.withpc(x, s, i, par), self.withpc(s1, s, place(i), arr))
                    self.sure(tag, 'inside the block', s, band(ile(0, place(i)), ilt(imul(8, place(i)), g[cv].off)))
                s = self.sat(x, ile(g[ip], i), ilt(i, np))
                if s:
                    self.prove(tag, 'kept', [q for q in s.pc if q is not True], self.withpc(x, s, i, par), self.withpc(s1, s, i, par))
            copied(st, 0)
            if seen:
                continue
            for x, nw in zip(it['back'], it['news']):
                copied(x.st, nw[ip])
                ev = self.io_events(x.st, len(s1.ev))
                if ev:
                    self.block(tag, x.st, ev, vb, cap, nw[bs], True)
                    self.sure(tag, 'earlier block', x.st, band(ieq(nw[bs], isub(g[bs], cap)), ieq(nw[cv].off, imul(8, cap))))
                else:
                    self.sure(tag, 'same block', x.st, ieq(nw[bs], g[bs]))
            seen = not self.have
