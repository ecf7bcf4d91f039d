"""Per-opcode verification of the tape interpreters (forward and reverse
sweeps): runs the prologue of the real driver function up to the loop that
dispatches on the opcode, generalises the state (every array cell and every
integer of the state becomes arbitrary), and executes one iteration for a given
opcode and operand aliasing."""
import re, time
from execu import *
import execu, build
from llparse import Ty

D = Ty('double')
I64 = Ty('int', 64)
P64 = Ty('ptr')


def find_dispatch_loop(ex, fn, opnames=('ValueTape::get_op_f', 'ValueTape::get_op_r')):
    """the outermost loop of fn that (directly or through callees) reads opcodes"""
    succ, pred, loops, num = analyse_cfg(fn)
    reach = {}

    def calls_op(f, depth=0):
        if f.name in reach:
            return reach[f.name]
        reach[f.name] = False
        f.parse()
        r = False
        for b in f.blocks.values():
            for ins in b.ins + ([b.term] if b.term is not None and b.term.op == 'invoke' else []):
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'global':
                    nm = ins.a[0][1]
                    if ex.short.get(nm) in opnames:
                        r = True
                    elif nm in f.module.functions and depth < 4:
                        if ex.short.get(nm) in ex.contracts:
                            continue
                        r = calls_op(f.module.functions[nm], depth + 1) or r
        reach[f.name] = r
        return r

    best = None
    for h, L in loops.items():
        hit = False
        for bn in L.body:
            b = fn.blocks[bn]
            for ins in b.ins + ([b.term] if b.term is not None and b.term.op == 'invoke' else []):
                if ins.op in ('call', 'invoke') and ins.a[0][0] == 'global':
                    nm = ins.a[0][1]
                    if ex.short.get(nm) in opnames:
                        hit = True
                    elif nm in fn.module.functions and ex.short.get(nm) not in ex.contracts:
                        if calls_op(fn.module.functions[nm]):
                            hit = True
        if hit and (best is None or len(L.body) > len(best.body)):
            best = L
    return best


# ------------------------------------------------------------------ contracts
GH = 'GH'     # ghost object: 0 loc reads, 8 val reads, 16 op reads, 24 taylor stack pointer
LOCF = 'LOC'
VALF = 'VAL'
TAY = 'TAY'   # taylor stack contents (relative position)


def gget(ex, st, off):
    sv, ex.trackers = ex.trackers, ex.trackers
    return ex.load1(st, Ptr(GH, (), off), I64)


def gset(ex, st, off, v):
    ex.write(st, Ptr(GH, (), off), v, 8)


def c_locint(ex, st, a, ins):
    n = gget(ex, st, 0)
    v = ex.load1(st, Ptr(LOCF, (), iscale(n, 8)), I64)
    gset(ex, st, 0, iadd(n, 1))
    return [(st, v)]


def c_val(ex, st, a, ins):
    n = gget(ex, st, 8)
    v = ex.load1(st, Ptr(VALF, (), iscale(n, 8)), D)
    gset(ex, st, 8, iadd(n, 1))
    return [(st, v)]


def c_val_v(ex, st, a, ins):
    """get_val_v_f(size): pointer to size consecutive values"""
    n = gget(ex, st, 8)
    gset(ex, st, 8, iadd(n, a[1]))
    return [(st, Ptr(VALF, (), iscale(n, 8)))]


def c_op(ex, st, a, ins):
    n = gget(ex, st, 16)
    gset(ex, st, 16, iadd(n, 1))
    return [(st, ifn('OPC', n))]


def c_write_scaylor(ex, st, a, ins):
    n = gget(ex, st, 24)
    ex.write(st, Ptr(TAY, (), iscale(n, 8)), a[1], 8)
    gset(ex, st, 24, iadd(n, 1))
    return [(st, None)]


def block_copy(ex, st, dst, src, n):
    """dst[0..n) = src[0..n) (doubles), n symbolic"""
    if isinstance(n, int):
        for k in range(n):
            ex.write(st, dst.add(8 * k), ex.load1(st, src.add(8 * k), D), 8)
        return
    j = ivar(fresh('j'))
    v = ex.load1(st, src.add(iscale(j, 8)), D)
    q = dst.add(iscale(j, 8))
    base, log = ex.getobj(st, dst.obj)
    st.mem[dst.obj] = (base, (W(True, ((the_atom(j), 0, n),), q.rows, q.off, v, 8), log))


def c_write_taylor(ex, st, a, ins):
    """write_taylor(ptr, keep[, name]): pushes ptr[0..keep)"""
    n = gget(ex, st, 24)
    block_copy(ex, st, Ptr(TAY, (), iscale(n, 8)), a[1], a[2])
    gset(ex, st, 24, iadd(n, a[2]))
    return [(st, None)]


def c_write_taylors(ex, st, a, ins):
    """write_taylors(ptr, keep, degree, numDir): for each direction pushes the
    first keep of degree coefficients"""
    _, p, keep, degree, numdir = a[:5]
    n = gget(ex, st, 24)
    if isinstance(keep, int) and not isinstance(numdir, int):
        i = ivar(fresh('d'))
        for k in range(keep):
            v = ex.load1(st, p.add(iadd(iscale(imul(i, degree), 8), 8 * k)), D)
            base, log = ex.getobj(st, TAY)
            off = iadd(iscale(iadd(n, imul(i, keep)), 8), 8 * k)
            st.mem[TAY] = (base, (W(True, ((the_atom(i), 0, numdir),), (), off, v, 8), log))
    elif isinstance(numdir, int):
        for i in range(numdir):
            block_copy(ex, st, Ptr(TAY, (), iscale(iadd(n, imul(i, keep)), 8)), p.add(iscale(imul(i, degree), 8)), keep)
    else:
        raise Unsupported('write_taylors symbolic')
    gset(ex, st, 24, iadd(n, imul(keep, numdir)))
    return [(st, None)]


def c_get_taylor(ex, st, a, ins):
    n = isub(gget(ex, st, 24), 1)
    gset(ex, st, 24, n)
    return [(st, ex.load1(st, Ptr(TAY, (), iscale(n, 8)), D))]


def c_get_taylors(ex, st, a, ins):
    """get_taylors(ptr, degree): pops degree values, ptr[0..degree) in push order"""
    n = isub(gget(ex, st, 24), a[2])
    gset(ex, st, 24, n)
    block_copy(ex, st, a[1], Ptr(TAY, (), iscale(n, 8)), a[2])
    return [(st, None)]


def c_get_taylors_p(ex, st, a, ins):
    """get_taylors_p(ptr, degree, numDir): pops 1 + numDir*(degree-1) values;
    ptr[j*degree] = base value for all j, ptr[j*degree+i] the others"""
    _, p, deg, nd = a[:4]
    if not isinstance(deg, int):
        raise Unsupported('get_taylors_p symbolic degree')
    tot = iadd(1, imul(nd, deg - 1))
    n = isub(gget(ex, st, 24), tot)
    gset(ex, st, 24, n)
    j = ivar(fresh('d'))
    for i in range(deg):
        if i == 0:
            v = ex.load1(st, Ptr(TAY, (), iscale(n, 8)), D)
        else:
            v = ex.load1(st, Ptr(TAY, (), iscale(iadd(iadd(n, i), imul(j, deg - 1)), 8)), D)
        q = p.add(iadd(iscale(j, 8 * deg), 8 * i))
        base, log = ex.getobj(st, p.obj)
        if isinstance(nd, int):
            for jj in range(nd):
                m = {the_atom(j): jj}
                ex.write(st, Ptr(q.obj, q.rows, subst(q.off, m)), subst(v, m), 8)
        else:
            st.mem[p.obj] = (base, (W(True, ((the_atom(j), 0, nd),), q.rows, q.off, v, 8), log))
    return [(st, None)]


def c_nan(ex, st, a, ins):
    return [(st, NAN)]


def c_inf(ex, st, a, ins):
    return [(st, INF)]


def c_findtape(ex, st, a, ins):
    return [(st, Ptr('TAPE', (), 0))]


def c_noop(ex, st, a, ins):
    return [(st, None)]


def c_tapestats(ex, st, a, ins):
    if len(a) == 2 and ins.ty.k == 'int':
        return [(st, ifn('stat', a[1]))]
    return NotImplemented


def c_myalloc(dims):
    def f(ex, st, a, ins):
        p = ex.alloc(st, 'arr')
        ex.dims[p.obj] = [x for x in a if not isinstance(x, Ptr)][:dims]
        if dims > 1:
            nm = p.obj
            ex.initfn[nm] = lambda rows, off, ty: (Ptr(nm + '*', rows + (off,), 0) if ty.k == 'ptr' else None)
        return [(st, p)]
    return f


def c_param(ex, st, a, ins):
    return [(st, Ptr('PARAM', (), 0))]


def evblock(kind):
    def f(ex, st, a, ins):
        st.ev = st.ev + ((kind, ()),)
        for t in ex.trackers:
            t.opaque = True
        return [(st, None)]
    return f


INTERP_CONTRACTS = {
    'ValueTape::get_locint_f': c_locint, 'ValueTape::get_locint_r': c_locint,
    'ValueTape::get_val_f': c_val, 'ValueTape::get_val_r': c_val,
    'ValueTape::get_val_v_f': c_val_v, 'ValueTape::get_val_v_r': c_val_v,
    'ValueTape::get_op_f': c_op, 'ValueTape::get_op_r': c_op,
    'ValueTape::write_scaylor': c_write_scaylor, 'ValueTape::write_taylor': c_write_taylor,
    'ValueTape::write_taylors': c_write_taylors, 'ValueTape::write_scaylors': c_write_taylor,
    'ValueTape::get_taylor': c_get_taylor, 'ValueTape::get_taylors': c_get_taylors,
    'ValueTape::get_taylors_p': c_get_taylors_p,
    'ValueTape::make_nan': c_nan, 'ValueTape::make_inf': c_inf,
    'findTape': c_findtape, 'ValueTape::init_sweep': c_noop, 'ValueTape::end_sweep': c_noop,
    'ValueTape::tapestats': c_tapestats,
    'ValueTape::get_op_block_f': evblock('op_block'), 'ValueTape::get_op_block_r': evblock('op_block'),
    'ValueTape::get_loc_block_f': evblock('loc_block'), 'ValueTape::get_loc_block_r': evblock('loc_block'),
    'ValueTape::get_val_block_f': evblock('val_block'), 'ValueTape::get_val_block_r': evblock('val_block'),
    'ValueTape::discard_params_r': evblock('discard_params'),
    'ValueTape::taylor_begin': c_noop, 'ValueTape::taylor_close': c_noop, 'ValueTape::taylor_back': c_noop,
    'ValueTape::reset_val_r': evblock('reset_val'),
    'ValueTape::paramstore': c_param,
    'myalloc1': c_myalloc(1), 'myalloc2': c_myalloc(2), 'myalloc3': c_myalloc(3), 'myfree1': c_noop, 'myfree2': c_noop,
    'myfree3': c_noop, 'myalloc1_uint': c_myalloc(1), 'myalloc1_ulong': c_myalloc(1), 'myalloc2_ulong': c_myalloc(2),
    'myfree1_uint': c_noop, 'myfree1_ulong': c_noop, 'myfree2_ulong': c_noop,
}


class Interp:
    """one driver function; args: dict parameter name or position -> value;
    unspecified parameters: pointers -> object 'arg:<name>', ints -> symbols"""

    def __init__(self, modules, fname, args=None, contracts=None, facts=(), nonnull=None):
        c = dict(INTERP_CONTRACTS)
        c.update(contracts or {})
        self.ex = Executor(modules, c)
        ex = self.ex
        self.fn = None
        for n, f in ex.fn_index.items():
            if ex.short.get(n) == fname:
                self.fn = f
        if self.fn is None:
            raise Unsupported('function not found: ' + fname)
        self.fn.parse()
        args = args or {}
        vals = []
        self.param = {}
        for k, (t, nm, at) in enumerate(self.fn.params):
            key = nm.lstrip('%')
            v = args.get(k, args.get(key))
            if v is None:
                if t.k == 'ptr':
                    v = Ptr(f'arg{k}', (), 0)
                elif t.k == 'double':
                    v = rvar(f'arg{k}')
                else:
                    v = ivar(f'arg{k}')
            vals.append(v)
            self.param[k] = v
        ex.initfn[GH] = lambda rows, off, ty: 0 if not (isinstance(off, int) and off == 24) else ivar('TSP')
        st = State()
        for f in facts:
            st.assume(f)
        self.facts = tuple(facts)
        L = find_dispatch_loop(ex, self.fn)
        if L is None:
            raise Unsupported('no opcode dispatch loop in ' + fname)
        self.loop = L
        ex.maxu = 40
        # prologue
        env = ex.bind(self.fn, vals)
        self.prologue_mode = True
        rets, stops = ex.run([Item(st, env, self.fn.entry, 0, None)], self.fn, None, stop_at={L.header})
        self.prologue_rets = rets
        self.prologue_stops = stops
        if not stops:
            raise Unsupported('dispatch loop not reached')
        self.prologue_bounded = list(ex.bounded)
        ex.bounded = []
        ex.fails = []

    def generic_state(self, stop=None):
        """state at the loop header for an arbitrary iteration"""
        s0 = stop or self.prologue_stops[0]
        ex = self.ex
        st = s0.st.copy()
        st.ev = ()
        st.pc = tuple(self.facts)
        mem = {}
        for name, (base, log) in st.mem.items():
            # keep pointer-valued cells with concrete address (checked to be
            # preserved by every iteration); forget everything else
            keep = {}
            for k, (v, sz) in base.items():
                if isinstance(v, (Ptr,)):
                    keep[k] = (v, sz)
            mem[name] = (keep, None)
        mem.pop(GH, None)
        mem.pop(TAY, None)
        st.mem = mem
        return st

    def header_phis(self):
        return [(ph.res, ph.ty) for ph in self.fn.blocks[self.loop.header].phis]

    def run_op(self, opcode, locs, vals, st=None, stop=None, phis=None, tays=None):
        """execute one iteration; returns (backs, exits)  each Stop"""
        ex = self.ex
        s0 = stop or self.prologue_stops[0]
        st = st or self.generic_state(s0)
        env = dict(s0.env)
        v0 = ex.phis(s0.env, s0.pred, self.loop.header, self.fn)
        gen = {}
        for res, ty in self.header_phis():
            v = v0[res]
            if phis and res.lstrip('%') in phis:
                gen[res] = phis[res.lstrip('%')]
            elif isinstance(v, E) and v.op == 'lin' and is_atom(v) and the_atom(v).op == 'ifn' and the_atom(v).args[0] == 'OPC':
                gen[res] = opcode
            elif isinstance(v, Ptr):
                gen[res] = v if v != NULL else Ptr('stale:' + res.lstrip('%'), (), 0)
            elif isinstance(v, Undef) and ty.k == 'ptr':
                gen[res] = Ptr('stale:' + res.lstrip('%'), (), 0)
            elif ty.k == 'double':
                gen[res] = rvar('S:' + res.lstrip('%'))
            elif ty.k == 'int':
                gen[res] = ivar('S:' + res.lstrip('%'))
            else:
                gen[res] = v
        self.gen = gen
        env.update(gen)
        base = {((), 8 * k): (v, 8) for k, v in enumerate(locs)}
        st.mem[LOCF] = (base, None)
        st.mem[VALF] = ({((), 8 * k): (v, 8) for k, v in enumerate(vals)}, None)
        if tays is not None:
            st.mem[TAY] = tays
        ex.fails = []
        ex.paths = 0
        ex.bounded = []
        ex.unmodelled = {}
        self.start = st.copy()
        rets, stops = ex.run([Item(st, env, self.loop.header, 0, None)], self.fn, self.loop)
        backs = [s for s in stops if s.target == self.loop.header]
        exits = [s for s in stops if s.target != self.loop.header]
        return backs, exits, rets
