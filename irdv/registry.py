"""Which jobs and which obligations decide which property."""
import re, json, os

GENERAL = ['clang++ 18 front end and opt passes sroa, early-cse, simplifycfg (C++ to LLVM IR)', 'irdv (VC generator, normaliser) and z3 4.x']
REALS = 'double arithmetic is treated as exact arithmetic over the reals; NaN, infinities and rounding are not modelled'
INTS = 'integer arithmetic is mathematical (no wrap-around)'


class Prop:
    level = 'proof'

    def __init__(self, jobs, wants=None, exclude=None, thorough=None, minimum=None, trusted=(), assume=(), replay=None):
        self._jobs = jobs
        self._thorough = thorough or []
        self._wants = re.compile(wants) if wants else None
        self._exclude = re.compile(exclude) if exclude else None
        self._min = minimum or {}
        self._trusted = list(trusted)
        self._assume = list(assume)
        self._replay = replay

    def jobs(self, tier):
        return list(self._jobs) + (list(self._thorough) if tier == 'thorough' else [])

    def wants(self, name):
        last = name.split(':')[-1]
        if last in ('verifier', 'vacuity', 'loops', 'calls', 'progress', 'no-failure', 'leaves-sweep') or name.count(':') == 1:
            return True
        if self._exclude and self._exclude.search(name):
            return False
        return not self._wants or bool(self._wants.search(name))

    def minimum(self, spec):
        return self._min.get(spec[0], 1)

    def trusted(self):
        return GENERAL + self._trusted

    def assumptions(self):
        return [REALS, INTS] + self._assume

    def replay(self, obls, seed):
        if self._replay is None:
            return None
        import replay
        return getattr(replay, self._replay)(obls, seed) if isinstance(self._replay, str) else self._replay(obls, seed)


FWD = [('forward1', dict(which=w, keep=k)) for w, k in (('fos', 0), ('fos', 1), ('fos', 2), ('fov', 0), ('fov_offset', 0))]
ZOS = [('forward1', dict(which='zos', keep=k)) for k in (0, 1)]
REV = [('reverse1', dict(which=w)) for w in ('fov', 'fos')]

HOF = [('hoforward', dict(which=w, k=k, keep=q)) for w, k, q in (
    ('hov', 'any', 0), ('hov', 3, 0), ('hov_wk', 2, 3), ('hov', 2, 0), ('hos', 'any', 0), ('hos', 3, 0), ('hov_wk', 1, 2), ('hos', 2, 3), ('hov', 1, 0),
    ('hos', 1, 2))]
HOFT = [('hoforward', dict(which=w, k=k, keep=q)) for w, k, q in (('hov', 4, 0), ('hov_wk', 3, 2), ('hos', 4, 5), ('hov_wk', 3, 1))]
def horev(which, k, n):
    return [('horeverse', dict(which=which, k=k, part=(i, n))) for i in range(n)]


HOR = horev('hov', 1, 3) + horev('hos_ov', 1, 4) + horev('hos', 2, 2) + horev('hos', 3, 4) + horev('hos', 'any', 2)
HORT = horev('hos', 1, 2) + horev('hov', 2, 4) + horev('hos_ov', 2, 6) + horev('hov', 3, 6) + horev('hos', 4, 6)
HOF5 = HOF6 = [HOF[6], HOF[7], HOF[8]]
HOF8 = [HOF[7], HOF[2]]
INT = [(k, dict(which=w)) for k in ('intforward', 'intreverse') for w in ('tight', 'safe')]
ABS = [('absforward', dict(which=w, sig=g, keep=k)) for w, g, k in (
    ('fov_pl_sig', 'dir', 0), ('fov_pl_sig', 'base', 0), ('fov_pl', None, 0), ('fos_pl_sig', 'dir', 0), ('fos_pl_sig', 'base', 0), ('fos_pl', None, 0),
    ('zos_pl', None, 0), ('zos_pl', None, 1))] + [('absreverse', dict(which=w)) for w in ('fov_pl', 'fos_pl', 'fos_pl_sig')] + \
    [('firstsign', dict(p=p)) for p in (1, 2, 3)]
REC = [('record', dict(part=(i, 8))) for i in range(8)]

TAPE = [('tapebuf', dict(cls=c, part=p)) for c, ps in (
    ('Stack', ('get_taylors_p', 'write_taylors', 'get_taylors', 'write_scaylors', 'write_taylor', 'one')),
    ('Records', ('put_op', 'put_vals_writeBlock', 'get_val_space', 'simple')),
    ('Blocks', ('forward', 'reverse', 'taylor', 'write')), ('Params', ('read_params', 'save_params', 'discard_params_r'))) for p in ps]

AP = ('assign_p',)
PARAMS = [('tapebuf', dict(cls='Params', part=p)) for p in ('read_params', 'save_params', 'discard_params_r', 'set_param_vec')] + [
    (k, dict(a, only=AP)) for k, a in FWD + ZOS + REV + INT + ABS[:-3] + [
        ('hoforward', dict(which='hov', k='any', keep=0)), ('hoforward', dict(which='hos', k='any', keep=0)), ('hoforward', dict(which='hov_wk', k=2, keep=3)),
        ('horeverse', dict(which='hos', k='any')), ('horeverse', dict(which='hos_ov', k=1)), ('horeverse', dict(which='hov', k=1))]]


def lazy(module, name):
    def f(obls, seed):
        return getattr(__import__(module), name)(obls, seed)
    return f


RECIO = ['contracts of ValueTape::put_op/put_loc/put_val and write_scaylor (appending), next_loc/free_loc (fresh locations, distinct from live ones), add_numTays_Tape, pdouble parameter store, isTaping/keepTaylors flags']

K_RET = r':(return-code|switch-|branch-kept|start:return)'
K_READ = r':(location-reads|value-reads|op-reads|next-opcode|block|start:next-opcode|layout|taylor-|value-restored|stack-unchanged)'
K_VAL = r':(value\[|result$|result-frame|dependent-counter|independent-counter|start:counter)'
TAPEIO = ['contracts of ValueTape::get_*_f/r (sequential readers of the recorded streams), get/write_taylor* (stack), myalloc* (fresh zeroed arrays)']

PROPS = {
    'C01': Prop(REV[:0] + FWD, exclude=K_RET + '|' + K_READ + '|:value\\[|:result$', minimum={'forward1': 250}, trusted=TAPEIO, replay='C01'),
    'C02': Prop(HOF, exclude=K_RET + '|' + K_READ + '|:value\\[|:result$', thorough=HOFT, minimum={'hoforward': 250}, trusted=TAPEIO, replay='C02'),
    'C03': Prop(REV, exclude=K_RET + r'|:(location-reads|value-reads|op-reads|next-opcode|block)', minimum={'reverse1': 1500}, trusted=TAPEIO, replay='C03'),
    'C04': Prop(HOR, exclude=K_RET + r'|:(location-reads|value-reads|op-reads|next-opcode|block)', thorough=HORT, minimum={'horeverse': 700}, trusted=TAPEIO, replay='C04'),
    'C05': Prop(ZOS + FWD + INT[:1] + HOF5, wants=K_VAL + r'|:frame|:start:', minimum={'forward1': 250}, trusted=TAPEIO, replay='C05'),
    'C06': Prop(REV + ZOS + FWD + [INT[0], INT[2]] + HOF6 + horev('hos', 1, 2) + horev('hov', 1, 3), wants=K_RET, minimum={'intforward': 60, 'intreverse': 60, 'forward1': 200, 'reverse1': 200, 'horeverse': 100}, trusted=TAPEIO, replay='C06'),
    'C07': Prop(REC, minimum={'record': 1000}, trusted=RECIO, replay=lazy('replay_rec', 'C07')),
    'C12': Prop(INT, exclude=r':(return-code|value\[|result$|location-reads|value-reads|op-reads|next-opcode|block|taylor-pops|value-restored|stack-unchanged)', minimum={'intforward': 500, 'intreverse': 500}, trusted=TAPEIO, replay='C12'),
    'C15': Prop([('tapeless', dict(part=(i, 4))) for i in range(4)], minimum={'tapeless': 400}, replay=lazy('replay_tl', 'C15'),
                trusted=['contract of the memory pool and operator new[]/delete[] (fresh, not overlapping arrays of numDir + 1 doubles)']),
    'C09': Prop(TAPE, minimum={'tapebuf': 60}, replay=lazy('replay_tape', 'C09'),
                trusted=['contracts of fopen, fread, fwrite, fseek, fclose (all or nothing; a failing call ends the program), of operator new[]/delete[]']),
    'C14': Prop([('alloc', {})], minimum={'alloc': 150}, replay=lazy('replay_alloc', 'C14'), trusted=['contracts of malloc, calloc, rpl_malloc, rpl_calloc (fresh block of the requested size, calloc clears it) and free']),
    'C17': Prop([('drivers', {})], minimum={'drivers': 300}, replay=lazy('replay_drv', 'C17'),
                trusted=['contracts of the sweeps (zos/fos/fov/hos/hov forward and reverse; their bodies are C01-C06), of the array helpers (C14)']),
    'C18': Prop([('ode', {}), ('ode', dict(small=True))], minimum={'ode': 600}, replay=lazy('replay_fortran', 'C18'),
                trusted=['contracts of zos_forward and hos_forward (their bodies are C02, C05), of the array helpers (C14), findTape (the tape of that number)']),
    'C19': Prop([('packing', {})] + [('fortran', dict(src=f)) for f in ('drivers/driversf.cpp', 'drivers/odedriversf.cpp', 'interfacesf.cpp')],
                minimum={'packing': 25, 'fortran': 45}, replay=lazy('replay_fortran', 'C19'),
                trusted=['contracts of the wrapped drivers (arguments observed, outputs named, code a symbol; their bodies are C01-C06, C17, C18), of the array helpers (C14)']),
    'C20': Prop(ABS, minimum={'absforward': 1000, 'absreverse': 1000}, trusted=TAPEIO, replay=lazy('replay_abs', 'C20')),
    'C21': Prop(PARAMS + [('record', dict(part=(i, 8), params=True)) for i in range(8)], wants=r':assign_p:|^Params|^record',
                minimum={'tapebuf': 70, 'forward1': 8, 'reverse1': 10, 'intforward': 2, 'hoforward': 5, 'horeverse': 8, 'record': 10}, replay=lazy('replay_tape', 'C21'),
                trusted=['contracts of fread and fseek, of openTape, finish_tay_file, of the store of parameter indices (free_loc), of operator new[]/delete[]'] + TAPEIO + RECIO),
    'C08': Prop(REV + ZOS + FWD + INT + HOF8 + horev('hos', 2, 2) + horev('hov', 1, 3) + horev('hos_ov', 1, 4) + REC, wants=K_READ, minimum={'record': 300, 'forward1': 200, 'reverse1': 200, 'horeverse': 500}, trusted=TAPEIO, replay='C08'),
}
