"""Verification jobs: each runs in its own process and returns obligations."""
import time, traceback, sys, resource
sys.setrecursionlimit(20000)


def run_job(spec):
    kind, kw = spec
    t = time.time()
    try:
        r = globals()['job_' + kind](**kw)
        obls, info = r if isinstance(r, tuple) else (r, {})
        out = [dict(name=o.name, status=o.status, backend=o.backend, time=o.time, detail=o.detail,
                    cex=repr(o.cex) if o.cex else None) for o in obls]
        err = None
    except Exception as e:
        out, info = [], {}
        err = f'{type(e).__name__}: {e}'
        tb = traceback.format_exc()
        out.append(dict(name=f'{kind}({", ".join(map(str, kw.values()))}):verifier', status='unknown', backend='-', time=0,
                        detail=f'{err}\n{tb[-3000:]}', cex=None))
    return dict(spec=spec, obls=out, info=info, err=err, wall=time.time() - t)


def job_forward1(which, keep=0, only=None):
    import build
    from sweep import Forward1, ivar, ile
    p, off = ivar('p'), ivar('offset')
    cfg = {
        'zos': ('zos_forward.cpp', 'zos_forward', {3: keep}, dict(basepoint=4, valuepoint=5), None, [], 0),
        'fos': ('fos_forward.cpp', 'fos_forward', {3: keep}, dict(basepoint=4, argument=5, valuepoint=6, taylors=7), 1, [], 0),
        'fov': ('fov_forward.cpp', 'fov_forward', {3: p}, dict(basepoint=4, argument=5, valuepoint=6, taylors=7), p, [ile(1, p)], 0),
        'fov_offset': ('fov_offset_forward.cpp', 'fov_offset_forward', {3: p, 4: off},
                       dict(basepoint=5, argument=6, valuepoint=7, taylors=8), p, [ile(1, p), ile(0, off)], off),
    }
    src, fn, args, pos, nd, facts, co = cfg[which]
    m = build.compile_ll(src)
    s = Forward1([m], src, fn, args, pos, ndir=nd, keep=keep, facts=facts, coloff=co, name=f'{fn}/keep{keep}' if keep else fn)
    s.check_all(only)
    return s.prover.obls, info(s)


def job_hoforward(which, k, keep=0, only=None):
    import build
    from hosweep import HOForward, HOForwardAny, ivar, ile
    p = ivar('p')
    anyk = k == 'any'
    if anyk:
        k = ivar('k')
    cfg = {
        'hos': ('hos_forward.cpp', 'hos_forward', {3: k, 4: keep}, dict(basepoint=5, argument=6, valuepoint=7, taylors=8), None, []),
        'hov': ('hov_forward.cpp', 'hov_forward', {3: k, 4: p}, dict(basepoint=5, argument=6, valuepoint=7, taylors=8), p, [ile(1, p)]),
        'hov_wk': ('hov_wk_forward.cpp', 'hov_wk_forward', {3: k, 4: keep, 5: p}, dict(basepoint=6, argument=7, valuepoint=8, taylors=9), p, [ile(1, p)]),
    }
    src, fn, args, pos, vec, facts = cfg[which]
    m = build.compile_ll(src)
    s = (HOForwardAny if anyk else HOForward)([m], src, fn, args, pos, k, vec, keep=keep, facts=facts + [ile(1, k)] * anyk,
                                              name=f'{fn}/{"any degree" if anyk else f"degree{k}"}' + (f'/keep{keep}' if keep else ''))
    s.check_all(only)
    return s.prover.obls, info(s, None if anyk else f'degree {k}' + f', keep {keep}' * (keep > 0))


def job_reverse1(which, only=None):
    import build
    from sweeprev import Reverse1, ivar, ile
    p = ivar('p')
    cfg = {'fos': ('fos_reverse.cpp', 'fos_reverse', {}, dict(lagrange=3, results=4), None, ()),
           'fov': ('fov_reverse.cpp', 'fov_reverse', {3: p}, dict(lagrange=4, results=5), p, [ile(1, p)])}
    src, fn, args, pos, nd, facts = cfg[which]
    m = build.compile_ll(src)
    s = Reverse1([m], src, fn, args, pos, ndir=nd, facts=facts)
    s.check_all(only)
    return s.prover.obls, info(s)


def job_horeverse(which, k, part=(0, 1), only=None):
    import build
    from horev import HOReverse, HOReverseAny, ivar, ile
    p = ivar('p')
    anyk = k == 'any'
    k = ivar('k') if anyk else k
    src, fn, args, pos, vec, wide = {
        'hos': ('hos_reverse.cpp', 'hos_ti_reverse', {3: k}, dict(lagrange=4, results=5), None, False),
        'hov': ('hov_reverse.cpp', 'hov_ti_reverse', {3: k, 4: p}, dict(lagrange=5, results=6, nonzero=7), p, False),
        'hos_ov': ('hos_ov_reverse.cpp', 'hos_ov_reverse', {3: k, 4: p}, dict(lagrange=5, results=6), p, True)}[which]
    m = build.compile_ll(src)
    s = (HOReverseAny if anyk else HOReverse)([m, build.compile_ll('convolut.cpp')], src, fn, args, pos, k, vec, wide,
                                             facts=([ile(1, p)] if vec is not None else []) + ([ile(1, k)] if anyk else []), name=f'{fn}/' + ('any degree' if anyk else f'degree{k}'))
    s.part = tuple(part)
    s.check_all(only)
    return s.prover.obls, info(s, None if anyk else f'degree {k}')


def info(s, bound=None):
    ex = s.ex
    return dict(bound=bound, functions=sorted({ex.short.get(n, n) for n in ex.inlined} | {s.fname}), contracts=sorted(ex.trusted), paths=s.paths,
                summaries=len(ex.summaries), unmodelled=sorted(getattr(s, 'unmodelled', [])))


def job_intforward(which, only=None):
    import build
    from intsweep import IntForward, ivar, ile
    p = ivar('p')
    src, fn, tight, pos = {'tight': ('int_forward_t.cpp', 'int_forward_tight', True, dict(basepoint=4, argument=5, valuepoint=6, taylors=7)),
                           'safe': ('int_forward_s.cpp', 'int_forward_safe', False, dict(argument=4, taylors=5))}[which]
    m = build.compile_ll(src)
    s = IntForward([m], src, fn, {3: p}, pos, ndir=p, facts=[ile(1, p)], tight=tight)
    s.check_all(only)
    return s.prover.obls, info(s)


def job_intreverse(which, only=None):
    import build
    from intsweep import IntReverse, ivar, ile
    p = ivar('p')
    src, fn, tight = {'tight': ('int_reverse_t.cpp', 'int_reverse_tight', True), 'safe': ('int_reverse_s.cpp', 'int_reverse_safe', False)}[which]
    m = build.compile_ll(src)
    s = IntReverse([m], src, fn, {3: p}, dict(lagrange=4, results=5), ndir=p, facts=[ile(1, p)], tight=tight)
    s.check_all(only)
    return s.prover.obls, info(s)


def job_record(part, params=False):
    """the overloaded operators and functions: one job per share of the expressions"""
    from record import Recording
    from recspec import EXPRS
    i, n = part
    s = Recording([e for e in EXPRS if e.param or not params][i::n], name=f'record{i}')
    s.check_all()
    return s.prover.obls, dict(info(s), functions=sorted({s.ex.short.get(n, n) for n in s.ex.inlined}))


def job_tapeless(part):
    import tapeless
    i, n = part
    s = tapeless.Tapeless(tapeless.EXPRS[i::n], name=f'tapeless{i}')
    s.check_all()
    return s.prover.obls, dict(info(s), functions=sorted({s.ex.short.get(n, n) for n in s.ex.inlined}))


def job_absforward(which, sig=None, keep=0, only=None):
    import build
    from absnorm import AbsForward, stat_index, NULL
    from sweep import ivar, ile
    p = ivar('p')
    cfg = {
        'zos_pl': ({3: keep}, dict(basepoint=4, valuepoint=5, swargs=6), None),
        'fos_pl': ({}, dict(basepoint=3, argument=4, valuepoint=5, taylors=6, swargs=7, swtaylors=8), 1),
        'fov_pl': ({3: p}, dict(basepoint=4, argument=5, valuepoint=6, taylors=7, swargs=8, swtaylors=9, sigsw=10), p),
        'fos_pl_sig': ({}, dict(basepoint=3, argument=4, swcheck=5, sigbase=6, sigdir=7, valuepoint=8, taylors=9, swargs=10, swtaylors=11, sigsw=12), 1),
        'fov_pl_sig': ({3: p}, dict(basepoint=4, argument=5, swcheck=6, sigbase=7, sigdir=8, valuepoint=9, taylors=10, swargs=11, swtaylors=12,
                                    sigsw=13), p),
    }
    args, pos, nd = cfg[which]
    src, fn = f'{which}_forward.cpp', f'{which}_forward'
    ms = [build.compile_ll(src)]
    if which == 'fos_pl_sig':
        ms.append(build.compile_ll('fov_pl_sig_forward.cpp'))      # ext_firstsign, ext_firstsign2
    if sig == 'base':
        args = dict(args)
        args[pos['sigdir']] = NULL
    pos = dict(pos, no_min_max=stat_index('NO_MIN_MAX'), num_switches=stat_index('NUM_SWITCHES'))
    s = AbsForward(ms, src, fn, args, pos, ndir=nd, keep=keep, sig=sig, facts=[ile(1, p)] if nd is p else [],
                   name=fn + (f'/keep{keep}' if keep else '') + (f'/{sig}' if sig else ''))
    s.check_all(only)
    return s.prover.obls, info(s)


def job_absreverse(which, only=None):
    import build
    from absnorm import AbsReverse, stat_index
    from sweep import ivar, ile
    p = ivar('p')
    cfg = {'fos_pl': ({}, dict(swchk=3, lagrange=4, lagrangeSwitch=5, results=6, resultsSwitch=7), None, ()),
           'fov_pl': ({4: p}, dict(swchk=3, lagrange=5, lagrangeSwitch=6, results=7, resultsSwitch=8), p, [ile(1, p)]),
           'fos_pl_sig': ({}, dict(swchk=3, siggrad=4, lagrange=5, results=6), None, ())}
    args, pos, nd, facts = cfg[which]
    src, fn = f'{which}_reverse.cpp', f'{which}_reverse'
    m = build.compile_ll(src)
    pos = dict(pos, no_min_max=stat_index('NO_MIN_MAX'), num_switches=stat_index('NUM_SWITCHES'))
    s = AbsReverse([m], src, fn, args, pos, ndir=nd, sig='sig' in which, facts=facts)
    s.check_all(only)
    return s.prover.obls, info(s)


def job_firstsign(p):
    """the sign of a switching variable: value first, then the directions in order"""
    import build
    from absnorm import firstsign
    obls = firstsign(build.compile_ll('fov_pl_forward.cpp'), p)
    return obls, dict(functions=['firstsign'], paths=0, bound=f'{p} directions')


def job_alloc():
    from alloc import Alloc, CONTRACTS
    s = Alloc(['adalloc.cpp'], 'arrays', CONTRACTS)
    s.check_all()
    return s.prover.obls, s.info()


def job_drivers():
    from drivers import Easy
    s = Easy(['drivers/drivers.cpp'], 'drivers')
    s.check_all()
    return s.prover.obls, s.info()


def job_absnormal():
    from drivers import AbsNormal
    s = AbsNormal(['drivers/psdrivers.cpp'], 'psdrivers')
    s.check_all()
    return s.prover.obls, s.info()


def job_fortran(src):
    from fortran import Fortran, FILES
    s = Fortran([src], 'fortran')
    s.check_all(FILES[src])
    return s.prover.obls, s.info()


def job_packing():
    from fortran import Packing
    s = Packing(['fortutils.cpp'], 'fortutils')
    s.check_all()
    return s.prover.obls, s.info()


def job_ode(small=False):
    from ode import Ode
    s = Ode(['drivers/odedrivers.cpp'], 'ode')
    s.small = small
    s.check_all()
    return s.prover.obls, s.info('accodec: up to 3 variables, degrees up to 3, every sparsity pattern of 2 variables' if small else None)


def job_tapebuf(cls, part):
    """the blocks, the Taylor stack, the writers and readers of the value tape"""
    import tapebuf
    c = getattr(tapebuf, cls)
    j = c(f'{cls}/{part}')
    j.PARTS = [part]
    j.check_all()
    return j.prover.obls, j.info()
