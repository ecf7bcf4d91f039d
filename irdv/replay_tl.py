"""Replays failed obligations of the tapeless forward mode natively."""
import os, subprocess, random, math
import build, replay
from expr import *
from tapeless import EXPRS, tangent
from replay_rec import Ev, VALS, same

HEAD = r'''
#include <adolc/adtl.h>
#include <cstdio>
#include <iostream>
#include <vector>
#include <utility>
using adtl::adouble;
static int B; static size_t P;
static void show(const adouble &x) { printf("R %.17g", x.getValue()); for (size_t i = 0; i < P; i++) printf(" %.17g", x.getADValue(i)); printf("\n"); }
#define RES(x) show(x)
#define RES2(x) show(x)
#define BOOL(x) printf("b %d\n", (x) ? 1 : 0)
#define OUT(x) printf("o %.17g\n", x)
'''


def C15(obls, seed):
    names = []
    for o in obls:
        n = (o['name'].split(':') + [''])[1]
        if n not in names:
            names.append(n)
    by = {e.name: e for e in EXPRS}
    es = [by[n] for n in names if n in by][:40]
    if not es:
        return dict(confirmed=False, tried=0)
    t = HEAD
    for i, e in enumerate(es):
        t += f'static void f{i}(' + ', '.join(f'adouble &{n}' for n in e.inputs) + f', double v, double w) {{\n  {e.code}\n'
        for n in e.inputs:
            if n not in e.changed:
                t += f'  show({n});\n'
        t += '}\n'
    t += 'int main() { int f; while (std::cin >> f >> P) { adtl::setNumDir(P); std::vector<double> d(P); double x, v, w; auto rd = [&](adouble &a) { std::cin >> x; for (double &q : d) std::cin >> q; a = adouble(x, d.data()); };\n'
    t += '  switch (f) {\n'
    for i, e in enumerate(es):
        t += f'  case {i}: {{ adouble {", ".join(e.inputs)}; ' + ' '.join(f'rd({n});' for n in e.inputs) + f' std::cin >> v >> w; f{i}({", ".join(e.inputs)}, v, w); break; }}\n'
    t += '  } printf("end\\n"); fflush(stdout); } }\n'
    src, exe = (os.path.join(build.workdir(), 'replay_tl' + x) for x in ('.cpp', ''))
    with open(src, 'w') as f:
        f.write(t)
    r = subprocess.run(['g++', '-std=c++20', '-O0', '-w', *build.defs(), *build.incs(), src, replay.archive(), '-Wl,--unresolved-symbols=ignore-all', '-o', exe],
                       capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise build.BuildError(r.stderr[-1500:])
    rng = random.Random(seed)
    tried = 0
    for i, e in enumerate(es):
        for _ in range(80):
            p = rng.choice([1, 2, 4, 5]) if e.name not in ('derivative_of', 'setadvalue') else 5
            env = {'v': rng.choice(VALS), 'w': rng.choice(VALS)}
            dots = {}
            for n in e.inputs:
                env['x_' + n] = rng.choice(VALS)
                dots[n] = [rng.choice(VALS) for _ in range(p)]
            x = {n: rvar('x_' + n) for n in e.inputs}
            x.update(v=rvar('v'), w=rvar('w'))
            for n in e.inputs:
                x[n + ':const'] = x[n]
            ev = Ev(env)
            if not all(ev(c) is not False for c in (e.pre(x) if e.pre else [])):
                continue
            tried += 1
            txt = f'{i} {p} ' + ' '.join(' '.join(repr(q) for q in [env['x_' + n]] + dots[n]) for n in e.inputs) + f' {env["v"]!r} {env["w"]!r}\n'
            try:
                r = subprocess.run([exe], input=txt, capture_output=True, text=True, timeout=20)
                why = judge(e, x, env, dots, p, r.stdout.split('\n')) if r.returncode == 0 else f'ended with {r.returncode}'
            except subprocess.TimeoutExpired:
                why = 'does not end'
            if why:
                return dict(confirmed=True, tried=tried, input=f'{e.code} with {env}, derivatives {dots}: {why}')
    return dict(confirmed=False, tried=tried)


def judge(e, x, env, dots, p, lines):
    ev = Ev(env)
    want = e.spec(x)
    smooth = all(ev(c) is True for c in (e.gpre(x) if e.gpre else []))
    it = iter(l.split() for l in lines)
    try:
        if e.kind in ('bool', 'out'):
            k = next(it)
            if e.kind == 'bool':
                if int(k[1]) != int(ev(want)):
                    return f'gives {k[1]}'
            else:
                w = dots['a'][3] if e.name == 'derivative_of' else ev(want)
                if not same(float(k[1]), w):
                    return f'gives {k[1]}, mathematically {w}'
            wants = []
        else:
            wants = list(want) if isinstance(want, (list, tuple)) else [want]
        for i, t in enumerate(wants + [x[n] for n in e.inputs if n not in e.changed]):
            got = [float(v) for v in next(it)[1:]]
            if not same(got[0], ev(t)):
                return f'value {got[0]}, mathematically {ev(t)}'
            for d in range(p):
                if i < len(wants) and hasattr(e, 'deriv'):
                    w = {'setvalue': lambda: dots['a'][d], 'setadvalues': lambda: dots['b'][d], 'ctor_derivatives': lambda: dots['b'][d],
                         'setadvalue': lambda: env['v'] if d == 2 else dots['a'][d]}[e.name]()
                else:
                    env2 = dict(env)
                    env2.update({'dot_' + n: dots[n][d] for n in e.inputs})
                    w = Ev(env2)(tangent(t, {x[n]: rvar('dot_' + n) for n in e.inputs}))
                if (smooth or i >= len(wants)) and not same(got[1 + d], w):
                    return f'derivative[{d}] {got[1 + d]}, mathematically {w}'
    except StopIteration:
        return 'ended early'
    return None
