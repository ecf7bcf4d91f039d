"""Replays failed obligations of the recording side on the real library: the
expressions concerned are compiled natively, recorded at many points, replayed
at others by the public drivers and compared with their specification in
floating point."""
import os, subprocess, random, math
import build, replay
from expr import *
from recspec import EXPRS, diff

HEAD = r'''
#include <adolc/adolc.h>
#include <adolc/valuetape/valuetape.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <utility>
#include <vector>
#include <string>
#include <iostream>
static std::vector<double> O; static int B; static bool tracing;
template <class T> static void dep(T &x) { double d; if (tracing) x >>= d; else d = x.value(); O.push_back(d); }
#define RES(x) dep(x)
#define RES2(x) dep(x)
#define BOOL(x) B = (x) ? 1 : 0
#define OUT(x) O.push_back(x); if (!tracing) O.back() = a.value()
typedef void (*F)(const double *, double, double);
'''
TAIL = r'''
static void show(const char *k, const std::vector<double> &q) { printf("%s", k); for (double d : q) printf(" %.17g", d); printf("\n"); }
int main() {
  int f, nr; const short tag = createNewTape(); setCurrentTape(tag);
  while (std::cin >> f >> nr) {
    auto pt = [&](std::vector<double> &q) { for (double &d : q) std::cin >> d; };
    int n = nin[f]; std::vector<double> x(n + 2), y(n + 2);
    pt(x);
    std::vector<std::vector<double>> ys(nr, y); for (auto &q : ys) pt(q);
    tracing = false; O.clear(); B = -1; fs[f](x.data(), x[n], x[n + 1]); show("N", O); printf("b %d\n", B);
    int m = -1, ni = n + ind[f];
    for (int keep = 0; keep < 2; ++keep) {
      setCurrentTape(tag); trace_on(tag, keep); tracing = true; O.clear(); B = -1;
      fs[f](x.data(), x[n], x[n + 1]); trace_off(); tracing = false;
      show("V", O); printf("b %d\n", B);
      m = (int)tapestats(tag)[TapeInfos::NUM_DEPENDENTS]; int nn = (int)tapestats(tag)[TapeInfos::NUM_INDEPENDENTS];
      printf("c %d %d\n", nn, m);
      if (nn != ni) { printf("end\n"); goto next; }
      if (keep) for (int i = 0; i < m; ++i) {
        if (i) { std::vector<double> a(x.begin(), x.begin() + n), o(m); if (ind[f]) a.push_back(x[n]); zos_forward(tag, m, ni, 1, a.data(), o.data()); }
        std::vector<double> u(m), z(ni); u[i] = 1; fos_reverse(tag, m, ni, u.data(), z.data()); show("z", z);
      }
    }
    for (auto &q : ys) {
      std::vector<double> a(q.begin(), q.begin() + n), o(m), t(ni), ot(m);
      if (ind[f]) a.push_back(q[n]);
      if (par[f]) currentTape().set_param_vec(tag, 1, &q[n]);
      printf("r %d\n", zos_forward(tag, m, ni, 0, a.data(), o.data())); show("y", o);
      for (int j = 0; j < ni; ++j) { std::fill(t.begin(), t.end(), 0.); t[j] = 1; fos_forward(tag, m, ni, 0, a.data(), t.data(), o.data(), ot.data()); show("t", ot); }
    }
    printf("end\n");
  next:;
    fflush(stdout);
  }
}
'''
VALS = [0.25, 0.375, 0.7, 1.3, 2.5, 4.0, -0.6, -1.7, -3.0, 0.0, 1.0, -1.0, 2.0]


def program(es):
    t = HEAD
    for i, e in enumerate(es):
        t += f'static void f{i}(const double *in, double v, double w) {{\n'
        for k, n in enumerate(e.inputs):
            t += f'  adouble {n}; if (tracing) {n} <<= in[{k}]; else {n} = in[{k}];\n'
        if e.param:
            t += '  pdouble p(v);\n'
        t += f'  {e.code}\n'
        for n in e.inputs:
            if n not in e.changed:
                t += f'  dep({n});\n'
        t += '}\n'
    t += f'static F fs[] = {{{", ".join(f"f{i}" for i in range(len(es)))}}};\n'
    for nm, g in (('nin', lambda e: len(e.inputs)), ('ind', lambda e: int(e.kind == 'ind')), ('par', lambda e: int(e.param))):
        t += f'static int {nm}[] = {{{", ".join(str(g(e)) for e in es)}}};\n'
    return t + TAIL


class Ev:
    def __init__(self, x):
        self.env = Env(random.Random(1), {}, x)

    def __call__(self, t):
        if isinstance(t, (bool, int, float)):
            return t
        try:
            r = evaluate(t, self.env)
            return r if isinstance(r, bool) else float(r)
        except (EvalFail, ValueError, OverflowError, ZeroDivisionError, ArithmeticError):
            return math.nan


def same(a, b):
    return math.isnan(b) or math.isinf(b) or abs(a - b) <= 1e-9 * (1 + abs(b))


def C07(obls, seed):
    names = []
    for o in obls:
        n = (o['name'].split(':') + [''])[1]
        if n not in names:
            names.append(n)
    by = {e.name: e for e in EXPRS}
    es = [by[n] for n in names if n in by][:40]
    if not es:
        return dict(confirmed=False, tried=0)
    exe = compile_(es)
    rng = random.Random(seed)
    tried = 0
    for i, e in enumerate(es):
        for _ in range(60):
            ok, pts = True, []
            for _ in range(4):
                for _ in range(30):
                    q = [rng.choice(VALS) for _ in e.inputs] + [rng.choice(VALS), rng.choice(VALS)]
                    ev = Ev(env(e, q))
                    if all(ev(c) is not False for c in (e.pre(xv(e)) if e.pre else [])):
                        pts.append(q)
                        break
            if len(pts) < 4:
                break
            if not e.param and e.kind != 'ind':
                for q in pts[1:]:
                    q[-2] = pts[0][-2]
            for q in pts[1:]:
                q[-1] = pts[0][-1]
            pts = pts[:1] + [q for q in pts[1:] if all(Ev(env(e, q))(c) is not False for c in (e.pre(xv(e)) if e.pre else []))]
            tried += 1
            txt = f'{i} {len(pts) - 1} ' + ' '.join(repr(v) for q in pts for v in q) + '\n'
            try:
                r = subprocess.run([exe], input=txt, capture_output=True, text=True, timeout=20)
                why = judge(e, pts, r.stdout.split('\n')) if r.returncode == 0 else f'ended with {r.returncode}: {r.stderr[-200:]}'
            except subprocess.TimeoutExpired:
                why = 'does not end'
            if why:
                return dict(confirmed=True, tried=tried, input=f'{e.code} with ' + ', '.join(f'{n}={v}' for n, v in zip(list(e.inputs) + ['v', 'w'], pts[0])) + f': {why}')
    return dict(confirmed=False, tried=tried)


def xv(e):
    x = {n: rvar('x_' + n) for n in e.inputs}
    x.update(v=rvar('x_v'), w=rvar('x_w'))
    return x


def env(e, q):
    return {f'x_{n}': v for n, v in zip(list(e.inputs) + ['v', 'w'], q)}


def compile_(es):
    src = os.path.join(build.workdir(), 'replay_rec.cpp')
    exe = os.path.join(build.workdir(), 'replay_rec')
    with open(src, 'w') as f:
        f.write(program(es))
    a = replay.archive()
    for lib in (['-lColPack', '-fopenmp'], ['-Wl,--unresolved-symbols=ignore-all']):
        r = subprocess.run(['g++', '-std=c++20', '-O0', '-w', *build.defs(), *build.incs(), src, a, *lib, '-o', exe], capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return exe
    raise build.BuildError(r.stderr[-1500:])


def judge(e, pts, lines):
    x = xv(e)
    want = e.spec(x)
    wants = [] if e.kind == 'bool' else list(want) if isinstance(want, (list, tuple)) else [want]
    keepers = [n for n in e.inputs if n not in e.changed]
    outs = wants + [x[n] for n in keepers]
    var = [x[n] for n in e.inputs] + ([x['v']] if e.kind == 'ind' else [])
    it = iter(lines)

    def row():
        l = next(it).split()
        return l[0], [float(v) for v in l[1:]]

    def compare(what, got, ev, exprs):
        if len(got) != len(exprs):
            return f'{what}: {len(got)} numbers, {len(exprs)} expected'
        for g, t in zip(got, exprs):
            w = ev(t)
            if not same(g, w):
                return f'{what} {g!r}, mathematically {w!r}'

    def smooth(ev):
        return all(ev(c) is True for c in (e.gpre(x) if e.gpre else []))
    try:
        ev = Ev(env(e, pts[0]))
        b0 = ev(want) if e.kind == 'bool' else None
        for mode in ('without tracing', 'while tracing', 'while tracing with keep'):
            k, g = row()
            r = compare(f'value {mode}', g, ev, outs)
            k, b = row()
            if e.kind == 'bool' and b0 is not None and b[0] != int(b0):
                r = r or f'comparison {mode} is {b[0]}'
            if r:
                return r
            if mode != 'without tracing':
                k, c = row()
                if c != [len(var), len(outs)]:
                    return f'tape has {c} independents and dependents, not {[len(var), len(outs)]}'
        for t in outs:
            k, z = row()
            if smooth(ev):
                r = compare('gradient at the recording point (reverse from the kept values)', z, ev, [diff(t, v) for v in var])
                if r:
                    return r
        for q in pts[1:]:
            ev = Ev(env(e, q))
            k, rc_ = row()
            k, y = row()
            at = ' at ' + ', '.join(f'{n}={v}' for n, v in zip(list(e.inputs) + ['v'], q))
            ts = [row()[1] for _ in var]
            if e.kind == 'bool':
                if (rc_[0] < 0) != (ev(want) != b0):
                    return f'zos_forward{at} returns {rc_[0]:.0f}'
                if rc_[0] < 0:
                    continue
            elif rc_[0] < 0:
                return f'zos_forward{at} returns {rc_[0]:.0f}'
            r = compare(f'zos_forward{at}', y, ev, outs)
            if r:
                return r
            if smooth(ev):
                for v, t in zip(var, ts):
                    r = compare(f'fos_forward{at}', t, ev, [diff(o, v) for o in outs])
                    if r:
                        return r
    except StopIteration:
        return 'ended early'
    return None


def selftest(seed=1):
    """every expression on the tree must pass"""
    bad = []
    for i in range(0, len(EXPRS), 40):
        for e in EXPRS[i:i + 40]:
            pass
        r = C07([dict(name=f'recording:{e.name}:value') for e in EXPRS[i:i + 40]], seed)
        if r['confirmed']:
            bad.append(r['input'])
    return bad
