"""Replays failed obligations on the real library: builds it natively from the
current tree, records the operation of the failed obligation in every operand
aliasing between other operations, runs the public drivers on many inputs and
compares with the contract evaluated in floating point."""
import os, re, subprocess, random, math, time, glob
from concurrent.futures import ThreadPoolExecutor
import build
from build import REPO, SRC, INC
from expr import *
import specs, series
from fractions import Fraction
from specs import OPS, opcodes, aliasings

NATIVE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'native')


def archive(skip=('lie', 'medipack', 'ampisupport')):
    """the library, compiled natively; a static archive so that only needed objects are linked"""
    out = os.path.join(build.workdir(), 'libadolc_replay.a')
    if os.path.exists(out):
        return out
    d = os.path.join(build.workdir(), 'obj')
    os.makedirs(d, exist_ok=True)
    srcs = [s for s in glob.glob(SRC + '/**/*.cpp', recursive=True)
            if not any(k in os.path.relpath(s, SRC) for k in skip) and not s.endswith('forward_partx.cpp')]
    inner = {s for s in srcs if os.path.basename(s) in ('uni5_for.cpp', 'fo_rev.cpp', 'ho_rev.cpp', 'rpl_malloc.cpp')}

    def comp(s):
        o = os.path.join(d, os.path.relpath(s, SRC).replace('/', '_')[:-4] + '.o')
        r = subprocess.run(['g++', '-std=c++20', '-O0', '-w', '-fPIC', *build.defs(), *build.incs(), '-c', s, '-o', o], capture_output=True,
                           text=True, timeout=600)
        return o if r.returncode == 0 else None
    with ThreadPoolExecutor(8) as ex:
        objs = [o for o in ex.map(comp, [s for s in srcs if s not in inner]) if o]
    subprocess.run(['ar', 'rcs', out] + objs, check=True)
    return out


def native(name):
    exe = os.path.join(build.workdir(), name)
    if not os.path.exists(exe):
        a = archive()
        for lib in (['-lColPack', '-fopenmp'], ['-Wl,--unresolved-symbols=ignore-all']):
            r = subprocess.run(['g++', '-std=c++20', '-O0', '-g', '-w', *build.defs(), *build.incs(), os.path.join(NATIVE, name + '.cpp'), a,
                                *lib, '-o', exe], capture_output=True, text=True, timeout=300)
            if r.returncode == 0:
                break
        if r.returncode:
            raise build.BuildError(r.stderr[-1500:])
    return exe


class Prog:
    """records: (op, [location index], [value], n) with n the raw size operand of vector operations"""

    def __init__(self, n):
        self.n = n
        self.rec = []
        self.params = []

    def add(self, op, locs, vals=(), size=None):
        self.rec.append((op, list(locs), list(vals), size))

    def layout(self, r):
        op, l, v, size = r
        L = [f'L{k}' for k in l]
        if op in ('vec_copy', 'take_stock_op', 'vec_dot', 'vec_axpy'):
            at = {'vec_copy': 1, 'take_stock_op': 0, 'vec_dot': 2, 'vec_axpy': 3}[op]
            L.insert(at, str(size))
        if op == 'assign_p':
            L.insert(0, str(size))
        return L

    def text(self, codes):
        out = [f'program {self.n} {len(self.params)} {len(self.rec)}'] + [repr(p) for p in self.params]
        for r in self.rec:
            L = self.layout(r)
            out.append(f'{codes[r[0]]} {len(L)} {len(r[2])} ' + ' '.join(L) + ' ' + ' '.join(map(tok, r[2])))
        return '\n'.join(out) + '\n'


def tok(v):
    return v if isinstance(v, str) else repr(float(v))


def num(v, base):
    return float(base + int(v[1:])) if isinstance(v, str) else float(v)


class Nan(Exception):
    pass


_SYM = {}


def symbolic(o):
    """Taylor coefficients of the results and of the partial derivatives of an operation, as expressions"""
    r = _SYM.get(o.name)
    if r is None:
        t = {q: series.Ser(lambda i, q=q: rvar('x_' + q if i == 0 else f'x_{q}_{i}')) for q in [*o.locs, *(['R'] if o.ref else [])]}
        vs = [rvar(f'c{k}') for k in range(o.vals)]
        r = []
        if o.out:
            r.append((o.out, series.result(o, t, vs), series.reverse_parts(o, t, vs)))
        if o.aux:
            r.append((o.aux[0], series.result(o, t, vs, o.aux[1], o.aux[2]), series.reverse_parts(o, t, vs, o.aux[2])))
        _SYM[o.name] = r
    return r


NAN = float('nan')


def hostep(rec, x, base, params):
    """x: location -> coefficients.  Returns {location: (coefficients, {operand: coefficients of the partial derivative})}"""
    op, l, v, size = rec
    K = len(x[0])
    s1 = step(rec, [q[0] for q in x], base, True, params)
    o = OPS.get(op)
    if o is None:
        mul = lambda a, b: [sum(a[j] * b[i - j] for j in range(i + 1)) for i in range(K)]
        one = [1.0] + [0.0] * (K - 1)
        out = {}
        add = lambda d, k, q: d.__setitem__(k, [a + b for a, b in zip(d[k], q)] if k in d else q)
        if op == 'vec_copy':
            for k in range(size):
                out[l[1] + k] = (x[l[0] + k], {l[0] + k: one})
        elif op == 'vec_dot':
            a, b, r = l
            d, t = {}, [0.0] * K
            for k in range(size):
                add(d, a + k, x[b + k])
                add(d, b + k, x[a + k])
                t = [p + q for p, q in zip(t, mul(x[a + k], x[b + k]))]
            out[r] = (t, d)
        elif op == 'vec_axpy':
            q, a, b, r = l
            for k in range(size):
                d = {}
                add(d, q, x[a + k])
                add(d, a + k, x[q])
                add(d, b + k, one)
                out[r + k] = ([s + t for s, t in zip(mul(x[q], x[a + k]), x[b + k])], d)
        else:
            for i, (val, d, dep) in s1.out.items():
                if all(q == 1.0 for q in d.values()) and len(d) <= 1:
                    e = next(iter(d), None)
                    out[i] = ([val] + (x[e][1:] if e is not None else [0.0] * (K - 1)), {k: one for k in d})
                else:
                    out[i] = ([val] + [NAN] * (K - 1), {k: [NAN] * K for k in d})
            if op == 'subscript':
                i = l[1] + int(x[l[0]][0])
                out = {l[2]: (x[i], {i: one})}
        return s1, out
    locs = dict(zip(o.locs, l))
    if o.ref:
        locs['R'] = int(x[locs['p']][0]) - base
    e = {}
    for q, i in locs.items():
        e['x_' + q] = x[i][0]
        for j in range(1, K):
            e[f'x_{q}_{j}'] = x[i][j]
    for k, q in enumerate(v):
        e[f'c{k}'] = num(q, base)
    env = Env(random.Random(1), {}, e)

    def ev(t):
        try:
            r = evaluate(t, env) if isinstance(t, E) else t
            return float(r) if isinstance(r, (int, float, Fraction)) else NAN
        except (EvalFail, ValueError, OverflowError, ZeroDivisionError, ArithmeticError):
            return NAN
    xs = {q: rvar('x_' + q) for q in locs}
    vs = [rvar(f'c{k}') for k in range(o.vals)]
    smooth = all(evaluate(c, env) for c in (o.pre(xs, vs) if o.pre else [])) and not (o.tie and evaluate(o.tie(xs, vs), env)) and not o.first_order
    out = {}
    for role, z, parts in symbolic(o):
        d = {}
        for q, p in parts.items():
            if role == 'R' and q == 'p':
                continue
            w = [ev(p[i]) if smooth else NAN for i in range(K)]
            i = locs[q]
            d[i] = [a + b for a, b in zip(d[i], w)] if i in d else w
        out[locs[role]] = ([ev(z[0])] + [ev(z[i]) if smooth else NAN for i in range(1, K)], d)
    return s1, out


def hosim(prog, X, base):
    """X: location -> coefficients"""
    x = [[num(q, base) for q in r] for r in X]
    steps = []
    for r in prog.rec:
        s, out = hostep(r, x, base, prog.params)
        steps.append((s, out))
        if s.branch:
            return x, steps, -1
        for i, (c, d) in out.items():
            x[i] = c
    return x, steps, 0


def hoadjoint(steps, U):
    """U: location -> coefficients of the weight"""
    A = [list(u) for u in U]
    K = len(A[0])
    for s, out in reversed(steps):
        res = {i: A[i] for i in out}
        for i in out:
            A[i] = [0.0] * K
        for i, (c, d) in out.items():
            for k, p in d.items():
                r = res[i]
                if any(r) or any(q != q for q in r):
                    A[k] = [A[k][q] + sum(r[j] * p[q - j] for j in range(q + 1)) for q in range(K)]
    return A


class Step:
    """one executed operation: out: {location: (value, {operand: partial or None}, {operand: depends})}"""

    def __init__(self, rec, out, ret, branch, rret, tie):
        self.rec, self.out, self.ret, self.branch, self.rret, self.tie = rec, out, ret, branch, rret, tie


def step(rec, x, base, tight, params):
    op, l, v, size = rec
    v = [num(q, base) for q in v]
    o = OPS.get(op)
    nop = lambda rc: rc
    lin1 = lambda d: (dict(d), {k: True for k, q in d.items()})
    if o is not None:
        locs = dict(zip(o.locs, l))
        if o.ref:
            R = int(x[locs['p']]) - base
            if not 0 <= R < len(x):
                raise Nan
            locs['R'] = R
        xs = {r: rvar('x_' + r) for r in locs}
        vs = [rvar(f'c{k}') for k in range(o.vals)]
        env = Env(random.Random(1), {}, {**{'x_' + r: x[i] for r, i in locs.items()}, **{f'c{k}': q for k, q in enumerate(v)}})

        def ev(t):
            if not isinstance(t, E):
                return t
            try:
                r = evaluate(t, env)
            except (EvalFail, ValueError, OverflowError, ZeroDivisionError):
                return None
            return r
        smooth = all(ev(c) for c in (o.pre(xs, vs) if o.pre else []))
        out = {}

        def one(role, val, parts):
            d, dep = {}, {}
            for r, q in parts.items():
                i = locs[r]
                z = ev(q) if smooth else None
                if z is None or i in d and d[i] is None:
                    d[i] = None
                else:
                    d[i] = d.get(i, 0.0) + z
                must = True
                if tight and isinstance(q, E) and q.op == 'rite':
                    c, a, b = q.args
                    must = bool(ev(bnot(c) if a is R0 else c)) if (a is R0 or b is R0) else True
                dep[i] = dep.get(i, False) or must
            out[locs[role]] = (ev(val), d, dep)
        if o.out:
            one(o.out, o.value(xs, vs), o.partials(xs, vs))
            if o.aux:
                one(o.aux[0], o.aux[1](xs, vs), o.aux[2](xs, vs))
        ret = (lambda rc: rc if rc is None else ev(o.ret(xs, vs, rc))) if o.ret else nop
        if o.tie and ev(o.tie(xs, vs)):      # for abs the code depends on the tangents
            ret = (lambda rc: rc and min(rc, 1)) if op == 'min_op' else lambda rc: None
        rret = ret if o.ret else None
        tie = bool(o.ret and 'c' in locs and x[locs['c']] == 0)
        return Step(rec, out, ret, bool(o.branch and ev(o.branch(xs, vs))), rret, tie)
    out = {}
    if op == 'vec_copy':
        a, r = l
        for k in range(size):
            out[r + k] = (x[a + k], *lin1({a + k: 1.0}))
    elif op == 'vec_dot':
        a, b, r = l
        d = {}
        for k in range(size):
            d[a + k] = d.get(a + k, 0) + x[b + k]
            d[b + k] = d.get(b + k, 0) + x[a + k]
        out[r] = (sum(x[a + k] * x[b + k] for k in range(size)), *lin1(d))
    elif op == 'vec_axpy':
        q, a, b, r = l
        for k in range(size):
            d = {q: x[a + k]}
            d[a + k] = d.get(a + k, 0) + x[q]
            d[b + k] = d.get(b + k, 0) + 1.0
            out[r + k] = (x[q] * x[a + k] + x[b + k], *lin1(d))
    elif op == 'take_stock_op':
        for k in range(size):
            out[l[0] + k] = (v[k], {}, {})
    elif op == 'assign_p':
        out[l[0]] = (params[size], {}, {})
    elif op == 'subscript':
        i = l[1] + int(x[l[0]])
        out[l[2]] = (x[i], *lin1({i: 1.0}))
    elif op == 'subscript_ref':
        out[l[2]] = (float(base + l[1] + int(x[l[0]])), {l[2]: None}, {l[2]: False})
    elif op == 'death_not':
        for i in range(l[0], l[1] + 1):
            out[i] = (x[i], {i: None}, {i: False})
    else:
        raise Nan
    return Step(rec, out, nop, False, None, False)


def simulate(prog, x, base, tight=True):
    x = [num(q, base) for q in x]
    steps = []
    rc = 3
    for r in prog.rec:
        s = step(r, x, base, tight, prog.params)
        steps.append(s)
        if s.branch:
            return x, steps, -1
        rc = s.ret(rc)
        for i, (val, d, dep) in s.out.items():
            if val is None:
                raise Nan
        x = list(x)
        for i, (val, d, dep) in s.out.items():
            x[i] = val
    return x, steps, rc


def tangent(steps, X):
    X = list(X)
    for s in steps:
        new = {}
        for i, (val, d, dep) in s.out.items():
            t = 0.0
            for k, q in d.items():
                t = None if t is None or q is None or X[k] is None else t + q * X[k]
            new[i] = t
        for i, t in new.items():
            X[i] = t
    return X


def adjoint(steps, u):
    A = list(u)
    rc = 3
    for s in reversed(steps):
        main = list(s.out)[:1]
        if s.rret and (not main or any(A[i] is None or A[i] != 0 for i in main) or s.rec[0] == 'min_op'):
            if main and s.tie or any(A[i] is None for i in main):
                rc = None
            elif s.rec[0] == 'min_op' and A[main[0]] == 0:
                rc = rc if s.rret(3) != 1 else min(rc, 1) if rc is not None else None
            elif rc is not None:
                q = s.rret(3)
                rc = None if q is None else min(rc, q)
        res = {i: A[i] for i in s.out}
        for i in s.out:
            A[i] = 0.0
        # the second result of sin/cos is recorded after the first
        for i, (val, d, dep) in s.out.items():
            for k, q in d.items():
                A[k] = None if A[k] is None or q is None or res[i] is None else A[k] + q * res[i]
    return A, rc


def patf(steps, P):
    lo, hi = list(P), list(P)
    for s in steps:
        nl, nh = {}, {}
        allops = s.rec[1]
        for i, (val, d, dep) in s.out.items():
            a = b = 0
            for k in dep:
                b |= hi[k]
                if dep[k]:
                    a |= lo[k]
            for k in allops:
                b |= hi[k]
            nl[i], nh[i] = a, b
        for i in nl:
            lo[i], hi[i] = nl[i], nh[i]
    return lo, hi


def patr(steps, U):
    lo, hi = list(U), list(U)
    for s in reversed(steps):
        res = {i: (lo[i], hi[i]) for i in s.out}
        if len(s.out) == 2 and s.rec[0] in ('sin_op', 'cos_op'):
            i, j = list(s.out)
            res = {i: res[i], j: (0, res[j][1])}      # the auxiliary result is no operand of later operations
        for i in s.out:
            lo[i] = hi[i] = 0
        for i, (val, d, dep) in s.out.items():
            for k in dep:
                hi[k] |= res[i][1]
                if dep[k]:
                    lo[k] |= res[i][0]
    return lo, hi


# ------------------------------------------------------------------ programs
def role_values(o, m, rng):
    """values for the roles of an operation, respecting what the recorder guarantees"""
    def one():
        return rng.choice([rng.uniform(0.1, 0.9), rng.uniform(1.1, 3), rng.uniform(-2, -0.1), 0.0, 1.0, -1.0, 2.0, float(rng.randint(-3, 3))])
    return {n: one() for n in set(m.values())}


def programs(op, alias, rng, count):
    """yields (prog, x) around one operation, sometimes with another operation that lowers the return code"""
    for p, x in programs1(op, alias, rng, count):
        if rng.random() < .4:
            k = p.n
            p.n += 3
            x = x + [0.0, rng.uniform(.5, 2), -rng.uniform(.5, 2)]
            e = rng.choice([('eq_zero', [k], [], None), ('abs_val', [k + 1, k + 2], [0.0], None), ('min_op', [k + 1, k + 2, k + 1], [1.0], None),
                            ('cond_assign', [k, k + 1, k + 2, k + 1], [1.0], None), ('abs_val', [k + 2, k + 1], [1.0], None)])
            p.rec.insert(rng.choice([0, len(p.rec)]), e)
        yield p, x


def programs1(op, alias, rng, count):
    codes = opcodes()
    o = OPS.get(op)
    for t in range(count):
        if o is not None:
            ms = list(aliasings(o))
            if alias:
                ms = [m for m in ms if ','.join(sorted(set(m.values()))) == alias] or ms
            m = rng.choice(ms)
            names = sorted(set(m.values()))
            k0 = len(names)
            idx = {n: 2 + k for k, n in enumerate(names)}
            p = Prog(2 + 3 * k0)
            val = role_values(o, m, rng)
            vals = [rng.choice([0.0, 1.0, -1.0, rng.uniform(-3, 3), 2.0]) for _ in range(o.vals)]
            if op == 'gen_quad':
                vals[0] = val[m['a']]
            if op.endswith(('sqrt_op', 'log_op')):
                val[m['a']] = rng.uniform(0.1, 3)
            f = op[:-3] if op.endswith('_op') else ''
            if f in ('asin', 'acos', 'atanh'):
                val[m['a']] = rng.uniform(-0.9, 0.9)
            if f == 'acosh':
                val[m['a']] = rng.uniform(1.1, 4)
            if op == 'cbrt_op' or op == 'pow_op':
                val[m['a']] = rng.uniform(0.1, 3) if rng.random() < .7 else val[m['a']]
                if val[m['a']] < 0:
                    vals = [float(round(q)) for q in vals]
            x = [rng.uniform(0.5, 1.5) for _ in range(p.n)]
            for n in names:
                x[idx[n]] = val[n]
            skip = set()
            if o.ref:
                x[idx[m['p']]] = f'L{idx[m["R"]]}'
                skip.add(m['p'])
            for k, n in enumerate(names):
                if n not in skip:
                    p.add('mult_a_a', [idx[n], 2 + k0 + 2 * k, 2 + k0 + 2 * k + 1][:3])
            p.add(op, [idx[m[r]] for r in o.locs], vals)
            yield p, x
            continue
        n = rng.choice([1, 2, 3, 4, 1, 2])
        K = 4 * n + 4
        p = Prog(K)
        x = [rng.uniform(-2, 2) for _ in range(K)]
        a, b, r, q = 1, 1 + n, 1 + 2 * n, 1 + 3 * n
        if rng.random() < .3 and op in ('vec_dot', 'vec_axpy'):
            b = a
        pre = lambda: [p.add('mult_a_a', [rng.randrange(K - 2), K - 1, K - 1]) for _ in range(3)]
        if op != 'take_stock_op':      # recorded before every other operation
            pre()
        if op == 'vec_copy':
            p.add(op, [a, r], size=n)
        elif op == 'vec_dot':
            p.add(op, [a, b, q], size=n)
        elif op == 'vec_axpy':
            p.add(op, [q, a, b, r], size=n)
        elif op == 'take_stock_op':
            p.add(op, [r], [rng.uniform(-2, 2) for _ in range(n)], size=n)
        elif op == 'assign_p':
            p.params = [rng.uniform(-2, 2), rng.uniform(-2, 2)]
            p.add(op, [r], size=rng.randrange(2))
        elif op in ('subscript', 'subscript_ref'):
            x[0] = float(rng.randrange(n))
            p.rec = [z for z in p.rec if 0 not in z[1]]
            p.add(op, [0, a, q], [float(n)])
        elif op == 'death_not':
            p.add(op, [r, r + n - 1])
        else:      # declarations and markers: any program
            p.add('plus_a_a', [a, r, a])
            p.add('mult_a_a', [a, a, q])
        yield p, x


def fmt(p, x):
    return '; '.join(f'{op} {l} {v}{"" if s is None else f" size {s}"}' for op, l, v, s in p.rec) + f' at {x}'


def close(a, b):
    if a is None or b is None:
        return True
    if math.isinf(b):
        return math.isnan(a) or math.isinf(a)
    if math.isnan(b):
        return True
    return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))


REVHO = ('hosr', 'hosti', 'hosov', 'hovr', 'hovti')
DRIVERS = ['hos', 'hov', 'hovwk', *REVHO, 'zos', 'fos', 'fov', 'fovo', 'fosr', 'fovr', 'intft', 'intfs', 'intrt', 'intrs']


def try_program(exe, p, x, rng, want, drivers):
    """runs the drivers; returns a description of the first difference"""
    codes = opcodes()
    n = p.n
    rnd = lambda: [rng.choice([0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(n)]
    xs = ' '.join(map(tok, x))
    cmds, plan = [p.text(codes)], []
    # the second result of sin and cos is no variable of the program
    hidden = {r[1][1] for r in p.rec if r[0] in ('sin_op', 'cos_op')}
    show = lambda u: [0.0 if i in hidden else q for i, q in enumerate(u)]

    for d in drivers:
        if d == 'zos':
            cmds.append(f'zos {rng.randrange(2)} {xs}')
            plan.append((d, None))
        elif d == 'fos':
            X = rnd()
            cmds.append(f'fos {rng.randrange(3)} {xs} ' + ' '.join(map(tok, X)))
            plan.append((d, [X]))
        elif d in ('fov', 'fovo'):
            q = rng.randint(1, 3)
            Xs = [rnd() for _ in range(q)]
            off = f'{rng.randint(0, 2)}' if d == 'fovo' else ''
            cmds.append(f'{d} {q} {off} {xs} ' + ' '.join(tok(Xs[j][i]) for i in range(n) for j in range(q)))
            plan.append((d, Xs, int(off or 0)))
        elif d in ('fosr', 'fovr'):
            q = 1 if d == 'fosr' else rng.randint(1, 3)
            U = [show(rnd()) for _ in range(q)]
            cmds.append(f'zos 1 {xs}')
            plan.append(('zos', None))
            cmds.append(f'{d} ' + ('' if d == 'fosr' else f'{q} ') + ' '.join(tok(t) for u in U for t in u))
            plan.append((d, U))
        elif d in ('hos', 'hov', 'hovwk') or d in REVHO:
            deg, q = rng.randint(1, 3), rng.randint(1, 3)
            if d in ('hos', 'hosr', 'hosti', 'hovr', 'hovti'):
                q1 = 1
            else:
                q1 = q
            keep = {'hos': rng.randrange(deg + 2), 'hov': 0, 'hovwk': rng.randrange(deg + 2)}.get(d, deg + 1)
            Xs = [[[rng.choice([0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(deg)] for _ in range(n)] for _ in range(q1)]
            f = d if d in ('hos', 'hov', 'hovwk') else 'hovwk' if d == 'hosov' else 'hos'
            cmds.append(f'{f} {deg} {keep} ' + ('' if f == 'hos' else f'{q1} ') + xs + ' ' +
                        ' '.join(tok(t) for i in range(n) for j in range(q1) for t in Xs[j][i]))
            plan.append((f, Xs))
            if d in REVHO:
                if d in ('hosr', 'hosti', 'hosov'):
                    qu = 1
                else:
                    qu = q
                U = []
                for _ in range(qu):
                    u = [[t] + [rng.choice([0.0, rng.uniform(-2, 2)]) if d not in ('hosr', 'hovr') else 0.0 for _ in range(deg)] for t in rnd()]
                    U.append([[0.0] * (deg + 1) if i in hidden else t for i, t in enumerate(u)])
                cmds.append(f'{d} {deg} {qu if d in ("hovr", "hovti") else q1} ' + ' '.join(tok(t) for u in U for r in u for t in r))
                plan.append((d, U, Xs))
        elif d.startswith('int'):
            q = rng.randint(1, 2)
            tight = d.endswith('t')
            pat = [[rng.choice([0, 1 << rng.randrange(32), rng.getrandbits(32)]) for _ in range(n)] for _ in range(q)]
            if d[3] == 'r':
                pat = [[0 if i in hidden else q for i, q in enumerate(w)] for w in pat]
            if d[3] == 'f':
                cmds.append(f'intf {int(tight)} {q} {xs} ' + ' '.join(str(pat[j][i]) for i in range(n) for j in range(q)))
            else:
                if tight:
                    cmds.append(f'zos 1 {xs}')
                    plan.append(('zos', None))
                cmds.append(f'intr {int(tight)} {q} ' + ' '.join(str(t) for r in pat for t in r))
            plan.append((d, pat))
    r = subprocess.run([exe], input='\n'.join(cmds) + '\n', capture_output=True, text=True, timeout=60)
    out = [l.split() for l in r.stdout.splitlines()]
    if r.returncode == 3:
        return None
    if not out or out[0][0] != 'base':
        return None
    base = int(out[0][1])
    out = out[1:]
    pos = 0
    for pl in plan:
        d = pl[0]
        tight = not d.endswith('s') or not d.startswith('int')
        try:
            y, steps, rc = simulate(p, x, base, tight)
        except Nan:
            return None
        if pos >= len(out):
            return f'{d}: the library ends with status {r.returncode}: {r.stderr[-300:]}' if 'crash' in want else None
        grc = int(out[pos][1])
        pos += 1
        rows = []
        while pos < len(out) and out[pos][0] != 'rc':
            rows.append((out[pos][0], [float(q) for q in out[pos][1:]]))
            pos += 1
        get = lambda nm: [v for k, v in rows if k == nm]
        if rc == -1:
            if 'rc' in want and d not in ('intfs', 'intrs') and d in ('zos', 'fos', 'fov', 'fovo', 'intft') and grc != -1:
                return f'{d}: returns {grc}, expected -1'
            return None
        if d in ('zos', 'fos', 'fov', 'fovo', 'intft', 'hos', 'hov', 'hovwk'):
            if 'rc' in want and rc is not None and grc != rc:
                return f'{d}: returns {grc}, expected {rc}'
            if 'y' in want:
                for k, (a, b) in enumerate(zip(get('y')[0], y)):
                    if not close(a, b):
                        return f'{d}: dependent {k} is {a}, expected {b}'
        if d in ('fos', 'fov', 'fovo') and 'Y' in want:
            G = get('Y')
            for j, X in enumerate(pl[1]):
                T = tangent(steps, X)
                for k in range(n):
                    g = G[0][k] if d == 'fos' else G[k][j + (pl[2] if len(pl) > 2 else 0)]
                    if not close(g, T[k]):
                        return f'{d}: tangent {j} of dependent {k} is {g}, expected {T[k]} (directions {pl[1]})'
        if d in ('hos', 'hov', 'hovwk') and 'T' in want and grc != -1:
            G = get('T')
            for j, X in enumerate(pl[1]):
                z, hs, r2 = hosim(p, [[a] + b for a, b in zip(x, X)], base)
                for k in range(n):
                    for i, t in enumerate(G[k * len(pl[1]) + j]):
                        if r2 != -1 and not close(t, z[k][i + 1]):
                            return f'{d}: coefficient {i + 1} of direction {j} of dependent {k} is {t}, expected {z[k][i + 1]} (coefficients {pl[1]})'
        if d in REVHO and 'H' in want:
            G = get('Z')
            pairs = [(U, pl[2][0]) for U in pl[1]] if d != 'hosov' else [(pl[1][0], X) for X in pl[2]]
            for j, (U, X) in enumerate(pairs):
                z, hs, r2 = hosim(p, [[a] + b for a, b in zip(x, X)], base)
                A = hoadjoint(hs, U)
                for k in range(n):
                    for i, t in enumerate(G[j * n + k]):
                        if r2 != -1 and not close(t, A[k][i]):
                            return f'{d}: coefficient {i} of entry {k} of adjoint {j} is {t}, expected {A[k][i]} (weights {pl[1]}, directions {pl[2]})'
        if d in ('fosr', 'fovr'):
            rcw = 3
            for j, u in enumerate(pl[1]):
                A, r1 = adjoint(steps, u)
                rcw = None if r1 is None or rcw is None else min(rcw, r1)
                if 'Z' in want:
                    for k in range(n):
                        g = get('Z')[j][k]
                        if not close(g, A[k]):
                            return f'{d}: entry {k} of adjoint {j} is {g}, expected {A[k]} (weights {pl[1]})'
            if 'rc' in want and rcw is not None and grc != rcw:
                return f'{d}: returns {grc}, expected {rcw} (weights {pl[1]})'
        if d in ('intft', 'intfs', 'intrt', 'intrs') and 'B' in want:
            for j, P in enumerate(pl[1]):
                lo, hi = (patf if d[3] == 'f' else patr)(steps, P)
                for k in range(n):
                    g = int(get('B')[k][j] if d[3] == 'f' else get('B')[j][k])
                    if lo[k] & ~g or g & ~hi[k]:
                        return f'{d}: word {j} of pattern {k} is {g:#x}, expected at least {lo[k]:#x}, at most {hi[k]:#x} (patterns {pl[1]})'
    if r.returncode and 'crash' in want:
        return f'the library ends with status {r.returncode}: {r.stderr[-300:]}'
    return None


JOBDRV = {'zos_forward': ['zos'], 'fos_forward': ['fos'], 'fov_forward': ['fov'], 'fov_offset_forward': ['fovo'], 'hos_forward': ['hos'], 'hov_forward': ['hov'],
          'hov_wk_forward': ['hovwk'], 'hos_ti_reverse': ['hosti', 'hosr'], 'hov_ti_reverse': ['hovti', 'hovr'], 'hos_ov_reverse': ['hosov'], 'fos_reverse': ['fosr'],
          'fov_reverse': ['fovr'], 'int_forward_tight': ['intft'], 'int_forward_safe': ['intfs'], 'int_reverse_tight': ['intrt'],
          'int_reverse_safe': ['intrs']}
HOREVOF = {'hos_forward': ['hosti', 'hovti'], 'hov_wk_forward': ['hosov']}
REVOF = {'zos_forward': ['fosr', 'fovr', 'intrt'], 'fos_forward': ['fosr']}


def sweeps(want, budget=150):
    def f(obls, seed):
        rng = random.Random(seed)
        exe = native('runner')
        items = {}
        for o in obls:
            parts = o['name'].split(':')
            fn = parts[0].split('/')[0]
            if fn not in JOBDRV or len(parts) < 2:
                continue
            m = re.match(r'(\w+)(?:\[(.*)\])?', parts[1])
            items.setdefault((m.group(1), m.group(2)), []).append(fn)
        t0 = time.time()
        tried = 0
        byop = list(items.items())[:40]
        while byop and time.time() - t0 < budget and tried < 40 * len(byop) + 200:
            for (op, alias), fns in byop:
                drv = []
                for fn in fns:
                    for d in JOBDRV[fn] + (REVOF.get(fn, []) if 'Z' in want else []) + (HOREVOF.get(fn, []) if 'H' in want else []):
                        if d not in drv:
                            drv.append(d)
                if OPS.get(op) is not None and (OPS[op].ref):
                    drv = [d for d in drv if d not in ('intfs', 'intrs')]
                if op in ('subscript', 'subscript_ref'):
                    drv = [d for d in drv if d not in ('intfs', 'intrs')]
                for p, x in programs(op, alias, rng, 4):
                    tried += 1
                    diff = try_program(exe, p, x, rng, want, drv)
                    if diff:
                        return dict(confirmed=True, input=f'{diff}; program: {fmt(p, x)}', tried=tried)
                if time.time() - t0 > budget:
                    break
        return dict(confirmed=False, tried=tried)
    return f


C01 = sweeps({'Y', 'crash'})
C02 = sweeps({'T', 'crash'})
C04 = sweeps({'H', 'crash'})
C03 = sweeps({'Z', 'crash'})
C05 = sweeps({'y', 'crash'})
C06 = sweeps({'rc', 'crash'})
C08 = sweeps({'Y', 'Z', 'y', 'rc', 'B', 'crash'})
C12 = sweeps({'B', 'crash'})


def selftest(seed=1, count=6, only=None, ALL={'Y', 'Z', 'y', 'rc', 'B', 'crash', 'T'}):
    """every operation, every driver: no difference on a correct tree"""
    rng = random.Random(seed)
    exe = native('runner')
    bad = []
    for op in list(OPS) + ['vec_copy', 'vec_dot', 'vec_axpy', 'take_stock_op', 'assign_p', 'subscript', 'subscript_ref', 'death_not', 'assign_ind']:
        drv = [d for d in DRIVERS if d not in ('intfs', 'intrs') or not (OPS.get(op) and OPS[op].ref or op.startswith('subscript'))]
        if OPS.get(op) and (op == 'cbrt_op' or OPS[op].first_order):
            drv = [d for d in drv if not d.startswith('ho')]
        for p, x in programs(op, None, rng, count):
            d = try_program(exe, p, x, rng, ALL, [d for d in drv if d in only] if only else drv)
            if d:
                bad.append((op, d, fmt(p, x)))
    return bad


if __name__ == '__main__':
    import sys
    for s in range(int(sys.argv[1]), int(sys.argv[2])):
        for b in selftest(s, only=sys.argv[3:], ALL={'Y', 'Z', 'y', 'rc', 'B', 'crash', 'T', 'H'}):
            print(*b)


_C08 = C08


def C08(obls, seed):
    rec = [o for o in obls if o['name'].startswith('recording:')]
    r = _C08([o for o in obls if o not in rec], seed) if len(rec) < len(obls) else dict(confirmed=False, tried=0)
    if rec and not r['confirmed']:
        import replay_rec
        r = replay_rec.C07(rec, seed)
    return r
