"""The contract of every tape operation, written once from the mathematical
definition of the operation and shared by all sweeps: value function, partial
derivatives, in/out locations, return-code rule, record layout."""
import re
from fractions import Fraction
from expr import *
import build, os

HALF = rc(Fraction(1, 2))


def opcodes():
    t = open(os.path.join(build.INC, 'adolc/oplate.h')).read()
    names = re.findall(r'^\s+(\w+),$', t, re.M)
    return {n: i for i, n in enumerate(names)}


class Op:
    def __init__(self, name, locs, vals=0, out=None, ins=(), value=None, partials=None, pre=None, ret=None, branch=None,
                 extra=None, distinct=(), keep=True, rpre=None, zero=(), diffpre=None, rret=None, ref=None, aux=None, tie=None, tieret=None):
        self.name = name
        self.locs = locs.split()      # record layout (order on the tape, forward)
        self.vals = vals              # number of recorded constants
        self.out = out                # location role of the result
        self.ins = tuple(ins)
        self.value = value            # value(x, v) -> term ; x: dict role -> term
        self.partials = partials      # partials(x, v) -> {role: term}
        self.pre = pre                # pre(x, v) -> conditions of the operation's domain (and differentiability)
        self.ret = ret                # forward return code: ret(x, v, old) -> term
        self.rret = rret
        self.tie = tie                # condition excluded by pre at which codes, values and the stack are still determined
        self.tieret = tieret          # return code there: tieret(old, relevant)
        self.branch = branch          # condition under which the recorded branch is no longer taken
        self.aux = aux                # (role, value, partials): second result
        self.distinct = tuple(distinct)
        self.keep = keep              # overwritten value goes to the taylor stack
        self.opcode = name
        self.fixx = {}                # operand values fixed in a variant of the operation
        self.first_order = False      # no higher derivatives there
        self.fixv = None              # recorded constants, likewise
        self.ref = ref                # role of the location that holds the referenced location


def mindec(old, k, cond):
    return iite(band(cond, ilt(k, old)), k, old)


OPS = {}


def op(*a, **k):
    o = Op(*a, **k)
    OPS[o.name] = o


one = lambda x, v: R1
lin = lambda **c: (lambda x, v: {r: rc(q) for r, q in c.items()})


def sq(x):
    return rmul(x, x)


# ---- assignments
op('assign_a', 'a r', out='r', ins='a', value=lambda x, v: x['a'], partials=lin(a=1), distinct=[('a', 'r')])  # the recorder skips x = x
op('assign_d', 'r', 1, out='r', value=lambda x, v: v[0], partials=lin())
op('assign_d_zero', 'r', out='r', value=lambda x, v: R0, partials=lin())
op('assign_d_one', 'r', out='r', value=lambda x, v: R1, partials=lin())
op('eq_plus_d', 'r', 1, out='r', ins='r', value=lambda x, v: radd(x['r'], v[0]), partials=lin(r=1))
op('eq_min_d', 'r', 1, out='r', ins='r', value=lambda x, v: rsub(x['r'], v[0]), partials=lin(r=1))
op('eq_mult_d', 'r', 1, out='r', ins='r', value=lambda x, v: rmul(x['r'], v[0]), partials=lambda x, v: {'r': v[0]})
op('eq_plus_a', 'a r', out='r', ins='ar', value=lambda x, v: radd(x['r'], x['a']), partials=lin(r=1, a=1))
op('eq_min_a', 'a r', out='r', ins='ar', value=lambda x, v: rsub(x['r'], x['a']), partials=lin(r=1, a=-1))
op('eq_mult_a', 'a r', out='r', ins='ar', value=lambda x, v: rmul(x['r'], x['a']),
   partials=lambda x, v: {'r': x['a'], 'a': x['r']})
op('incr_a', 'r', out='r', ins='r', value=lambda x, v: radd(x['r'], R1), partials=lin(r=1))
op('decr_a', 'r', out='r', ins='r', value=lambda x, v: rsub(x['r'], R1), partials=lin(r=1))
# ---- binary / unary arithmetic
op('plus_a_a', 'a b r', out='r', ins='ab', value=lambda x, v: radd(x['a'], x['b']), partials=lin(a=1, b=1))
op('min_a_a', 'a b r', out='r', ins='ab', value=lambda x, v: rsub(x['a'], x['b']), partials=lin(a=1, b=-1))
op('mult_a_a', 'a b r', out='r', ins='ab', value=lambda x, v: rmul(x['a'], x['b']),
   partials=lambda x, v: {'a': x['b'], 'b': x['a']})
op('plus_d_a', 'a r', 1, out='r', ins='a', value=lambda x, v: radd(x['a'], v[0]), partials=lin(a=1))
op('min_d_a', 'a r', 1, out='r', ins='a', value=lambda x, v: rsub(v[0], x['a']), partials=lin(a=-1))
op('mult_d_a', 'a r', 1, out='r', ins='a', value=lambda x, v: rmul(x['a'], v[0]), partials=lambda x, v: {'a': v[0]})
op('div_a_a', 'a b r', out='r', ins='ab', value=lambda x, v: rdiv(x['a'], x['b']),
   partials=lambda x, v: {'a': rdiv(R1, x['b']), 'b': rneg(rdiv(x['a'], sq(x['b'])))},
   pre=lambda x, v: [bnot(req(x['b'], R0))])
op('div_d_a', 'a r', 1, out='r', ins='a', value=lambda x, v: rdiv(v[0], x['a']),
   partials=lambda x, v: {'a': rneg(rdiv(v[0], sq(x['a'])))}, pre=lambda x, v: [bnot(req(x['a'], R0))])
op('pos_sign_a', 'a r', out='r', ins='a', value=lambda x, v: x['a'], partials=lin(a=1))
op('neg_sign_a', 'a r', out='r', ins='a', value=lambda x, v: rneg(x['a']), partials=lin(a=-1))
op('eq_plus_prod', 'a b r', out='r', ins='abr', value=lambda x, v: radd(x['r'], rmul(x['a'], x['b'])),
   partials=lambda x, v: {'a': x['b'], 'b': x['a'], 'r': R1}, keep=False, distinct=[('a', 'r'), ('b', 'r')])
op('eq_min_prod', 'a b r', out='r', ins='abr', value=lambda x, v: rsub(x['r'], rmul(x['a'], x['b'])),
   partials=lambda x, v: {'a': rneg(x['b']), 'b': rneg(x['a']), 'r': R1}, keep=False, distinct=[('a', 'r'), ('b', 'r')])
# ---- intrinsics
op('exp_op', 'a r', out='r', ins='a', value=lambda x, v: rfn('exp', x['a']), partials=lambda x, v: {'a': rfn('exp', x['a'])})
op('sin_op', 'a b r', out='r', ins='a', value=lambda x, v: rfn('sin', x['a']), partials=lambda x, v: {'a': rfn('cos', x['a'])},
   aux=('b', lambda x, v: rfn('cos', x['a']), lambda x, v: {'a': rneg(rfn('sin', x['a']))}),
   distinct=[('a', 'b'), ('b', 'r')])
op('cos_op', 'a b r', out='r', ins='a', value=lambda x, v: rfn('cos', x['a']),
   partials=lambda x, v: {'a': rneg(rfn('sin', x['a']))},
   aux=('b', lambda x, v: rfn('sin', x['a']), lambda x, v: {'a': rfn('cos', x['a'])}), distinct=[('a', 'b'), ('b', 'r')])
# quadrature operations: the derivative has been recorded at location b
inner = lambda x, v: [bnot(req(x['a'], R1)), bnot(req(x['a'], rc(-1)))]
for f, pre in (('atan', None), ('asin', inner), ('acos', inner), ('asinh', None), ('acosh', inner), ('atanh', inner),
               ('erf', None), ('erfc', None)):
    op(f + '_op', 'a b r', out='r', ins='a', value=(lambda f: lambda x, v: rfn(f, x['a']))(f),
       partials=lambda x, v: {'a': x['b']}, pre=pre, distinct=[('b', 'r'), ('a', 'b')])
op('log_op', 'a r', out='r', ins='a', value=lambda x, v: rfn('log', x['a']), partials=lambda x, v: {'a': rdiv(R1, x['a'])},
   pre=lambda x, v: [rlt(R0, x['a'])])
op('sqrt_op', 'a r', out='r', ins='a', value=lambda x, v: rfn('sqrt', x['a']),
   partials=lambda x, v: {'a': rdiv(HALF, rfn('sqrt', x['a']))},
   pre=lambda x, v: [rlt(R0, x['a']), bnot(req(rfn('sqrt', x['a']), R0))])
op('cbrt_op', 'a r', out='r', ins='a', value=lambda x, v: rfn('cbrt', x['a']),
   partials=lambda x, v: {'a': rdiv(R1, rmul(rc(3), sq(rfn('cbrt', x['a']))))},
   pre=lambda x, v: [bnot(req(x['a'], R0)), bnot(req(rfn('cbrt', x['a']), R0))])
op('pow_op', 'a r', 1, out='r', ins='a', value=lambda x, v: rfn('pow', x['a'], v[0]),
   partials=lambda x, v: {'a': rdiv(rmul(v[0], rfn('pow', x['a'], v[0])), x['a'])},
   pre=lambda x, v: [bnot(req(x['a'], R0))])


def at(nm, tag, fixx, fixv, **k):
    """variant of an operation at particular operand values and constants"""
    import copy
    o = copy.copy(OPS[nm])
    o.name = f'{nm}({tag})'
    o.fixx, o.fixv, o.pre, o.tie = fixx, fixv, None, None
    for a, b in k.items():
        setattr(o, a, b)
    POINTS[o.name] = o


def _npow(n):
    def f(x, v):
        t = rc(n)
        for _ in range(n - 1):
            t = rmul(t, x['a'])
        return {'a': t}
    return f


POINTS = {}
for _n in (1, 2, 3, 4):
    at('pow_op', f'0^{_n}', {'a': R0}, [rc(_n)], partials=_npow(_n))
at('pow_op', '0^1.5', {'a': R0}, [rc(Fraction(3, 2))], partials=lambda x, v: {'a': R0}, first_order=True)
op('gen_quad', 'a b r', 2, out='r', ins='a', value=lambda x, v: v[1], partials=lambda x, v: {'a': x['b']},
   pre=lambda x, v: [req(v[0], x['a'])], distinct=[('b', 'r'), ('a', 'b')])
# ---- non-smooth
op('min_op', 'a b r', 1, out='r', ins='ab', value=lambda x, v: rite(rlt(x['b'], x['a']), x['b'], x['a']),
   partials=lambda x, v: {'a': rite(rlt(x['a'], x['b']), R1, R0), 'b': rite(rlt(x['b'], x['a']), R1, R0)},
   pre=lambda x, v: [bnot(req(x['a'], x['b'])), bor(rlt(x['a'], x['b']), rlt(x['b'], x['a']))],
   ret=lambda x, v, o: mindec(o, 2, bor(band(rlt(x['b'], x['a']), bnot(req(v[0], R0))), band(rlt(x['a'], x['b']), req(v[0], R0)))),
   rret='same', distinct=[('a', 'b')], tie=lambda x, v: req(x['a'], x['b']), tieret=lambda o, rel: mindec(o, 1, True))
op('abs_val', 'a r', 1, out='r', ins='a', value=lambda x, v: rite(rlt(x['a'], R0), rneg(x['a']), x['a']),
   partials=lambda x, v: {'a': rite(rlt(x['a'], R0), rc(-1), R1)},
   pre=lambda x, v: [bnot(req(x['a'], R0)), bor(rlt(x['a'], R0), rlt(R0, x['a']))],
   ret=lambda x, v, o: mindec(o, 2, bor(band(rlt(x['a'], R0), bnot(req(v[0], R0))), band(rlt(R0, x['a']), req(v[0], R0)))),
   rret='same', tie=lambda x, v: req(x['a'], R0), tieret=lambda o, rel: mindec(o, 1, rel))
for f in ('ceil', 'floor'):
    op(f + '_op', 'a r', 1, out='r', ins='a', value=(lambda f: lambda x, v: rfn(f, x['a']))(f), partials=lin(),
       ret=(lambda f: lambda x, v, o: mindec(o, 2, bnot(req(v[0], rfn(f, x['a'])))))(f), rret='same')
# ---- conditional assignments
gt0 = lambda x, v: rlt(R0, x['c'])
ge0 = lambda x, v: rle(R0, x['c'])
flip_gt = lambda x, v, o: mindec(o, 2, bor(band(rlt(R0, x['c']), rle(v[0], R0)), band(bnot(rlt(R0, x['c'])), rlt(R0, v[0]))))
flip_ge = lambda x, v, o: mindec(o, 2, bor(band(rle(R0, x['c']), rlt(v[0], R0)), band(bnot(rle(R0, x['c'])), rle(R0, v[0]))))
for nm, cnd, flip in (('cond_assign', gt0, flip_gt), ('cond_eq_assign', ge0, flip_ge)):
    tie = (lambda flip, strict: lambda x, v, o: mindec(flip(x, v, o), 0, req(x['c'], R0)) if strict else flip(x, v, o))(flip, nm == 'cond_assign')
    op(nm, 'c a b r', 1, out='r', ins='ab',
       value=(lambda cnd: lambda x, v: rite(cnd(x, v), x['a'], x['b']))(cnd),
       partials=(lambda cnd: lambda x, v: {'a': rite(cnd(x, v), R1, R0), 'b': rite(cnd(x, v), R0, R1)})(cnd), ret=tie)
    op(nm + '_s', 'c a r', 1, out='r', ins='ar',
       value=(lambda cnd: lambda x, v: rite(cnd(x, v), x['a'], x['r']))(cnd),
       partials=(lambda cnd: lambda x, v: {'a': rite(cnd(x, v), R1, R0), 'r': rite(cnd(x, v), R0, R1)})(cnd),
       ret=(lambda c, strict: lambda x, v, o: mindec(
           mindec(o, 2, band(rlt(R0, x['c']), rle(v[0], R0)) if strict else band(rle(R0, x['c']), rlt(v[0], R0))),
           0, req(x['c'], R0) if strict else False))(cnd, nm == 'cond_assign'))
# ---- branch operations: condition = the recorded outcome no longer holds
for nm, sw, tie in (('eq_zero', lambda t: bnot(req(t, R0)), True), ('neq_zero', lambda t: req(t, R0), False),
                    ('le_zero', lambda t: rlt(R0, t), True), ('gt_zero', lambda t: rle(t, R0), False),
                    ('ge_zero', lambda t: rlt(t, R0), True), ('lt_zero', lambda t: rle(R0, t), False)):
    op(nm, 'a', branch=(lambda sw: lambda x, v: sw(x['a']))(sw),
       ret=(lambda tie: lambda x, v, o: mindec(o, 0, req(x['a'], R0)) if tie else o)(tie))
# ---- references (advector): x['p'] = the location stored at p
ref1 = dict(ref='p')
op('ref_incr_a', 'p', out='R', ins='R', value=lambda x, v: radd(x['R'], R1), partials=lin(R=1), ref='p')
op('ref_decr_a', 'p', out='R', ins='R', value=lambda x, v: rsub(x['R'], R1), partials=lin(R=1), ref='p')
op('ref_assign_d', 'p', 1, out='R', value=lambda x, v: v[0], partials=lin(), ref='p')
op('ref_assign_d_zero', 'p', out='R', value=lambda x, v: R0, partials=lin(), ref='p')
op('ref_assign_d_one', 'p', out='R', value=lambda x, v: R1, partials=lin(), ref='p')
op('ref_assign_a', 'a p', out='R', ins='a', value=lambda x, v: x['a'], partials=lin(a=1), ref='p')
op('ref_copyout', 'p r', out='r', ins='R', value=lambda x, v: x['R'], partials=lin(R=1), ref='p',
   distinct=[('p', 'r'), ('R', 'r')])  # the result is a fresh location
op('ref_eq_plus_d', 'p', 1, out='R', ins='R', value=lambda x, v: radd(x['R'], v[0]), partials=lin(R=1), ref='p')
op('ref_eq_min_d', 'p', 1, out='R', ins='R', value=lambda x, v: rsub(x['R'], v[0]), partials=lin(R=1), ref='p')
op('ref_eq_mult_d', 'p', 1, out='R', ins='R', value=lambda x, v: rmul(x['R'], v[0]), partials=lambda x, v: {'R': v[0]}, ref='p')
op('ref_eq_plus_a', 'a p', out='R', ins='aR', value=lambda x, v: radd(x['R'], x['a']), partials=lin(R=1, a=1), ref='p')
op('ref_eq_min_a', 'a p', out='R', ins='aR', value=lambda x, v: rsub(x['R'], x['a']), partials=lin(R=1, a=-1), ref='p')
op('ref_eq_mult_a', 'a p', out='R', ins='aR', value=lambda x, v: rmul(x['R'], x['a']),
   partials=lambda x, v: {'R': x['a'], 'a': x['R']}, ref='p')
for nm, cnd, flip in (('cond_assign', gt0, flip_gt), ('cond_eq_assign', ge0, flip_ge)):
    b = OPS[nm]
    op('ref_' + nm, 'c a b p', 1, out='R', ins='ab', value=b.value, partials=b.partials, ret=b.ret, ref='p')
    s = OPS[nm + '_s']
    op('ref_' + nm + '_s', 'c a p', 1, out='R', ins='aR',
       value=(lambda cnd: lambda x, v: rite(cnd(x, v), x['a'], x['R']))(cnd),
       partials=(lambda cnd: lambda x, v: {'a': rite(cnd(x, v), R1, R0), 'R': rite(cnd(x, v), R0, R1)})(cnd), ret=s.ret,
       ref='p')


def partitions(items):
    """all set partitions as lists of blocks"""
    if not items:
        yield []
        return
    f, rest = items[0], items[1:]
    for p in partitions(rest):
        for i in range(len(p)):
            yield p[:i] + [[f] + p[i]] + p[i + 1:]
        yield [[f]] + p


def aliasings(o):
    """role -> location variable, for every admissible aliasing"""
    roles = list(o.locs)
    if o.ref and 'R' not in roles:
        roles.append('R')
    for p in partitions(roles):
        if any(a in b and c in b for b in p for a, c in o.distinct):
            continue
        if o.ref and any('p' in b and 'R' in b for b in p):
            continue      # a reference never refers to itself
        if o.ref and any('p' in b and len(b) > 1 for b in p):
            continue      # the location holding an index is no differentiable operand
        m = {}
        for b in p:
            for r in b:
                m[r] = '='.join(sorted(b))
        yield m
