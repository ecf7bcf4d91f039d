"""Hash-consed terms (integers in linear normal form, reals, booleans), exact
rational-function normalisation, translation to z3, numeric evaluation."""
import math
from fractions import Fraction
from math import gcd
import z3


class E:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_cnt = [0]


def mk(op, args, sort):
    k = (op, args, sort)
    r = _tab.get(k)
    if r is None:
        r = E()
        r.op = op
        r.args = args
        r.sort = sort
        _cnt[0] += 1
        r.id = _cnt[0]
        r._fv = None
        _tab[k] = r
    return r


_fresh = [0]


def fresh(prefix='t'):
    _fresh[0] += 1
    return f'{prefix}#{_fresh[0]}'


# ------------------------------------------------------------------ ints
def ivar(name):
    return mk('lin', (0, ((mk('iv', (name,), 'I'), 1),)), 'I')


def lin_parts(x):
    if isinstance(x, int):
        return x, ()
    if isinstance(x, E) and x.op == 'lin':
        return x.args
    raise TypeError(f'not an int term: {x!r}')


def mklin(c, d):
    """d: dict atom->coef"""
    items = [(a, k) for a, k in d.items() if k != 0]
    if not items:
        return c
    items.sort(key=lambda t: t[0].id)
    return mk('lin', (c, tuple(items)), 'I')


def atom_int(op, args):
    return mk('lin', (0, ((mk(op, args, 'I'), 1),)), 'I')


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    if not da:
        if ca == 0:
            return b
        return mk('lin', (ca + cb, db), 'I')
    if not db:
        if cb == 0:
            return a
        return mk('lin', (ca + cb, da), 'I')
    d = dict(da)
    for x, k in db:
        d[x] = d.get(x, 0) + k
    return mklin(ca + cb, d)


def iscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 1:
        return a
    if k == 0:
        return 0
    c, d = a.args
    return mk('lin', (c * k, tuple((x, q * k) for x, q in d)), 'I')


def ineg(a):
    return iscale(a, -1)


def isub(a, b):
    if a is b:
        return 0
    return iadd(a, iscale(b, -1))


def imul(a, b):
    if isinstance(a, int):
        return iscale(b, a)
    if isinstance(b, int):
        return iscale(a, b)
    # distribute
    ca, da = a.args
    cb, db = b.args
    r = ca * cb
    r = iadd(r, iscale(mklin(0, dict(da)), cb))
    r = iadd(r, iscale(mklin(0, dict(db)), ca))
    for x, k in da:
        for y, q in db:
            fx = x.args if x.op == 'imul' else (x,)
            fy = y.args if y.op == 'imul' else (y,)
            fs = tuple(sorted(fx + fy, key=lambda t: t.id))
            r = iadd(r, iscale(atom_int('imul', fs), k * q))
    return r


def exact_div(a, k):
    """a/k if all coefficients divisible, else None"""
    if isinstance(a, int):
        return a // k if a % k == 0 else None
    c, d = a.args
    if c % k or any(q % k for _, q in d):
        return None
    return mk('lin', (c // k, tuple((x, q // k) for x, q in d)), 'I') if d else c // k


def idiv(a, b, trunc=False):
    if isinstance(b, int) and b != 0:
        if isinstance(a, int):
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b > 0) else -q if trunc else a // b
        r = exact_div(a, b)
        if r is not None:
            return r
        if b > 0 and all(q % b == 0 for _, q in a.args[1]) and not trunc:
            c, d = a.args
            return mklin(c // b, {x: q // b for x, q in d})
    return atom_int('idiv', (a, b))


def imod(a, b):
    if isinstance(b, int) and b > 0:
        if isinstance(a, int):
            return a % b
        c, d = a.args
        d2 = {x: q % b for x, q in d}
        a2 = mklin(c % b, d2)
        if isinstance(a2, int):
            return a2
        return atom_int('imod', (a2, b))
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        return int(math.fmod(a, b))
    return atom_int('imod', (a, b))


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if isinstance(c, E) and c.op == 'not':
        c, a, b = c.args[0], b, a
    return atom_int('iite', (c, a, b))


def ifn(name, *args):
    return atom_int('ifn', (name,) + args)


def is_atom(x):
    """single atom with coef 1?"""
    return isinstance(x, E) and x.op == 'lin' and x.args[0] == 0 and len(x.args[1]) == 1 and x.args[1][0][1] == 1


def the_atom(x):
    return x.args[1][0][0]


def ibor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if a is b:
        return a
    s = set()
    for x in (a, b):
        if is_atom(x) and the_atom(x).op == 'ibor':
            s.update(the_atom(x).args)
        else:
            s.add(x)
    s = tuple(sorted(s, key=lambda t: (t.id if isinstance(t, E) else -1 - t)))
    if len(s) == 1:
        return s[0]
    return atom_int('ibor', s)


def iband(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b > 0 and (b & (b + 1)) == 0:
            return imod(a, b + 1)
        if b == -1:
            return a
        return atom_int('iband', (a, b))
    if a is b:
        return a
    return atom_int('iband', tuple(sorted((a, b), key=lambda t: t.id)))


# ------------------------------------------------------------------ bools
def bnot(a):
    if isinstance(a, bool):
        return not a
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':   # not (l <= 0)  ==  -l + 1 <= 0
        return ile0(isub(1, a.args[0]))
    return mk('not', (a,), 'B')


def band(*xs):
    s = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            for y in x.args:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for x in s:
        if bnot(x) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return s[0]
    return mk('and', tuple(sorted(s, key=lambda t: t.id)), 'B')


def bor(*xs):
    s = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x.op == 'or':
            for y in x.args:
                if y not in s:
                    s.append(y)
        elif x not in s:
            s.append(x)
    for x in s:
        if bnot(x) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return s[0]
    return mk('or', tuple(sorted(s, key=lambda t: t.id)), 'B')


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


# classes of integer variables known to be pairwise distinct / bounds
DISTINCT = {}   # atom -> class id


def declare_distinct(xs, cls):
    for x in xs:
        DISTINCT[the_atom(x)] = cls


def ieq(a, b):
    d = isub(a, b)
    if isinstance(d, int):
        return d == 0
    c, items = d.args
    g = 0
    for _, q in items:
        g = gcd(g, q)
    if c % g:
        return False
    if items[0][1] < 0:
        g = -g
    if g != 1:
        d = exact_div(d, g)
        c, items = d.args
    if c == 0 and len(items) == 2 and items[0][1] == 1 and items[1][1] == -1:
        c1 = DISTINCT.get(items[0][0])
        if c1 is not None and c1 == DISTINCT.get(items[1][0]):
            return False
    if len(items) == 1 and items[0][0].op == 'iite':
        at = items[0][0]
        # coef is 1:  ite(c,x,y) + k == 0
        cc, x, y = at.args
        if isinstance(x, int) or isinstance(y, int):
            return bite(cc, ieq(x, -c), ieq(y, -c))
    if len(items) == 1 and items[0][0].op == 'b2i':
        v = -c
        if v == 1:
            return items[0][0].args[0]
        if v == 0:
            return bnot(items[0][0].args[0])
        return False
    return mk('eq0', (d,), 'B')


def ile0(d):
    if isinstance(d, int):
        return d <= 0
    c, items = d.args
    g = 0
    for _, q in items:
        g = gcd(g, q)
    if g > 1:
        # sum q x + c <= 0  <=>  sum (q/g) x + ceil(c/g) <= 0
        d = mk('lin', (-((-c) // g), tuple((x, q // g) for x, q in items)), 'I')
    return mk('le0', (d,), 'B')


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), 1))


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return atom_int('b2i', (b,))


def bvar(name):
    return mk('bv', (name,), 'B')


def bfn(name, *args):
    return mk('bfn', (name,) + args, 'B')


# ------------------------------------------------------------------ reals
def rc(v):
    if not isinstance(v, Fraction):
        v = Fraction(v)
    return mk('rc', (v,), 'R')


R0 = rc(0)
R1 = rc(1)
INF = mk('rv', ('#inf',), 'R')
NAN = mk('rv', ('#nan',), 'R')


def rvar(n):
    return mk('rv', (n,), 'R')


def isrc(x):
    return x.op == 'rc'


def radd(a, b):
    if isrc(a):
        if isrc(b):
            return rc(a.args[0] + b.args[0])
        if a is R0:
            return b
    if b is R0:
        return a
    return mk('radd', (a, b), 'R')


def rsub(a, b):
    if isrc(a) and isrc(b):
        return rc(a.args[0] - b.args[0])
    if b is R0:
        return a
    if a is R0:
        return rneg(b)
    return mk('rsub', (a, b), 'R')


def rneg(a):
    if isrc(a):
        return rc(-a.args[0])
    if a.op == 'rneg':
        return a.args[0]
    return mk('rneg', (a,), 'R')


def rmul(a, b):
    if isrc(a):
        if isrc(b):
            return rc(a.args[0] * b.args[0])
        if a is R0:
            return R0
        if a is R1:
            return b
    if b is R0:
        return R0
    if b is R1:
        return a
    return mk('rmul', (a, b), 'R')


def rdiv(a, b):
    if isrc(b) and b.args[0] != 0:
        if isrc(a):
            return rc(a.args[0] / b.args[0])
        if b is R1:
            return a
    if a is R0:
        return R0
    return mk('rdiv', (a, b), 'R')


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return rite(c.args[0], b, a)
    return mk('rite', (c, a, b), 'R')


FLOORS = {'floor': lambda q: q.numerator // q.denominator, 'ceil': lambda q: -(-q.numerator // q.denominator)}


def rfn(name, *args):
    if name in ('trunc', 'floor', 'ceil', 'round') and args[0].op == 'i2r':
        return args[0]
    if name in FLOORS and args[0].op == 'rc':
        return rc(FLOORS[name](args[0].args[0]))
    if name == 'fabs':
        return rite(rlt(args[0], R0), rneg(args[0]), args[0])
    return mk('rfn', (name,) + args, 'R')


def _asint(a):
    if a.op == 'i2r':
        return a.args[0]
    if a.op == 'rc' and a.args[0].denominator == 1:
        return int(a.args[0])
    return None


def positive():
    """an arbitrary positive real"""
    return mk('rfn', ('pos#', rvar(fresh('pos'))), 'R')


def ispos(a):
    return a.op == 'rfn' and a.args[0] == 'pos#'


def rlt(a, b):
    if isrc(a) and isrc(b):
        return a.args[0] < b.args[0]
    if a is b:
        return False
    if a.op == 'i2r' or b.op == 'i2r':
        x, y = _asint(a), _asint(b)
        if x is not None and y is not None:
            return ilt(x, y)
    if ispos(b) and isrc(a) and a.args[0] <= 0:
        return True
    if ispos(a) and isrc(b) and b.args[0] <= 0:
        return False
    return mk('rlt', (a, b), 'B')


def rle(a, b):
    return bnot(rlt(b, a))


def req(a, b):
    if a is b:
        return True
    if isrc(a) and isrc(b):
        return False
    if a.op == 'i2r' or b.op == 'i2r':
        x, y = _asint(a), _asint(b)
        if x is not None and y is not None:
            return ieq(x, y)
    # ite of constants
    for x, y in ((a, b), (b, a)):
        if ispos(x) and isrc(y) and y.args[0] <= 0:
            return False
        if x.op == 'rite' and ispos(x.args[1]) and y is R0:
            return band(bnot(x.args[0]), req(x.args[2], R0))
        if x.op == 'rite' and isrc(y) and isrc(x.args[1]) and isrc(x.args[2]):
            return bite(x.args[0], x.args[1] is y, x.args[2] is y)
    if a.id > b.id:
        a, b = b, a
    return mk('req', (a, b), 'B')


def i2r(a):
    if isinstance(a, int):
        return rc(a)
    if is_atom(a):
        t = the_atom(a)
        if t.op == 'r2i' and False:
            return t.args[0]
        if t.op == 'b2i':
            return rite(t.args[0], R1, R0)
    return mk('i2r', (a,), 'R')


# cells: (sortname, objname, coords...)
def rcell(obj, *coords):
    return mk('rcell', (obj,) + coords, 'R')


def icell(obj, *coords):
    return atom_int('icell', (obj,) + coords)


def rsum(var, lo, hi, body):
    """sum_{var in [lo,hi)} body ; var is an iv-lin term name"""
    d = isub(hi, lo)
    if isinstance(d, int) and d <= 0:
        return R0
    if isinstance(d, int) and d <= 8:
        r = R0
        for j in range(d):
            r = radd(r, subst(body, {the_atom(var): iadd(lo, j)}))
        return r
    if body is R0:
        return R0
    # canonical bound variable, shifted to start at 0
    depth = 0
    for f in _allbound(body):
        depth = max(depth, f + 1)
    bv = ivar(f'!b{depth}')
    body2 = subst(body, {the_atom(var): iadd(bv, lo)})
    # pull out factors? done by normaliser
    return mk('rsum', (bv, d, body2), 'R')


def iors(var, n, body):
    """bitwise or of body over var in [0,n)"""
    if isinstance(n, int) and n <= 4:
        r = 0
        for j in range(n):
            r = ibor(r, subst(body, {the_atom(var): j}) if isinstance(body, E) else body)
        return r
    if isinstance(body, int) and body == 0:
        return 0
    depth = 0
    for f in _allbound(body):
        depth = max(depth, f + 1)
    bv = ivar(f'!b{depth}')
    return atom_int('iors', (bv, n, subst(body, {the_atom(var): bv}) if isinstance(body, E) else body))


def bexists(var, n, body):
    """exists var in [0,n): body"""
    if isinstance(body, bool):
        return band(body, ilt(0, n))
    if isinstance(n, int) and n <= 8:
        return bor(*[subst(body, {the_atom(var): j}) for j in range(n)]) if n > 0 else False
    if not contains(body, the_atom(var)):
        return band(body, ilt(0, n))
    depth = 0
    for f in _allbound(body):
        depth = max(depth, f + 1)
    bv = ivar(f'!b{depth}')
    return mk('bex', (bv, n, subst(body, {the_atom(var): bv})), 'B')


def freebound(e, memo=None):
    """bound variables that occur in e outside of their binder"""
    if not isinstance(e, E):
        return frozenset()
    if memo is None:
        memo = {}
    r = memo.get(e.id)
    if r is None:
        if e.op == 'iv':
            r = frozenset([e.args[0]] if e.args[0].startswith('!b') else [])
        else:
            r = frozenset()
            for z in children(e):
                r |= freebound(z, memo)
            if e.op in ('bex', 'rsum'):
                a = the_atom(e.args[0]).args[0]
                r = (r - {a}) | freebound(e.args[1], memo)
        memo[e.id] = r
    return r


def subterms(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(children(x))
    return out


def _allbound(e):
    seen = set()
    out = set()
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'iv' and x.args[0].startswith('!b'):
            out.add(int(x.args[0][2:]))
        st.extend(children(x))
    return out


# ------------------------------------------------------------------ traversal
def children(x):
    op = x.op
    if op == 'lin':
        return [a for a, _ in x.args[1]]
    if op in ('iv', 'rv', 'bv', 'rc'):
        return ()
    return [a for a in x.args if isinstance(a, E)]


def free_atoms(x):
    """set of ids of all sub-terms"""
    if not isinstance(x, E):
        return frozenset()
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        st.extend(children(y))
    return seen


def contains(x, atom):
    if not isinstance(x, E):
        return False
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y is atom:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        st.extend(children(y))
    return False


def rebuild(x, a):
    op = x.op
    if op == 'radd':
        return radd(*a)
    if op == 'rsub':
        return rsub(*a)
    if op == 'rmul':
        return rmul(*a)
    if op == 'rdiv':
        return rdiv(*a)
    if op == 'rneg':
        return rneg(*a)
    if op == 'rite':
        return rite(*a)
    if op == 'rfn':
        return rfn(*a)
    if op == 'rlt':
        return rlt(*a)
    if op == 'req':
        return req(*a)
    if op == 'i2r':
        return i2r(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op == 'eq0':
        return ieq(a[0], 0)
    if op == 'le0':
        return ile0(a[0])
    if op == 'rsum' and (a[2] is R0 or isinstance(a[1], int)):
        return rsum(a[0], 0, a[1], a[2])
    return mk(op, tuple(a), x.sort)


def rebuild_int(x, a):
    op = x.op
    if op == 'idiv':
        return idiv(*a)
    if op == 'imod':
        return imod(*a)
    if op == 'iite':
        return iite(*a)
    if op == 'b2i':
        return b2i(*a)
    if op == 'imul':
        r = 1
        for y in a:
            r = imul(r, y)
        return r
    if op == 'ibor':
        r = 0
        for y in a:
            r = ibor(r, y)
        return r
    if op == 'iband':
        return iband(*a)
    return atom_int(op, tuple(a))


def subst(x, m, memo=None):
    """m: dict from E (atoms iv / rv / bv / any) to replacement.  Integer atoms
    are mapped to integer terms."""
    if memo is None:
        memo = {}
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if not isinstance(x, E):
        return x
    r = memo.get(x.id)
    if r is not None:
        return r
    if x in m:
        r = m[x]
    elif x.op == 'lin':
        c, items = x.args
        r = c
        ch = False
        for a, k in items:
            b = _subst_atom(a, m, memo)
            r = iadd(r, iscale(b, k))
    elif x.op in ('iv', 'rv', 'bv', 'rc'):
        r = x
    else:
        a = [(_subst(y, m, memo) if isinstance(y, E) else y) for y in x.args]
        if all(p is q for p, q in zip(a, x.args)) and x.op not in ('eq0',):
            r = x
        elif x.sort == 'I':
            r = rebuild_int(x, a)
        else:
            r = rebuild(x, a)
    memo[x.id] = r
    return r


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    r = memo.get(('a', a.id))
    if r is not None:
        return r
    if a.op == 'iv':
        r = mk('lin', (0, ((a, 1),)), 'I')
    elif a.op == 'imul':
        r = 1
        for y in a.args:
            r = imul(r, _subst_atom(y, m, memo))
    else:
        n = [(_subst(y, m, memo) if isinstance(y, E) else y) for y in a.args]
        if all(p is q for p, q in zip(n, a.args)):
            r = mk('lin', (0, ((a, 1),)), 'I')
        else:
            r = rebuild_int(a, n)
    memo[('a', a.id)] = r
    return r


def map_conds(x, f, memo=None):
    """simplify every ite condition with f(cond)->True/False/None"""
    if memo is None:
        memo = {}

    def cond(c):
        if isinstance(c, bool):
            return c
        k = ('c', c.id)
        r = memo.get(k)
        if r is None:
            r = f(c)
            if r is None:
                if c.op == 'and':
                    r = band(*[cond(t) for t in c.args])
                elif c.op == 'or':
                    r = bor(*[cond(t) for t in c.args])
                elif c.op == 'not':
                    r = bnot(cond(c.args[0]))
                elif c.op == 'bex':
                    b, n = cond(c.args[2]), go(c.args[1])
                    r = band(b, ilt(0, n)) if isinstance(b, bool) else mk('bex', (c.args[0], n, b), 'B')
                else:
                    r = go(c)
            memo[k] = r
        return r

    def go(y):
        if not isinstance(y, E):
            return y
        r = memo.get(y.id)
        if r is not None:
            return r
        if y.op == 'lin':
            c, items = y.args
            r = c
            for a, k in items:
                r = iadd(r, iscale(goatom(a), k))
        elif y.op in ('iv', 'rv', 'bv', 'rc'):
            r = y
        elif y.op == 'rite':
            v = cond(y.args[0])
            if v is True:
                r = go(y.args[1])
            elif v is False:
                r = go(y.args[2])
            else:
                r = rite(v, go(y.args[1]), go(y.args[2]))
        else:
            a = [go(z) for z in y.args]
            r = y if all(p is q for p, q in zip(a, y.args)) else rebuild(y, a)
        memo[y.id] = r
        return r

    def goatom(a):
        r = memo.get(('a', a.id))
        if r is not None:
            return r
        if a.op == 'iv':
            r = mk('lin', (0, ((a, 1),)), 'I')
        elif a.op == 'iite':
            v = cond(a.args[0])
            if v is True:
                r = go(a.args[1])
            elif v is False:
                r = go(a.args[2])
            else:
                r = iite(v, go(a.args[1]), go(a.args[2]))
        elif a.op == 'b2i':
            r = b2i(cond(a.args[0]))
        elif a.op == 'imul':
            r = 1
            for y in a.args:
                r = imul(r, goatom(y))
        else:
            n = [go(z) for z in a.args]
            r = mk('lin', (0, ((a, 1),)), 'I') if all(p is q for p, q in zip(n, a.args)) else rebuild_int(a, n)
        memo[('a', a.id)] = r
        return r
    return go(x)


def free_cond(c):
    """some atomic condition in c without bound variables"""
    if not isinstance(c, E) or c.sort != 'B':
        return None
    if c.op in ('and', 'or', 'not', 'bex'):
        for z in c.args:
            r = free_cond(z)
            if r is not None:
                return r
        return c if c.op == 'bex' and not freebound(c) else None
    return c if not _allbound(c) else None


def first_cond(x):
    """some ite condition (innermost: itself ite free) in x, or None"""
    seen = set()

    def go(y):
        if not isinstance(y, E) or y.id in seen:
            return None
        seen.add(y.id)
        if y.op in ('rite', 'iite', 'b2i'):
            c = go(y.args[0])
            if c is not None:
                return c
            c = free_cond(y.args[0])
            if c is not None:
                return c
        for z in children(y):
            c = go(z)
            if c is not None:
                return c
        return None
    return go(x)


# ------------------------------------------------------------------ printing
def show(x, d=0):
    if not isinstance(x, E):
        return str(x)
    if d > 14:
        return '...'
    op = x.op
    a = x.args
    s = lambda y: show(y, d + 1)
    if op == 'lin':
        c, items = a
        t = [(s(y) if k == 1 else f'{k}*{s(y)}') for y, k in items]
        if c:
            t.append(str(c))
        return '(' + '+'.join(t) + ')' if len(t) > 1 else t[0]
    if op in ('iv', 'rv', 'bv'):
        return a[0]
    if op == 'rc':
        return str(a[0])
    if op in ('radd', 'rsub', 'rmul', 'rdiv'):
        o = {'radd': '+', 'rsub': '-', 'rmul': '*', 'rdiv': '/'}[op]
        return f'({s(a[0])}{o}{s(a[1])})'
    if op == 'rneg':
        return f'-{s(a[0])}'
    if op in ('rcell', 'icell'):
        return f'{a[0]}[' + ','.join(s(y) for y in a[1:]) + ']'
    if op in ('rfn', 'ifn', 'bfn'):
        return f'{a[0]}(' + ','.join(s(y) for y in a[1:]) + ')'
    if op in ('rite', 'iite'):
        return f'ite({s(a[0])},{s(a[1])},{s(a[2])})'
    if op == 'eq0':
        return f'{s(a[0])}==0'
    if op == 'le0':
        return f'{s(a[0])}<=0'
    if op == 'rlt':
        return f'{s(a[0])}<{s(a[1])}'
    if op == 'req':
        return f'{s(a[0])}=={s(a[1])}'
    if op == 'not':
        return f'!({s(a[0])})'
    if op == 'i2r':
        return s(a[0])
    return f'{op}(' + ','.join(s(y) for y in a) + ')'


# ------------------------------------------------------------------ z3
_z3memo = {}
_z3keep = []
_zfun = {}


def zfun(name, sig):
    k = (name, sig)
    f = _zfun.get(k)
    if f is None:
        m = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
        f = z3.Function(name + '/' + sig, *[m[c] for c in sig])
        _zfun[k] = f
    return f


def toz3(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    r = _z3memo.get(x.id)
    if r is None:
        r = _toz3(x)
        _z3memo[x.id] = r
    return r


def _sortch(a):
    if isinstance(a, bool):
        return 'B'
    if isinstance(a, int):
        return 'I'
    return a.sort


def _toz3(x):
    op = x.op
    a = x.args
    if op == 'lin':
        c, items = a
        t = [toz3(y) if k == 1 else k * toz3(y) for y, k in items]
        if c:
            t.append(z3.IntVal(c))
        return z3.Sum(t) if len(t) > 1 else t[0]
    if op == 'iv':
        return z3.Int(a[0])
    if op == 'rv':
        return z3.Real(a[0])
    if op == 'bv':
        return z3.Bool(a[0])
    if op == 'rc':
        return z3.RealVal(str(a[0]))
    if op == 'radd':
        return toz3(a[0]) + toz3(a[1])
    if op == 'rsub':
        return toz3(a[0]) - toz3(a[1])
    if op == 'rmul':
        return toz3(a[0]) * toz3(a[1])
    if op == 'rdiv':
        return toz3(a[0]) / toz3(a[1])
    if op == 'rneg':
        return -toz3(a[0])
    if op in ('rite', 'iite'):
        return z3.If(toz3(a[0]), toz3(a[1]), toz3(a[2]))
    if op == 'b2i':
        return z3.If(toz3(a[0]), z3.IntVal(1), z3.IntVal(0))
    if op == 'eq0':
        return toz3(a[0]) == 0
    if op == 'le0':
        return toz3(a[0]) <= 0
    if op == 'rlt':
        return toz3(a[0]) < toz3(a[1])
    if op == 'req':
        return toz3(a[0]) == toz3(a[1])
    if op == 'not':
        return z3.Not(toz3(a[0]))
    if op == 'and':
        return z3.And([toz3(y) for y in a])
    if op == 'or':
        return z3.Or([toz3(y) for y in a])
    if op == 'i2r':
        return z3.ToReal(toz3(a[0]))
    if op == 'imul':
        r = toz3(a[0])
        for y in a[1:]:
            r = r * toz3(y)
        return r
    if op == 'idiv':
        return toz3(a[0]) / toz3(a[1])
    if op == 'imod':
        return toz3(a[0]) % toz3(a[1])
    if op in ('rfn', 'ifn', 'bfn', 'rcell', 'icell'):
        args = a[1:]
        if not args:
            return {'R': z3.Real, 'I': z3.Int, 'B': z3.Bool}[x.sort](str(a[0]))
        sig = ''.join(_sortch(y) for y in args) + x.sort
        return zfun(f'{op}:{a[0]}', sig)(*[toz3(y) for y in args])
    # generic uninterpreted
    args = [y for y in a if isinstance(y, (E, int, bool))]
    name = op + ':' + '|'.join(str(y) for y in a if not isinstance(y, (E, int, bool)))
    sig = ''.join(_sortch(y) for y in args) + x.sort
    return zfun(name, sig)(*[toz3(y) for y in args])


# ------------------------------------------------------------------ polynomials
# poly: dict monomial -> Fraction ; monomial: tuple of (atom, exp), atom: E or PA
class PA:
    """inverse-able polynomial atom (canonical polynomial as key)"""
    __slots__ = ('key', 'id', 'poly')
    tab = {}

    def __new__(cls, poly):
        key = frozenset(poly.items())
        r = cls.tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.key = key
            r.poly = poly
            _cnt[0] += 1
            r.id = _cnt[0]
            cls.tab[key] = r
        return r

    def __repr__(self):
        return f'P{self.id}'


PMAX = 60000


class TooBig(Exception):
    pass


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            del d[a]
    return d


def finish_mono(d, c):
    """apply sqrt/cbrt reductions; returns poly"""
    extra = None
    for a in list(d):
        if isinstance(a, E) and a.op == 'rfn' and a.args[0] == 'sqrt' and not (d[a] in (0, 1)):
            e = d[a]
            r = e % 2
            if r:
                d[a] = 1
            else:
                del d[a]
            u = ppow(pnorm(a.args[1]), (e - r) // 2)
            extra = u if extra is None else pmul(extra, u)
        elif isinstance(a, E) and a.op == 'rfn' and a.args[0] == 'cbrt' and not (d[a] in (0, 1, 2)):
            e = d[a]
            r = e % 3
            if r:
                d[a] = r
            else:
                del d[a]
            u = ppow(pnorm(a.args[1]), (e - r) // 3)
            extra = u if extra is None else pmul(extra, u)
    m = tuple(sorted(d.items(), key=lambda t: t[0].id))
    if extra is None:
        return {m: c}
    return pmul({m: c}, extra)


def _needs_finish(m):
    for a, e in m:
        if isinstance(a, E) and a.op == 'rfn':
            if a.args[0] == 'sqrt' and e not in (0, 1):
                return True
            if a.args[0] == 'cbrt' and e not in (0, 1, 2):
                return True
    return False


def pmul(p, q):
    r = {}
    if len(p) * len(q) > PMAX:
        raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = mono_mul(m1, m2)
            m = tuple(sorted(d.items(), key=lambda t: t[0].id))
            if _needs_finish(m):
                r = padd(r, finish_mono(d, c1 * c2))
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pinv(p):
    if not p:
        return {((NZ, -1),): Fraction(1)}
    if len(p) == 1:
        (m, c), = p.items()
        return finish_mono({a: -e for a, e in m}, 1 / c)
    # factor out common monomial, make leading coefficient 1
    ms = list(p)
    com = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(com):
            e = dm.get(a, 0)
            if e == 0 or (e > 0) != (com[a] > 0):
                del com[a]
            else:
                com[a] = min(com[a], e) if e > 0 else max(com[a], e)
        # atoms only in m with negative exponents
    # clear negative exponents
    for m in ms:
        for a, e in m:
            if e < 0 and com.get(a, 0) > e:
                com[a] = e
    inv = tuple((a, -e) for a, e in com.items())
    q = pmul(p, {tuple(sorted(inv, key=lambda t: t[0].id)): Fraction(1)}) if inv else p
    lead = min(q, key=lambda m: tuple((a.id, e) for a, e in m))
    lc = q[lead]
    q = {m: c / lc for m, c in q.items()}
    if len(q) == 1:
        return pmul(pinv(q), {tuple(sorted(inv, key=lambda t: t[0].id)): 1 / lc})
    at = PA(q)
    d = {at: -1}
    for a, e in inv:
        d[a] = d.get(a, 0) + e
    return finish_mono(d, 1 / lc)


NZ = None


def ppow(p, n):
    if n < 0:
        p = pinv(p)
        n = -n
    r = {(): Fraction(1)}
    for _ in range(n):
        r = pmul(r, p)
    return r


_pmemo = {}


def pnorm(x):
    r = _pmemo.get(x.id)
    if r is None:
        r = _pnorm(x)
        _pmemo[x.id] = r
    return r


def _pnorm(x):
    op = x.op
    a = x.args
    if op == 'rc':
        return {(): a[0]} if a[0] != 0 else {}
    if op == 'radd':
        return padd(pnorm(a[0]), pnorm(a[1]))
    if op == 'rsub':
        return padd(pnorm(a[0]), pnorm(a[1]), -1)
    if op == 'rneg':
        return {m: -c for m, c in pnorm(a[0]).items()}
    if op == 'rmul':
        return pmul(pnorm(a[0]), pnorm(a[1]))
    if op == 'rdiv':
        return pmul(pnorm(a[0]), pinv(pnorm(a[1])))
    if op == 'i2r':
        c, items = lin_parts(a[0])
        r = {(): Fraction(c)} if c else {}
        for y, k in items:
            if y.op == 'imul':
                d = {}
                for f in y.args:
                    t = mk('i2r', (mk('lin', (0, ((f, 1),)), 'I'),), 'R')
                    d[t] = d.get(t, 0) + 1
                r = padd(r, finish_mono(d, Fraction(k)))
            else:
                t = mk('i2r', (mk('lin', (0, ((y, 1),)), 'I'),), 'R')
                r = padd(r, {((t, 1),): Fraction(k)})
        return r
    if op == 'rfn':
        n = [frompoly(pnorm(y)) if isinstance(y, E) and y.sort == 'R' else y for y in a[1:]]
        if a[0] == 'pow' and n[1].op == 'rc' and n[1].args[0].denominator == 1 and abs(n[1].args[0]) <= 6:
            return ppow(pnorm(n[0]), int(n[1].args[0]))
        at = mk('rfn', (a[0],) + tuple(n), 'R')
        return {((at, 1),): Fraction(1)}
    if op == 'rsum':
        # linear: sum of polynomial terms; pull loop-invariant factors out
        bv, n, body = a
        bat = the_atom(bv)
        p = pnorm(body)
        r = {}
        for m, c in p.items():
            outm = tuple(t for t in m if not _at_contains(t[0], bat))
            inm = tuple(t for t in m if _at_contains(t[0], bat))
            if not inm:
                r = padd(r, pmul({outm: c}, pnorm(i2r(n))))
            else:
                body = frompoly({inm: Fraction(1)})
                # the sum taken from the other end
                rev = subst(body, {bat: isub(isub(n, 1), bv)})
                p2 = pnorm(rev)
                if len(p2) == 1 and list(p2.values())[0] == 1:
                    rev = frompoly(p2)
                    if rev.id < body.id:
                        body = rev
                s = mk('rsum', (bv, n, body), 'R')
                r = padd(r, pmul({outm: c}, {((s, 1),): Fraction(1)}))
        return r
    return {((x, 1),): Fraction(1)}


def _at_contains(a, bat):
    if isinstance(a, PA):
        return any(_at_contains(t, bat) for m in a.poly for t, _ in m)
    return contains(a, bat)


_fp = {}


def frompoly(p):
    k = frozenset(p.items())
    r = _fp.get(k)
    if r is not None:
        return r
    terms = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    tot = None
    for m, c in terms:
        num = rc(c)
        den = None
        for a, e in m:
            t = frompoly(a.poly) if isinstance(a, PA) else a
            for _ in range(abs(e)):
                if e > 0:
                    num = rmul(num, t)
                else:
                    den = t if den is None else rmul(den, t)
        t = num if den is None else rdiv(num, den)
        tot = t if tot is None else radd(tot, t)
    r = tot if tot is not None else R0
    _fp[k] = r
    return r


def clear_denoms(p):
    """multiply by polynomial atoms until none is left in a denominator"""
    for _ in range(12):
        neg = {}
        for m in p:
            for a, e in m:
                if isinstance(a, PA) and e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        pos = any(isinstance(a, PA) and e > 0 for m in p for a, e in m)
        if not neg and not pos:
            return p
        r = {}
        for m, c in p.items():
            d = dict(m)
            t = {(): Fraction(1)}
            for a in set(neg) | {a for a in d if isinstance(a, PA)}:
                e = d.pop(a, 0) - neg.get(a, 0)
                if e > 0:
                    t = pmul(t, ppow(a.poly, e))
            r = padd(r, pmul(finish_mono(d, c), t))
        p = r
    return p


def poly_equal(a, b):
    """decides a==b over the field of rational functions in the atoms"""
    if a is b:
        return True
    p = padd(pnorm(a), pnorm(b), -1)
    if not p:
        return True
    p = clear_denoms(p)
    return not p


# ------------------------------------------------------------------ evaluation
MATH = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt,
    'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sinh': math.sinh, 'cosh': math.cosh,
    'tanh': math.tanh, 'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'erf': math.erf,
    'erfc': math.erfc, 'cbrt': lambda v: math.copysign(abs(v) ** (1 / 3), v), 'floor': math.floor,
    'ceil': math.ceil, 'trunc': math.trunc, 'pow': lambda x, y: math.pow(x, y), 'log10': math.log10,
    'atan2': math.atan2, 'fmod': math.fmod}


class EvalFail(Exception):
    pass


class Env:
    """random but consistent interpretation"""

    def __init__(self, rng, ints=None, reals=None):
        self.rng = rng
        self.ints = ints or {}
        self.reals = reals or {}
        self.cells = {}

    def real(self, key):
        v = self.reals.get(key)
        if v is None:
            v = self.rng.choice([self.rng.uniform(0.15, 0.85), self.rng.uniform(-2, 2), self.rng.uniform(1.1, 3)])
            self.reals[key] = v
        return v

    def int(self, key):
        v = self.ints.get(key)
        if v is None:
            v = self.rng.randint(0, 4)
            self.ints[key] = v
        return v


def evaluate(x, env, memo=None):
    if memo is None:
        memo = {}

    def go(y):
        if not isinstance(y, E):
            return y
        r = memo.get(y.id)
        if r is None:
            r = go1(y)
            memo[y.id] = r
        return r

    def go1(y):
        op = y.op
        a = y.args
        if op == 'lin':
            return a[0] + sum(k * go(t) for t, k in a[1])
        if op == 'iv':
            return env.int(a[0])
        if op == 'rv':
            return env.real(a[0])
        if op == 'bv':
            return bool(env.int(a[0]) % 2)
        if op == 'rc':
            return float(a[0])
        if op == 'radd':
            return go(a[0]) + go(a[1])
        if op == 'rsub':
            return go(a[0]) - go(a[1])
        if op == 'rmul':
            return go(a[0]) * go(a[1])
        if op == 'rdiv':
            d = go(a[1])
            if d == 0:
                raise EvalFail('div0')
            return go(a[0]) / d
        if op == 'rneg':
            return -go(a[0])
        if op in ('rite', 'iite'):
            return go(a[1]) if go(a[0]) else go(a[2])
        if op == 'b2i':
            return int(go(a[0]))
        if op == 'eq0':
            return go(a[0]) == 0
        if op == 'le0':
            return go(a[0]) <= 0
        if op == 'rlt':
            return go(a[0]) < go(a[1])
        if op == 'req':
            return go(a[0]) == go(a[1])
        if op == 'not':
            return not go(a[0])
        if op == 'and':
            return all(go(t) for t in a)
        if op == 'or':
            return any(go(t) for t in a)
        if op == 'i2r':
            return float(go(a[0]))
        if op == 'imul':
            r = 1
            for t in a:
                r *= go(t)
            return r
        if op == 'idiv':
            d = go(a[1])
            if d == 0:
                raise EvalFail('div0')
            return go(a[0]) // d
        if op == 'imod':
            d = go(a[1])
            if d == 0:
                raise EvalFail('div0')
            return go(a[0]) % d
        if op == 'ibor':
            r = 0
            for t in a:
                r |= go(t)
            return r
        if op == 'iband':
            return go(a[0]) & go(a[1])
        if op == 'iors':
            bat = the_atom(a[0])
            s = 0
            for j in range(max(0, min(go(a[1]), 50))):
                s |= evaluate(subst(a[2], {bat: j}), env)
            return s
        if op == 'rfn' and a[0] == 'pos#':
            return math.exp(env.real((op,) + tuple(go(t) for t in a)) / 3)
        if op == 'rfn' and a[0] in MATH:
            try:
                return float(MATH[a[0]](*[go(t) for t in a[1:]]))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise EvalFail(a[0])
        if op == 'rsum':
            n = go(a[1])
            bat = the_atom(a[0])
            s = 0.0
            for j in range(max(0, min(n, 50))):
                s += evaluate(subst(a[2], {bat: j}), env)
            return s
        if y.sort == 'R':
            return env.real((op,) + tuple(go(t) for t in a))
        if y.sort == 'I':
            return env.int((op,) + tuple(go(t) for t in a))
        return bool(env.int((op,) + tuple(go(t) for t in a)) % 2)
    return go(x)
