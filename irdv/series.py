"""Truncated power series over symbolic coefficients: the oracle of the
higher-order sweeps. A series is a function i -> coefficient, evaluated lazily."""
from fractions import Fraction
from expr import *


class Ser:
    def __init__(self, f):
        self.f = f
        self.memo = {}

    def __getitem__(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self.f(i)
        return r


def const(v):
    return Ser(lambda i: v if i == 0 else R0)


def smul(a, b):
    def f(i):
        t = R0
        for j in range(i + 1):
            t = radd(t, rmul(a[j], b[i - j]))
        return t
    return Ser(f)


def sdiv(a, b):
    def f(i):
        t = a[i]
        for j in range(i):
            t = rsub(t, rmul(z[j], b[i - j]))
        return rdiv(t, b[0])
    z = Ser(f)
    return z


def chain(z0, terms):
    """the series with value z0 whose derivative is sum q_r(t) x_r'(t); terms: [(x_r, q_r)]"""
    def f(i):
        if i == 0:
            return z0
        t = R0
        for x, q in terms:
            for j in range(1, i + 1):
                t = radd(t, rmul(rmul(rc(j), x[j]), q[i - j]))
        return rmul(rc(Fraction(1, i)), t)
    return Ser(f)


DERIV = {
    'exp': lambda u: rfn('exp', u), 'sin': lambda u: rfn('cos', u), 'cos': lambda u: rneg(rfn('sin', u)),
    'log': lambda u: rdiv(R1, u), 'sqrt': lambda u: rdiv(rc(Fraction(1, 2)), rfn('sqrt', u)),
    'cbrt': lambda u: rdiv(R1, rmul(rc(3), rmul(rfn('cbrt', u), rfn('cbrt', u)))),
    'pow': lambda u, c: rdiv(rmul(c, rfn('pow', u, c)), u),
}


class Evaluator:
    """series of an expression whose variables are series; m: variable -> Ser"""

    def __init__(self, m):
        self.m = m
        self.base = {x: s[0] for x, s in m.items()}
        self.memo = {}

    def __call__(self, e):
        r = self.memo.get(e.id)
        if r is None:
            r = self.memo[e.id] = self.go(e)
        return r

    def go(self, e):
        if e in self.m:
            return self.m[e]
        if not any(contains(e, x) for x in self.m):
            return const(e)
        op, a = e.op, e.args
        if op in ('radd', 'rsub'):
            x, y = self(a[0]), self(a[1])
            g = radd if op == 'radd' else rsub
            return Ser(lambda i: g(x[i], y[i]))
        if op == 'rneg':
            x = self(a[0])
            return Ser(lambda i: rneg(x[i]))
        if op == 'rmul':
            return smul(self(a[0]), self(a[1]))
        if op == 'rdiv':
            return sdiv(self(a[0]), self(a[1]))
        if op == 'rite':
            c = subst(a[0], self.base)
            x, y = self(a[1]), self(a[2])
            return Ser(lambda i: rite(c, x[i], y[i]))
        if op == 'rfn':
            u = a[1]
            us = self(u)
            d = DERIV[a[0]](u, *a[2:])
            z0 = subst(e, self.base)
            return chain(z0, [(us, Ser(lambda i: self(d)[i]))])
        raise ValueError('no series for ' + op)


def result(o, x, v, value=None, partials=None):
    """series of the result of operation o; x: role -> Ser"""
    X = {r: rvar('X:' + r) for r in x}
    ev = Evaluator({X[r]: x[r] for r in x})
    x0 = {r: s[0] for r, s in x.items()}
    part = (partials or o.partials)(X, v)
    return chain((value or o.value)(x0, v), [(x[r], ev(q)) for r, q in part.items()])


def reverse_parts(o, x, v, partials=None):
    """series of the partial derivatives"""
    X = {r: rvar('X:' + r) for r in x}
    ev = Evaluator({X[r]: x[r] for r in x})
    return {r: ev(q) for r, q in (partials or o.partials)(X, v).items()}
