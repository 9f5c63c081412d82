"""Numeric evaluation of terms (used to steer the solver, never to decide)."""
import math
from fractions import Fraction

import mpmath

from . import terms as T

mpmath.mp.dps = 30


class EvalError(Exception):
    pass


_F = {
    'digamma': lambda x: mpmath.digamma(x),
    'lgamma': lambda x: mpmath.loggamma(x).real,
    'trigamma': lambda x: mpmath.polygamma(1, x),
    'sin': mpmath.sin, 'cos': mpmath.cos, 'erf': mpmath.erf,
    'atan': mpmath.atan, 'sinh': mpmath.sinh, 'asinh': mpmath.asinh,
}


def evaluate(t, env, memo=None):
    memo = {} if memo is None else memo
    # iterative post-order
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        if u.op == 'ite':
            c = memo.get(u.args[0].id)
            if c is None and u.args[0].id not in memo:
                stack.append(u.args[0])
                continue
            br = u.args[1] if c else u.args[2]
            if br.id not in memo:
                stack.append(br)
                continue
            memo[u.id] = memo[br.id]
            stack.pop()
            continue
        if u.op == 'pa':
            ch = u.args
        elif u.op == 'pm':
            ch = tuple(b for b, _ in u.args[1])
        elif u.op == 'root':
            ch = (u.args[0],)
        else:
            ch = T.children(u)
        todo = [c for c in ch if c.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[u.id] = _ev(u, memo, env)
        stack.pop()
    return memo[t.id]


def _q(v):
    return mpmath.mpf(v.numerator) / v.denominator


def _ev(u, memo, env):
    o = u.op
    if o == 'c':
        v = u.args
        if isinstance(v, bool):
            return v
        if isinstance(v, float):
            return mpmath.mpf(v)
        return _q(v)
    if o == 'v':
        if u.args == '%pi':
            return mpmath.pi + 0
        if u.args == '%eps':
            return mpmath.mpf(2) ** -52
        v = env[u.args]
        if isinstance(v, bool):
            return v
        return _q(v) if isinstance(v, Fraction) else mpmath.mpf(v)
    if o == 'k':
        return _q(u.args)
    g = lambda a: memo[a.id]
    if o == '+':
        r = _q(Fraction(u.args[0]))
        for a, k in u.args[1]:
            r += _q(k) * g(a)
        return r
    if o == '*':
        r = _q(Fraction(u.args[0]))
        for b, e in u.args[1]:
            v = g(b)
            if e.denominator == 1:
                if v == 0 and e < 0:
                    raise EvalError('division by zero')
                r *= v ** int(e)
            else:
                if v < 0:
                    raise EvalError('root of a negative')
                if v == 0 and e < 0:
                    raise EvalError('division by zero')
                r *= mpmath.power(v, _q(e))
        return r
    if o == 'pa':
        return sum((g(a) for a in u.args), mpmath.mpf(0))
    if o == 'pm':
        r = _q(Fraction(u.args[0]))
        for b, e in u.args[1]:
            r *= g(b) ** e
        return r
    if o == 'root':
        return mpmath.power(g(u.args[0]), mpmath.mpf(1) / u.args[1])
    if o == 'E':
        return mpmath.exp(g(u.args))
    if o == 'L':
        v = g(u.args)
        if v <= 0:
            raise EvalError('log of a non-positive')
        return mpmath.log(v)
    if o == 'w':
        return g(u.args)
    if o == 'f':
        f = _F.get(u.args[0])
        if f is None:
            raise EvalError('no numeric interpretation of ' + u.args[0])
        try:
            return f(*[g(a) for a in u.args[1:]])
        except ValueError as e:
            raise EvalError(str(e))
    if o == 'floor':
        return mpmath.floor(g(u.args))
    if o == 'idiv':
        return mpmath.floor(g(u.args[0]) / g(u.args[1]))
    if o == 'imod':
        return g(u.args[0]) - g(u.args[1]) * mpmath.floor(g(u.args[0]) / g(u.args[1]))
    if o == 'lt':
        return bool(g(u.args[0]) < g(u.args[1]))
    if o == 'le':
        return bool(g(u.args[0]) <= g(u.args[1]))
    if o == 'eq':
        a, b = g(u.args[0]), g(u.args[1])
        return bool(abs(a - b) <= mpmath.mpf(10) ** -22 * (1 + abs(a)))
    if o == 'iff':
        return g(u.args[0]) == g(u.args[1])
    if o == 'not':
        return not g(u.args)
    if o == 'and':
        return all(g(a) for a in u.args)
    raise EvalError(o)
