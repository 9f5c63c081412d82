"""Range conditions of double precision: the encoding is over the reals, where exp never overflows and a sum of
exponentials is never zero.  While recording, the arguments of exp and log and the denominators reached by the code are
kept; `conditions` turns them into conditions on the exponents: no exponential above exp(HI), no logarithm of (or division
by) a sum all of whose terms are below exp(LO).  Stable primitives of torch (logsumexp, softmax, softplus, sigmoid) are
not recorded: they are within range for every finite input."""
from fractions import Fraction

from . import terms as T

HI, LO = 709, -708
BIG = T.const(Fraction(10) ** 300)
TINY = T.const(Fraction(1, 10 ** 300))
RECORD = None       # list of ('exp' | 'log', term)


def note(kind, t):
    if RECORD is not None and t.op != 'c' and not T._ite_special(t):
        RECORD.append((kind, t))


def has_exp(t, memo=None):
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = False
    r = t.op == 'E' or any(has_exp(a, memo) for a in children(t))
    memo[t.id] = r
    return r


def children(t):
    if t.op == 'c':
        return []
    out, stack = [], [t.args]
    while stack:
        a = stack.pop()
        if isinstance(a, T.Term):
            out.append(a)
        elif isinstance(a, tuple):
            stack.extend(a)
    return out


def _le(t, bound):
    return T.le(t, T.const(bound))


def upper(t):
    """condition: the positive value t is at most about exp(HI)"""
    if t.op == 'c' or not has_exp(t):
        return T.TRUE
    if t.op == 'E':
        return _le(t.args, HI)
    if t.op == 'ite':
        c = t.args[0]
        return T.land(T.lor(T.lnot(c), upper(t.args[1])), T.lor(c, upper(t.args[2])))
    if t.op == '+':
        return T.land(*[upper(u) for u, k in t.args[1] if k > 0])
    if t.op == '*':
        fac = t.args[1]
        if all(e > 0 for _, e in fac):
            return T.land(*[upper(b) for b, e in fac])
        return T.le(t, BIG)
    return T.TRUE


def lower(t):
    """condition: the positive value t is at least about exp(LO)"""
    if t.op == 'c' or not has_exp(t):
        return T.TRUE
    if t.op == 'E':
        return T.le(T.const(LO), t.args)
    if t.op == 'ite':
        c = t.args[0]
        return T.land(T.lor(T.lnot(c), lower(t.args[1])), T.lor(c, lower(t.args[2])))
    if t.op == '+':
        c, items = t.args
        if c > 0 and all(k > 0 for _, k in items):
            return T.TRUE
        if c < 0 or any(k < 0 for _, k in items):
            return T.le(TINY, t)
        return T.lor(*[lower(u) for u, k in items])
    if t.op == '*':
        return T.land(*[lower(b) if e > 0 else upper(b) for b, e in t.args[1]])
    return T.TRUE


def conditions(rec):
    out = {}
    for kind, t in rec:
        c = upper(T.exp(t)) if kind == 'exp' else lower(t)
        out.setdefault((kind, c.id), (kind, c))
    return list(out.values())
