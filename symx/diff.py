"""derivatives of terms"""
from fractions import Fraction

from . import terms as T
from .terms import add, mul, power, const, exp, apply, ite, log

ZERO, ONE = const(Fraction(0)), const(Fraction(1))


def gradient(t, xs):
    """derivatives of t with respect to the variables xs (reverse accumulation over the shared structure)"""
    order, seen, stack = [], set(), [(t, False)]
    while stack:
        u, done = stack.pop()
        if done:
            order.append(u)
            continue
        if u.id in seen:
            continue
        seen.add(u.id)
        stack.append((u, True))
        for c in T.children(u):
            if c.sort != 'B':
                stack.append((c, False))
    need = {x.id for x in xs}
    dep = {}
    for u in order:
        dep[u.id] = u.id in need or any(dep.get(c.id, False) for c in T.children(u) if c.sort != 'B')
    adj = {t.id: [ONE]}
    for u in reversed(order):
        if not dep[u.id] or u.id not in adj:
            continue
        a = add(*adj[u.id])
        adj[u.id] = a
        for c, d in local(u):
            if dep[c.id]:
                adj.setdefault(c.id, []).append(mul(a, d))
    return [adj.get(x.id, ZERO) if not isinstance(adj.get(x.id), list) else add(*adj[x.id]) for x in xs]


def local(u):
    """(argument, partial derivative)"""
    o = u.op
    if o in ('c', 'v', 'k'):
        return []
    if o == '+':
        return [(c, const(Fraction(k))) for c, k in u.args[1]]
    if o == '*':
        c0, fac = u.args
        out = []
        for i, (b, e) in enumerate(fac):
            rest = [power(x, const(f)) for j, (x, f) in enumerate(fac) if j != i]
            out.append((b, mul(const(c0), const(Fraction(e)), power(b, const(Fraction(e) - 1)), *rest)))
        return out
    if o == 'E':
        return [(u.args, u)]
    if o == 'L':
        return [(u.args, power(u.args, const(Fraction(-1))))]
    if o == 'w':
        return [(u.args, ONE)]
    if o == 'ite':
        c, a, b = u.args
        return [(a, ite(c, ONE, ZERO)), (b, ite(c, ZERO, ONE))]
    if o == 'f':
        name, x = u.args[0], u.args[1]
        if name == 'lgamma':
            return [(x, apply('digamma', x))]
        if name == 'digamma':
            return [(x, apply('trigamma', x))]
        if name == 'sin':
            return [(x, apply('cos', x))]
        if name == 'cos':
            return [(x, mul(const(Fraction(-1)), apply('sin', x)))]
    raise T.Unsupported('derivative of %s' % o)
