"""Hash-consed symbolic terms over the reals, the integers and the booleans.

A term is immutable.  Constructors apply only equivalences of real arithmetic
that need no case analysis (flattening of sums and products, constant folding,
log/exp algebra on strictly positive factors).  Everything that has to be
*decided* is left to the SMT solver (see solver.py).
"""
import math
import operator
from fractions import Fraction

import numpy as np

INF = float('inf')


class Unsupported(Exception):
    """The code under test did something the symbolic executor cannot encode."""


class SymbolicEscape(Unsupported):
    pass


# ----------------------------------------------------------------------
# hooks installed by the running context (ctx.py)
class Hooks:
    decide = None          # Term(bool) -> python bool (forks)
    concretize = None      # Term(int) -> python int (forks)
    need_positive = None   # Term -> None    (record / prove argument > 0)
    wrap_tensor = None     # Term -> 0-dim SymTensor
    prove = None           # Term(bool) -> bool, cheap solver query
    printed = None         # list collecting the values that are formatted into text
    float_nan = False      # float() of a symbolic value gives nan (for messages) instead of stopping
HOOKS = Hooks()

_TABLE = {}
_COUNTER = [0]

POS, NONNEG, NEG, NONPOS, ZERO, UNK = '+', '0+', '-', '0-', '0', '?'


class Term:
    __slots__ = ('op', 'args', 'sort', 'sgn', 'id', '__weakref__')

    # -- python protocol ------------------------------------------------
    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        return _bin(add, self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(lambda a, b: sub(b, a), self, o)

    def __mul__(self, o):
        return _bin(mul, self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(lambda a, b: div(b, a), self, o)

    def __floordiv__(self, o):
        return _bin(floordiv, self, o)

    def __rfloordiv__(self, o):
        return _bin(lambda a, b: floordiv(b, a), self, o)

    def __mod__(self, o):
        return _bin(mod, self, o)

    def __rmod__(self, o):
        return _bin(lambda a, b: mod(b, a), self, o)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(lambda a, b: power(b, a), self, o)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(lambda a, b: lt(b, a), self, o)

    def __ge__(self, o):
        return _bin(lambda a, b: le(b, a), self, o)

    def __eq__(self, o):
        if o is self:
            return eq(self, self)
        r = _bin(eq, self, o)
        return r

    def __ne__(self, o):
        r = _bin(ne, self, o)
        return r

    def __and__(self, o):
        return _bin(land, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return _bin(lor, self, o)
    __ror__ = __or__

    def __invert__(self):
        return lnot(self)

    def __bool__(self):
        t = to_bool(self)
        if t.op == 'c':
            return bool(t.args)
        return HOOKS.decide(t)

    def __int__(self):
        if self.op == 'c':
            return int(self.args)
        return HOOKS.concretize(self)
    __index__ = __int__

    def __float__(self):
        if self.op == 'c':
            return float(self.args)
        if HOOKS.float_nan:
            return float('nan')
        raise SymbolicEscape('float() of a symbolic value: %s' % show(self))

    def __round__(self, n=None):
        raise SymbolicEscape('round() of a symbolic value')

    def __format__(self, spec):
        if HOOKS.printed is not None:
            HOOKS.printed.append(self)
            return '<value%d>' % (len(HOOKS.printed) - 1)
        return show(self)

    def __str__(self):
        return self.__format__('') if HOOKS.printed is not None else repr(self)

    def is_integer(self):
        raise SymbolicEscape('is_integer')

    # numpy object-array ufuncs call these methods
    def log(self):
        return log(self)

    def exp(self):
        return exp(self)

    def sqrt(self):
        return power(self, Fraction(1, 2))

    def conjugate(self):
        return self

    def square(self):
        return mul(self, self)

    def item(self):
        return self

    @property
    def real(self):
        return self

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        import torch
        conv = HOOKS.wrap_tensor

        def rec(x):
            if isinstance(x, Term):
                return conv(x)
            if isinstance(x, (list, tuple)):
                return type(x)(rec(y) for y in x)
            if isinstance(x, slice):
                return x
            return x
        args = tuple(rec(a) for a in args)
        kwargs = {k: rec(v) for k, v in (kwargs or {}).items()}
        return func(*args, **kwargs)

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        _PICKLED[self.id] = self
        return _term, (self.id,)

    def __deepcopy__(self, memo):
        return self


_PICKLED = {}


def _term(i):
    return _PICKLED[i]


def _bin(f, a, b):
    if isinstance(b, Term):
        return f(a, b)
    if isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(b, (int, float, Fraction, bool, np.number, np.bool_)):
        return f(a, lift(b))
    t = type(b)
    if t.__module__.startswith('torch') or hasattr(b, '__torch_function__'):
        return f_tensor(f, a, b)
    return NotImplemented


def f_tensor(f, a, b):
    return NotImplemented


def _mk(op, args, sort, sgn, key=None):
    k = (op, args if key is None else key, sort)
    t = _TABLE.get(k)
    if t is not None:
        return t
    t = Term.__new__(Term)
    t.op, t.args, t.sort, t.sgn = op, args, sort, sgn
    _COUNTER[0] += 1
    t.id = _COUNTER[0]
    _TABLE[k] = t
    return t


def reset():
    """Forget all terms (between harnesses)."""
    keep = {k: v for k, v in _TABLE.items() if v in _PERMANENT_SET}
    _TABLE.clear()
    _TABLE.update(keep)
    _LOGC.clear()


# ----------------------------------------------------------------------
# constants
_SPECIAL_FLOATS = {}


def snap(x):
    """Exact rational meant by a python float (shortest decimal, or a small
    fraction when that is the same double / the same single)."""
    if x == int(x) if abs(x) < 1e15 else False:
        return Fraction(int(x))
    f = Fraction(x).limit_denominator(5000)
    if float(f) == x or float(np.float32(float(f))) == x:
        return f
    x32 = np.float32(x)
    if float(x32) == x:
        return Fraction(str(x32)) if 'e' not in str(x32) else Fraction(repr(float(str(x32))))
    return Fraction(repr(x))


def const(v, sort='R'):
    if isinstance(v, (bool, np.bool_)) or sort == 'B':
        v = bool(v)
        return _mk('c', v, 'B', UNK, key=('B', v))
    if isinstance(v, (int, np.integer)):
        v = Fraction(int(v))
    elif isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v or v in (INF, -INF):
            name = 'nan' if v != v else ('inf' if v > 0 else '-inf')
            return _mk('c', v, 'R', POS if v > 0 else (NEG if v < 0 else UNK), key=name)
        sp = _special(v)
        if sp is not None:
            return sp
        v = snap(v)
    if v > 0:
        s = POS
    elif v < 0:
        s = NEG
    else:
        s = ZERO
    return _mk('c', v, sort, s)


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (bool, np.bool_)):
        return const(bool(x), 'B')
    if isinstance(x, (int, np.integer)):
        return const(int(x), 'I')
    if isinstance(x, (float, Fraction, np.floating)):
        return const(x)
    raise Unsupported('cannot lift %r' % (type(x),))


ONE = const(1)
ZERO_T = const(0)
TRUE = const(True, 'B')
FALSE = const(False, 'B')
NAN = const(float('nan'))
PINF = const(INF)
NINF = const(-INF)


def var(name, sort='R', lo=None, hi=None, lo_strict=False, hi_strict=False):
    s = UNK
    if sort != 'B':
        if lo is not None and (lo > 0 or (lo == 0 and lo_strict)):
            s = POS
        elif lo is not None and lo == 0:
            s = NONNEG
        elif hi is not None and (hi < 0 or (hi == 0 and hi_strict)):
            s = NEG
        elif hi is not None and hi == 0:
            s = NONPOS
    return _mk('v', name, sort, s)


PI = _mk('v', '%pi', 'R', POS)
_PERMANENT_SET = {ONE, ZERO_T, TRUE, FALSE, NAN, PINF, NINF, PI}


def is_const(t):
    return t.op == 'c'


def is_finite_const(t):
    return t.op == 'c' and not isinstance(t.args, float)


def cval(t):
    return t.args


# ----------------------------------------------------------------------
# sums: op '+', args = (const Fraction, ((term, coef), ...)) sorted by id
def _sum_parts(t):
    """-> (const, dict term->coef)"""
    if t.op == 'c':
        return t.args, ()
    if t.op == '+':
        return t.args[0], t.args[1]
    if t.op == '*':
        # args = (coef, ((base, exp),...))
        c, fac = t.args
        if c != 1:
            return Fraction(0), ((_mk_prod(Fraction(1), fac, t.sort), c),)
    return Fraction(0), ((t, Fraction(1)),)


def _neg_sgn(s):
    return {POS: NEG, NEG: POS, NONNEG: NONPOS, NONPOS: NONNEG}.get(s, s)


def _mk_sum(c, items, sort):
    items = tuple(sorted(((t, k) for t, k in items if k != 0), key=lambda p: p[0].id))
    if not items:
        return const(c, sort if sort == 'I' else 'R')
    if len(items) == 1 and c == 0:
        t, k = items[0]
        if k == 1:
            return t
        return _scale(t, k)
    # sign
    pos = neg_ = True
    strict = c != 0
    if c < 0:
        pos = False
    elif c > 0:
        neg_ = False
    for t, k in items:
        s = t.sgn if k > 0 else _neg_sgn(t.sgn)
        if s == POS:
            neg_ = False
            strict = True
        elif s == NONNEG:
            neg_ = False
        elif s == NEG:
            pos = False
            strict = True
        elif s == NONPOS:
            pos = False
        elif s == UNK:
            pos = neg_ = False
        if not pos and not neg_:
            break
    sgn = UNK
    if pos:
        sgn = POS if strict else NONNEG
    elif neg_:
        sgn = NEG if strict else NONPOS
    return _mk('+', (c, items), sort, sgn)


def _scale(t, k):
    """k * t for a non-sum t and rational k"""
    if k == 1:
        return t
    if t.op == '*':
        return _mk_prod(t.args[0] * k, t.args[1], 'R' if k.denominator != 1 else t.sort)
    return _mk_prod(k, ((t, Fraction(1)),), 'R' if k.denominator != 1 else t.sort)


def _num(t):
    if t.sort == 'B':
        return ite(t, const(1, 'I'), const(0, 'I'))
    return t


def _specials(ts):
    return any(t.op == 'c' and isinstance(t.args, float) for t in ts)


def add(*ts):
    ts = [_num(t) for t in ts]
    if len(ts) == 1:
        return ts[0]
    if _specials(ts):
        v = 0.0
        for t in ts:
            if t.op == 'c' and isinstance(t.args, float):
                v = v + t.args
        return const(v)
    if len(ts) == 2:
        a, b = ts
        if a.op == 'c' and a.args == 0 and (a.sort == 'I' or b.sort != 'I'):
            return b
        if b.op == 'c' and b.args == 0 and (b.sort == 'I' or a.sort != 'I'):
            return a
    sort = 'I' if all(t.sort == 'I' for t in ts) else 'R'
    # distribute a sum over an ite of special values
    for i, t in enumerate(ts):
        if t.op == 'ite' and _ite_special(t):
            rest = ts[:i] + ts[i + 1:]
            return ite(t.args[0], add(t.args[1], *rest), add(t.args[2], *rest))
    c = Fraction(0)
    acc = {}
    for t in ts:
        cc, items = _sum_parts(t)
        c += cc
        for u, k in items:
            acc[u] = acc.get(u, 0) + k
    return _mk_sum(c, acc.items(), sort)


def _ite_special(t):
    stack = [t]
    n = 0
    while stack:
        u = stack.pop()
        n += 1
        if n > 64:
            return False
        if u.op == 'c' and isinstance(u.args, float):
            return True
        if u.op == 'ite':
            stack += [u.args[1], u.args[2]]
    return False


def neg(t):
    return mul(const(-1, 'I'), t)


def sub(a, b):
    return add(a, neg(b))


# ----------------------------------------------------------------------
# products: op '*', args = (coef, ((base, exp), ...)); base is not a product
def _mk_prod(c, fac, sort):
    if c == 0:
        return const(0, sort)
    if not fac:
        return const(c, sort)
    if len(fac) == 1 and c == 1 and fac[0][1] == 1:
        return fac[0][0]
    sgn = POS if c > 0 else NEG
    for b, e in fac:
        s = b.sgn
        if e.denominator == 1:
            if e.numerator % 2 == 0:
                s = POS if s in (POS, NEG) else NONNEG
        else:
            s = POS if s == POS else NONNEG
        sgn = _mul_sgn(sgn, s)
    return _mk('*', (c, fac), sort, sgn)


def _mul_sgn(a, b):
    if a == UNK or b == UNK:
        return UNK
    if a == ZERO or b == ZERO:
        return ZERO
    strict = a in (POS, NEG) and b in (POS, NEG)
    n = (a in (NEG, NONPOS)) != (b in (NEG, NONPOS))
    if strict:
        return NEG if n else POS
    return NONPOS if n else NONNEG


def _factors(t):
    """-> (coef, tuple of (base, exp)); sums are made primitive"""
    if t.op == 'c':
        return t.args, ()
    if t.op == '*':
        return t.args
    if t.op == '+':
        return _primitive(t)
    return Fraction(1), ((t, Fraction(1)),)


_PRIM = {}


def _primitive(t):
    """Sum t = coef * monomial * primitive sum."""
    r = _PRIM.get(t)
    if r is not None and r[0] is t:
        return r[1]
    c, items = t.args
    common = None
    if c == 0:
        for u, k in items:
            f = dict(u.args[1]) if u.op == '*' else {u: Fraction(1)}
            # exp atoms participate through E(r); only identical bases are pulled
            if common is None:
                common = f
            else:
                common = {b: min(e, f[b]) for b, e in common.items()
                          if b in f and (e > 0) == (f[b] > 0)
                          and b.op != 'E'}
                # negative powers: take the most negative one present in all
            if not common:
                break
        common = {b: e for b, e in (common or {}).items() if b.op != 'E'}
    # pull common exp factor
    efac = None
    if c == 0:
        rs = []
        for u, k in items:
            fs = u.args[1] if u.op == '*' else ((u, Fraction(1)),)
            e = [b for b, _ in fs if b.op == 'E']
            if not e:
                rs = None
                break
            rs.append(e[0].args)
        if rs:
            # common linear part of the exponents
            base = None
            for r_ in rs:
                cc, its = _sum_parts(r_)
                d = dict(its)
                d['c'] = cc
                if base is None:
                    base = d
                else:
                    base = {x: k for x, k in base.items() if d.get(x) == k}
            if base:
                cc = base.pop('c', 0)
                if base or cc:
                    efac = _mk_sum(Fraction(cc), base.items(), 'R')
    # negative powers: multiply through the largest common denominator
    inv = tuple((b, -e) for b, e in (common or {}).items())
    if common or efac is not None:
        newitems = []
        m = _mk_prod(Fraction(1), tuple(sorted(inv, key=lambda p: p[0].id)), 'R') if inv else ONE
        if efac is not None:
            m = mul(m, exp(neg(efac)))
        s = add(*[mul(const(k), u, m) for u, k in items])
        mono = dict(common or {})
        if efac is not None:
            ee = exp(efac)
            cE, fE = _factors(ee)
            for b, e in fE:
                mono[b] = mono.get(b, 0) + e
        if s.op == '+':
            k0 = _lead(s)
            s2 = _scale_sum(s, 1 / k0)
            mono[s2] = mono.get(s2, 0) + 1
        else:
            k0, fs = _factors(s)
            for b, e in fs:
                mono[b] = mono.get(b, 0) + e
        if efac is not None:
            k0 = k0 * cE
        res = (k0, tuple(sorted(((b, e) for b, e in mono.items() if e != 0), key=lambda p: p[0].id)))
    else:
        k0 = _lead(t)
        s2 = _scale_sum(t, 1 / k0)
        res = (k0, ((s2, Fraction(1)),))
    _PRIM[t] = (t, res)
    return res


def _lead(s):
    # keep the sign information: use |coef| unless the sum is known negative
    k = abs(s.args[1][0][1])
    if s.sgn in (NEG, NONPOS):
        return -k
    if s.sgn in (POS, NONNEG):
        return k
    return s.args[1][0][1]


def _scale_sum(s, k):
    if k == 1:
        return s
    c, items = s.args
    return _mk_sum(c * k, [(t, q * k) for t, q in items], 'R')


def mul(*ts):
    ts = [_num(t) for t in ts]
    if len(ts) == 1:
        return ts[0]
    if _specials(ts):
        v = 1.0
        for t in ts:
            if t.op == 'c' and isinstance(t.args, float):
                v *= t.args
                continue
            if t.sgn == ZERO:
                return NAN
            if t.sgn == NEG:
                v = -v
            elif t.sgn == POS:
                pass
            else:
                if bool(HOOKS.decide(lt(ZERO_T, t))):
                    pass
                elif bool(HOOKS.decide(lt(t, ZERO_T))):
                    v = -v
                else:
                    return NAN
        return const(v)
    sort = 'I' if all(t.sort == 'I' for t in ts) else 'R'
    c = Fraction(1)
    rest = []
    for t in ts:
        if t.op == 'c':
            c *= t.args
        else:
            rest.append(t)
    for i, t in enumerate(rest):
        if t.op == 'ite' and _ite_special(t):
            others = rest[:i] + rest[i + 1:] + [const(c, sort)]
            return ite(t.args[0], mul(t.args[1], *others), mul(t.args[2], *others))
    if c == 0:
        return const(0, sort)
    if not rest:
        return const(c, sort)
    if len(rest) == 1:
        t = rest[0]
        if c == 1:
            return t
        if t.op == '+':
            cc, items = t.args
            return _mk_sum(cc * c, [(u, k * c) for u, k in items],
                           'R' if c.denominator != 1 else t.sort)
        return _scale(t, c)
    acc = {}
    for t in rest:
        k, fac = _factors(t)
        c *= k
        for b, e in fac:
            acc[b] = acc.get(b, 0) + e
    return _finish_prod(c, acc, sort)


def _finish_prod(c, acc, sort):
    # merge exp atoms
    es = [(b, e) for b, e in acc.items() if b.op == 'E' and e != 0]
    if len(es) > 1 or (es and es[0][1] != 1):
        for b, _ in es:
            del acc[b]
        r = add(*[mul(const(e), b.args) for b, e in es]) if len(es) > 1 else mul(const(es[0][1]), es[0][0].args)
        ex = exp(r)
        k, fac = _factors(ex)
        c *= k
        for b, e in fac:
            acc[b] = acc.get(b, 0) + e
    fac = tuple(sorted(((b, e) for b, e in acc.items() if e != 0), key=lambda p: p[0].id))
    if len(fac) == 1 and fac[0][1] == 1 and fac[0][0].op == '+':
        return mul(const(c), fac[0][0])
    # constants inside roots
    return _mk_prod(c, fac, sort)


def div(a, b):
    return mul(_num(a), power(_num(b), const(-1)))


def power(a, e):
    a, e = _num(lift(a)), _num(lift(e))
    if e.op == 'c' and not isinstance(e.args, float):
        q = e.args
        if q == 0:
            return ONE
        if q == 1:
            return a
        if a.op == 'c':
            v = a.args
            if isinstance(v, float):
                if v != v:
                    return NAN
                if v == INF:
                    return PINF if q > 0 else ZERO_T
                if q.denominator == 1:
                    if q < 0:
                        return ZERO_T
                    return PINF if q.numerator % 2 == 0 else NINF
                return NAN
            if v == 0:
                return ZERO_T if q > 0 else PINF
            if q.denominator == 1:
                return const(v ** q.numerator if q.numerator > 0 else Fraction(1) / v ** (-q.numerator),
                             'I' if a.sort == 'I' and q > 0 else 'R')
            r = _exact_root(v, q)
            if r is not None:
                return const(r)
            if v < 0:
                return NAN
            # split the rational into integer parts: keep as root atom
            return _mk_prod(Fraction(1), ((_mk('k', a.args, 'R', POS), q),), 'R')
        if a.op == 'ite' and _ite_special(a):
            return ite(a.args[0], power(a.args[1], e), power(a.args[2], e))
        sort = 'I' if a.sort == 'I' and q.denominator == 1 and q > 0 else 'R'
        if q < 0 and a.sgn in (UNK, NONNEG, NONPOS) and HOOKS.need_positive is not None:
            HOOKS.need_nonzero(a)
        k, fac = _factors(a)
        if q.denominator == 1:
            c = Fraction(k) ** q.numerator
            acc = {b: x * q for b, x in fac}
            return _finish_prod(c, acc, sort)
        # fractional power: the value must be >= 0
        acc = {}
        c = Fraction(1)
        sign = 1 if k > 0 else -1
        kk = abs(k)
        r = _exact_root(kk, q)
        if r is not None:
            c *= r
        elif kk != 1:
            acc[_mk('k', kk, 'R', POS)] = q
        unknown = []
        for b, x in fac:
            if b.sgn == POS or (b.sgn == NONNEG):
                acc[b] = acc.get(b, 0) + x * q
            elif x.denominator == 1 and x.numerator % 2 == 0:
                ab = absolute(b)
                k2, f2 = _factors(ab)
                rr = _exact_root(k2, x * q)
                if rr is None:
                    acc[_mk('k', k2, 'R', POS)] = x * q
                else:
                    c *= rr
                for bb, xx in f2:
                    acc[bb] = acc.get(bb, 0) + xx * x * q
            else:
                unknown.append((b, x))
        if sign < 0 or unknown:
            if len(unknown) == 1 and unknown[0][1] == 1:
                inner = unknown[0][0] if sign > 0 else neg(unknown[0][0])
            else:
                inner = mul(const(sign), *[_mk_prod(Fraction(1), ((b, x),), 'R') for b, x in unknown]) \
                    if unknown else const(sign)
            if inner.op == 'c':
                return NAN
            HOOKS.need_nonneg(inner)
            k3, f3 = _factors(inner)
            if len(f3) == 1 and f3[0][1] == 1 and k3 > 0:
                acc[f3[0][0]] = acc.get(f3[0][0], 0) + q
            else:
                w = _mk('w', inner, 'R', NONNEG)   # opaque wrapper, value = inner
                acc[w] = acc.get(w, 0) + q
        return _finish_prod(c, acc, 'R')
    if e.op == 'c':
        raise Unsupported('infinite exponent')
    if a.op == 'c' and a.args == 1:
        return ONE
    if a.sgn == POS or a.op == 'c':
        return exp(mul(e, log(a)))
    # symbolic exponent
    if HOOKS.need_positive:
        HOOKS.need_positive(a)
        return exp(mul(e, log(a)))
    raise Unsupported('power')


def _exact_root(v, q):
    """v**q exactly if rational"""
    v = Fraction(v)
    if v <= 0:
        return None
    n, d = q.numerator, q.denominator

    def iroot(x, d):
        r = round(x ** (1.0 / d)) if x < 1 << 50 else None
        if r is None:
            lo, hi = 0, 1 << ((x.bit_length() // d) + 2)
            while lo < hi:
                m = (lo + hi + 1) // 2
                if m ** d <= x:
                    lo = m
                else:
                    hi = m - 1
            r = lo
        return r if r ** d == x else None
    a, b = iroot(v.numerator, d), iroot(v.denominator, d)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** n


# ----------------------------------------------------------------------
_LOGC = {}


def _log_const(v):
    """log of a positive rational as a combination of logs of primes"""
    out = {}

    def fac(n, s):
        p = 2
        while p * p <= n and p < 2000:
            while n % p == 0:
                out[p] = out.get(p, 0) + s
                n //= p
            p += 1
        if n > 1:
            out[n] = out.get(n, 0) + s
    fac(v.numerator, 1)
    fac(v.denominator, -1)
    items = []
    for p, k in out.items():
        items.append((_mk('L', const(p), 'R', POS), Fraction(k)))
    return _mk_sum(Fraction(0), items, 'R')


def log(t):
    t = _num(lift(t))
    if t.op == 'c':
        v = t.args
        if isinstance(v, float):
            return NAN if (v != v or v < 0) else PINF
        if v == 0:
            return NINF
        if v < 0:
            return NAN
        if v == 1:
            return ZERO_T
        return _log_const(v)
    if t.op == 'ite' and (_ite_special(t) or _ite_zero(t)):
        return ite(t.args[0], log(t.args[1]), log(t.args[2]))
    if t.op == 'E':
        return t.args
    if t.sgn != POS:
        if t.sgn == NONNEG and HOOKS.decide is not None:
            # may be zero: fork on it
            if HOOKS.decide(eq(t, ZERO_T)):
                return NINF
        else:
            HOOKS.need_positive(t)
    k, fac = _factors(t)
    parts = []
    bad = [b for b, e in fac if b.sgn != POS and b.sgn != NONNEG]
    if bad and len(fac) > 1 and HOOKS.prove is not None:
        bad = [b for b in bad if not HOOKS.prove(lt(ZERO_T, b))]
    if k < 0 or len(bad) > 1 or (bad and not (len(fac) == 1)):
        # sign of individual factors unknown: keep squares apart
        inner_bad = []
        for b, e in fac:
            if b in bad:
                if e.denominator == 1 and e.numerator % 2 == 0:
                    parts.append(mul(const(e), log(_assume_pos(absolute(b)))))
                else:
                    inner_bad.append((b, e))
            else:
                parts.append(mul(const(e), _logatom(b)))
        if inner_bad or k < 0:
            core = _mk_prod(Fraction(-1 if k < 0 else 1),
                            tuple(inner_bad), 'R') if inner_bad else None
            if core is None:
                return NAN
            if core.op == '+' or core.op not in ('*',):
                parts.append(_logatom(core))
            else:
                parts.append(_logatom(core))
        if abs(k) != 1:
            parts.append(_log_const(abs(k)))
        return add(*parts) if parts else ZERO_T
    if k != 1:
        parts.append(_log_const(k))
    for b, e in fac:
        parts.append(mul(const(e), _logatom(b)))
    return add(*parts) if len(parts) > 1 else parts[0]


def _assume_pos(t):
    return t


def _logatom(b):
    if b.op == 'E':
        return b.args
    if b.op == 'k':
        return _log_const(b.args)
    if b.op == 'c':
        return log(b)
    return _mk('L', b, 'R', UNK)


def _ite_zero(t):
    stack = [t]
    n = 0
    while stack:
        u = stack.pop()
        n += 1
        if n > 64:
            return False
        if u.op == 'c' and u.args == 0:
            return True
        if u.op == 'ite':
            stack += [u.args[1], u.args[2]]
    return False


def exp(t):
    t = _num(lift(t))
    if t.op == 'c':
        v = t.args
        if isinstance(v, float):
            return NAN if v != v else (PINF if v > 0 else ZERO_T)
        if v == 0:
            return ONE
        return _mk('E', t, 'R', POS)
    if t.op == 'ite' and _ite_special(t):
        return ite(t.args[0], exp(t.args[1]), exp(t.args[2]))
    c, items = _sum_parts(t)
    rest = []
    acc = {}
    k = Fraction(1)
    for u, q in items:
        if u.op == 'L':
            p = u.args
            if p.op == 'c':
                r = _exact_root(p.args, q)
                if r is not None:
                    k *= r
                    continue
                kb = _mk('k', p.args, 'R', POS)
                acc[kb] = acc.get(kb, 0) + q
            else:
                acc[p] = acc.get(p, 0) + q
        elif u.op == 'ite' and _is_log_ite(u):
            # e^{q*ite(c,a,b)} = ite(c, e^a, e^b)^q when branches are logs
            w = ite(u.args[0], exp(u.args[1]), exp(u.args[2]))
            if q.denominator == 1:
                f = power(w, const(q))
                kk, fac = _factors(f)
                k *= kk
                for b, e in fac:
                    acc[b] = acc.get(b, 0) + e
            else:
                rest.append((u, q))
        else:
            rest.append((u, q))
    r = _mk_sum(c, rest, 'R')
    if not (r.op == 'c' and r.args == 0):
        eb = _mk('E', r, 'R', POS)
        acc[eb] = acc.get(eb, 0) + 1
    if not acc:
        return const(k)
    # strictly positive bases (they were arguments of log)
    fac = []
    for b, e in acc.items():
        if e == 0:
            continue
        fac.append((b, e))
    out = {}
    for b, e in fac:
        if b.op == '*':
            kk, ff = b.args
            if e.denominator != 1:
                raise Unsupported('fractional power of a product of unknown signs')
            k *= Fraction(kk) ** e.numerator
            for bb, x in ff:
                out[bb] = out.get(bb, 0) + x * e
            continue
        out[b] = out.get(b, 0) + e
    return _finish_prod(k, out, 'R')


def _is_log_ite(t):
    stack = [t]
    n = 0
    while stack:
        u = stack.pop()
        n += 1
        if n > 32:
            return False
        if u.op == 'ite':
            stack += [u.args[1], u.args[2]]
        elif u.op == 'c' and isinstance(u.args, float):
            return False
        else:
            _, items = _sum_parts(u)
            if u.op != 'c' and not any(v.op == 'L' for v, _ in items):
                return False
    return True


UF_SIGN = {'sigmoid': POS}


def apply(name, *args):
    args = tuple(_num(lift(a)) for a in args)
    if _specials(args):
        raise Unsupported('%s of a non-finite value' % name)
    return _mk('f', (name,) + args, 'R', UF_SIGN.get(name, UNK))


def absolute(t):
    t = _num(lift(t))
    if t.op == 'c':
        return const(abs(t.args), t.sort)
    if t.sgn in (POS, NONNEG):
        return t
    if t.sgn in (NEG, NONPOS):
        return neg(t)
    k, fac = _factors(t)
    if t.sort == 'R' and (k < 0 or len(fac) > 1):
        parts = [const(abs(k))]
        for b, e in fac:
            if b.sgn == UNK and e.denominator == 1 and e.numerator % 2:
                parts.append(power(_abs_atom(b), const(e)))
            else:
                parts.append(absolute(_mk_prod(Fraction(1), ((b, e),), 'R')) if b.sgn in (NEG, NONPOS)
                             else _mk_prod(Fraction(1), ((b, e),), 'R'))
        return mul(*parts)
    return _abs_atom(t)


def _abs_atom(t):
    if t.sgn in (POS, NONNEG):
        return t
    if t.sgn in (NEG, NONPOS):
        return neg(t)
    r = ite(lt(t, ZERO_T), neg(t), t)
    if r.op == 'ite' and r.sgn == UNK:
        r2 = _mk('ite', r.args, r.sort, NONNEG, key=('abs', r.args))
        return r2
    return r


# ----------------------------------------------------------------------
# integers
def floordiv(a, b):
    a, b = _num(a), _num(b)
    if a.op == 'c' and b.op == 'c':
        if b.args == 0:
            raise ZeroDivisionError
        q = a.args // b.args
        return const(q, 'I' if a.sort == 'I' and b.sort == 'I' else 'R')
    if a.sort == 'I' and b.op == 'c' and b.sort == 'I' and b.args > 0:
        if b.args == 1:
            return a
        return _mk('idiv', (a, b), 'I', a.sgn if a.sgn in (NONNEG,) else (NONNEG if a.sgn == POS else UNK))
    return floor(div(a, b))


def mod(a, b):
    a, b = _num(a), _num(b)
    if a.op == 'c' and b.op == 'c':
        return const(a.args % b.args, 'I' if a.sort == 'I' and b.sort == 'I' else 'R')
    if a.sort == 'I' and b.op == 'c' and b.sort == 'I' and b.args > 0:
        return _mk('imod', (a, b), 'I', NONNEG)
    return sub(a, mul(floor(div(a, b)), b))


def floor(t):
    t = _num(t)
    if t.op == 'c':
        if isinstance(t.args, float):
            return t
        return const(math.floor(t.args), 'I')
    if t.sort == 'I':
        return t
    return _mk('floor', t, 'I', NONNEG if t.sgn in (POS, NONNEG) else UNK)


def ceil(t):
    return neg(floor(neg(t)))


def trunc(t):
    """int(x) of a real"""
    t = _num(t)
    if t.sort == 'I':
        return t
    if t.op == 'c':
        return const(int(t.args), 'I')
    if t.sgn in (POS, NONNEG):
        return floor(t)
    if t.sgn in (NEG, NONPOS):
        return ceil(t)
    return ite(lt(t, ZERO_T), ceil(t), floor(t))


def to_real(t):
    t = _num(t)
    if t.sort == 'I' and t.op == 'c':
        return const(t.args)
    return t


# ----------------------------------------------------------------------
# booleans
def to_bool(t):
    t = lift(t)
    if t.sort == 'B':
        return t
    if t.op == 'c':
        return TRUE if t.args != 0 else FALSE
    return ne(t, const(0, t.sort))


def lnot(t):
    t = to_bool(t)
    if t.op == 'c':
        return FALSE if t.args else TRUE
    if t.op == 'not':
        return t.args
    if t.op == 'lt':
        return _mk_cmp('le', t.args[1], t.args[0])
    if t.op == 'le':
        return _mk_cmp('lt', t.args[1], t.args[0])
    return _mk('not', t, 'B', UNK)


def land(*ts):
    out = []
    for t in ts:
        t = to_bool(t)
        if t.op == 'c':
            if not t.args:
                return FALSE
            continue
        for u in (t.args if t.op == 'and' else (t,)):
            if u not in _S(out):
                out.append(u)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(sorted(out, key=lambda x: x.id)), 'B', UNK)


class _S:
    def __init__(self, l):
        self.l = l

    def __contains__(self, x):
        return any(y is x for y in self.l)


def lor(*ts):
    return lnot(land(*[lnot(t) for t in ts]))


def implies(a, b):
    return lor(lnot(a), b)


def _mk_cmp(op, a, b):
    return _mk(op, (a, b), 'B', UNK)


def lt(a, b):
    a, b = _num(a), _num(b)
    return _cmp('lt', a, b)


def le(a, b):
    a, b = _num(a), _num(b)
    return _cmp('le', a, b)


_PYOP = {'lt': operator.lt, 'le': operator.le, 'eq': operator.eq}


def _cmp(op, a, b):
    if a is b:
        if a is NAN:
            return FALSE
        return const(op != 'lt', 'B')
    if a.op == 'c' and b.op == 'c':
        return const(bool(_PYOP[op](a.args, b.args)), 'B')
    for x, y, fl in ((a, b, False), (b, a, True)):
        if x.op == 'c' and isinstance(x.args, float):
            if x.args != x.args:
                return FALSE
            if y.op == 'ite' and _ite_special(y):
                break
            less = (x.args < 0) != fl       # -inf < y  or y < inf
            return const(less and op != 'eq', 'B')
    for x, y, fl in ((a, b, False), (b, a, True)):
        if x.op == 'ite' and _ite_special(x):
            f = (lambda u: _cmp(op, u, y)) if not fl else (lambda u: _cmp(op, y, u))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    d = sub(b, a)
    if d.op == 'c':
        z = d.args
        return const({'lt': z > 0, 'le': z >= 0, 'eq': z == 0}[op], 'B')
    s = d.sgn
    if op == 'lt':
        if s == POS:
            return TRUE
        if s in (NEG, NONPOS):
            return FALSE
    elif op == 'le':
        if s in (POS, NONNEG):
            return TRUE
        if s == NEG:
            return FALSE
    else:
        if s in (POS, NEG):
            return FALSE
        if a.id > b.id:
            a, b = b, a
    return _mk_cmp(op, a, b)


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        if a.op == 'c':
            return b if a.args else lnot(b)
        if b.op == 'c':
            return a if b.args else lnot(a)
        if a.id > b.id:
            a, b = b, a
        return _mk('iff', (a, b), 'B', UNK)
    return _cmp('eq', _num(a), _num(b))


def ne(a, b):
    if a is NAN or b is NAN:
        return TRUE
    return lnot(eq(a, b))


def isnan(a):
    return TRUE if a is NAN else FALSE


def ite(c, a, b):
    c = to_bool(c)
    if c.op == 'c':
        return a if c.args else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args, b, a)
    if a.sort == 'B' or b.sort == 'B':
        if a.sort == 'B' and b.sort == 'B':
            if a.op == 'c' and b.op == 'c':
                return c if a.args else lnot(c)
            return lor(land(c, a), land(lnot(c), b))
        a, b = _num(a), _num(b)
    sort = 'I' if a.sort == 'I' and b.sort == 'I' else 'R'
    if sort == 'R':
        a, b = to_real(a), to_real(b)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    sa, sb = a.sgn, b.sgn
    if sa == sb:
        s = sa
    elif {sa, sb} <= {POS, NONNEG, ZERO}:
        s = NONNEG
    elif {sa, sb} <= {NEG, NONPOS, ZERO}:
        s = NONPOS
    else:
        s = UNK
    return _mk('ite', (c, a, b), sort, s)


def maximum(a, b):
    a, b = _num(a), _num(b)
    if a is NAN or b is NAN:
        return NAN
    return ite(le(b, a), a, b)


def minimum(a, b):
    a, b = _num(a), _num(b)
    if a is NAN or b is NAN:
        return NAN
    return ite(le(a, b), a, b)


# ----------------------------------------------------------------------
def show(t, depth=6):
    if depth == 0:
        return '..'
    d = depth - 1
    o = t.op
    if o == 'c':
        return str(t.args)
    if o == 'v':
        return t.args
    if o == 'k':
        return '<%s>' % t.args
    if o == '+':
        c, items = t.args
        s = [] if c == 0 else [str(c)]
        s += [('%s*' % k if k != 1 else '') + show(u, d) for u, k in items]
        return '(' + ' + '.join(s) + ')'
    if o == '*':
        c, fac = t.args
        s = [] if c == 1 else [str(c)]
        s += [show(b, d) + ('^%s' % e if e != 1 else '') for b, e in fac]
        return '*'.join(s)
    if o in 'ELw' or o in ('floor', 'not'):
        return '%s(%s)' % (o, show(t.args, d))
    if o == 'f':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    return '%s(%s)' % (o, ', '.join(show(a, d) for a in t.args))


def children(t):
    o = t.op
    if o in ('c', 'v', 'k'):
        return ()
    if o == '+':
        return tuple(u for u, _ in t.args[1])
    if o == '*':
        return tuple(b for b, _ in t.args[1])
    if o in ('E', 'L', 'w', 'floor', 'not'):
        return (t.args,)
    if o == 'f':
        return t.args[1:]
    return t.args


def free_vars(ts):
    seen = set()
    out = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'v':
            out[t.args] = t
        stack.extend(children(t))
    return out


def rebuild(t, f):
    """Rebuild t after mapping children through f."""
    o = t.op
    if o in ('c', 'v', 'k'):
        return t
    if o == '+':
        c, items = t.args
        return add(const(c, t.sort if t.sort == 'I' else 'R'), *[mul(const(k, 'I' if k.denominator == 1 else 'R'), f(u)) for u, k in items])
    if o == '*':
        c, fac = t.args
        return mul(const(c), *[power(f(b), const(e)) for b, e in fac])
    if o == 'E':
        return exp(f(t.args))
    if o == 'L':
        return log(f(t.args))
    if o == 'w':
        return f(t.args)
    if o == 'floor':
        return floor(f(t.args))
    if o == 'not':
        return lnot(f(t.args))
    if o == 'and':
        return land(*[f(a) for a in t.args])
    if o == 'f':
        return apply(t.args[0], *[f(a) for a in t.args[1:]])
    if o == 'ite':
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if o in ('lt', 'le', 'eq'):
        return _cmp(o, f(t.args[0]), f(t.args[1]))
    if o == 'iff':
        return eq(f(t.args[0]), f(t.args[1]))
    if o == 'idiv':
        return floordiv(f(t.args[0]), f(t.args[1]))
    if o == 'imod':
        return mod(f(t.args[0]), f(t.args[1]))
    raise Unsupported(o)


def substitute(t, mapping, memo=None):
    memo = {} if memo is None else memo

    def f(u):
        r = memo.get(u.id)
        if r is None:
            r = mapping.get(u)
            if r is None:
                r = rebuild(u, f)
            memo[u.id] = r
        return r
    return f(t)


# named irrational constants that reach the code as floats
def _special(v):
    if not _SPECIAL_FLOATS:
        return None
    return _SPECIAL_FLOATS.get(v)


EPS = _mk('v', '%eps', 'R', POS)
_PERMANENT_SET.add(EPS)


def symbolic_eps(e=True):
    """keep the machine epsilon (or the given tiny constant) recognisable (see props/m05.py)"""
    e = float(np.finfo(np.float64).eps) if e is True else e
    _SPECIAL_FLOATS[e] = EPS
    _SPECIAL_FLOATS[-e] = neg(EPS)


def drop_eps(t):
    """limit when the constant vanishes, using eps * log(eps) -> 0"""
    l = log(EPS)
    if l.op == 'L':
        t = substitute(t, {l: _mk('v', '%logeps', 'R', NEG)})
    return substitute(t, {EPS: ZERO_T})


def _init_special():
    l2, lpi = log(const(2)), _mk('L', PI, 'R', POS)
    tab = {}

    def put(f, t):
        for g in (f, float(np.float32(f))):
            tab[g] = t
            tab[-g] = neg(t)
    put(math.pi, PI)
    put(2 * math.pi, mul(const(2), PI))
    put(math.log(2 * math.pi), add(l2, lpi))
    put(.5 * math.log(2 * math.pi), mul(const(Fraction(1, 2)), add(l2, lpi)))
    put(math.log(math.pi), lpi)
    put(.5 * math.log(math.pi), mul(const(Fraction(1, 2)), lpi))
    put(.25 * math.log(math.pi), mul(const(Fraction(1, 4)), lpi))
    for d in range(2, 12):
        put(d * (d - 1) * .25 * math.log(math.pi), mul(const(Fraction(d * (d - 1), 4)), lpi))
        put(d * math.log(2 * math.pi), mul(const(d), add(l2, lpi)))
        put(.5 * d * math.log(2 * math.pi), mul(const(Fraction(d, 2)), add(l2, lpi)))
    put(math.log(2), l2)
    for n in (3, 4, 5, 6, 7, 8, 9, 10):
        put(math.log(n), log(const(n)))
    put(math.sqrt(2), power(const(2), const(Fraction(1, 2))))
    put(math.sqrt(math.pi), power(PI, const(Fraction(1, 2))))
    put(math.sqrt(2 * math.pi), power(mul(const(2), PI), const(Fraction(1, 2))))
    put(math.e, exp(ONE))
    _SPECIAL_FLOATS.update(tab)
    for t in tab.values():
        stack = [t]
        while stack:
            u = stack.pop()
            if u not in _PERMANENT_SET:
                _PERMANENT_SET.add(u)
                stack.extend(children(u))


class _PSet(set):
    pass


_init_special()
