"""Harness context: the same harness runs symbolically (solver decides) and
concretely on unmodified torch (replay of counterexamples, encoding validation)."""
import contextlib
import itertools
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import terms as T
from . import solver
from .solver import Prover, query, model_env, STATS
from .numeric import evaluate, EvalError
from .terms import Term, HOOKS, Unsupported


class PathInfeasible(BaseException):
    pass


class Skip(BaseException):
    """the code no longer has the internal function a harness drives; other harnesses cover the behaviour"""


class Violated(Exception):
    pass


class BudgetExceeded(Exception):
    pass


# ----------------------------------------------------------------------
class Base:
    symbolic = False

    def pos(self, name, hi=None):
        return self.real(name, lo=0, lo_strict=True, hi=hi)

    def prob(self, name):
        """strictly inside (0, 1)"""
        return self.real(name, lo=0, hi=1, lo_strict=True, hi_strict=True)

    # nested lists of scalars
    def scalars(self, x):
        raise NotImplementedError

    def close_all(self, label, xs, ys):
        """compare nested structures of scalars"""
        xs, ys = self._nest(xs), self._nest(ys)
        self._cmp(label, xs, ys)

    eq = None

    def _nest(self, x):
        import torch
        if isinstance(x, torch.Tensor):
            return self.scalars(x)
        if isinstance(x, np.ndarray):
            return [self._nest(y) for y in x] if x.ndim else self._nest(x[()])
        if isinstance(x, (list, tuple)):
            return [self._nest(y) for y in x]
        return x

    def _cmp(self, label, x, y):
        if isinstance(x, list) or isinstance(y, list):
            if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
                self.fail(label, 'shape mismatch: %s vs %s' % (_shape(x), _shape(y)))
                return
            for i, (a, b) in enumerate(zip(x, y)):
                self._cmp('%s[%d]' % (label, i), a, b)
            return
        self.check_eq(label, x, y)

    def check_all_eq(self, label, xs, ys):
        self.close_all(label, xs, ys)

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def prod(self, xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def logsumexp(self, xs):
        return self.log(self.sum([self.exp(x) for x in xs]))


def _shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        x = x[0] if x else None
    return tuple(s)


class Obligation:
    def __init__(self, label, kind, a, b=None):
        self.label, self.kind, self.a, self.b = label, kind, a, b


# ----------------------------------------------------------------------
class SymCtx(Base):
    symbolic = True

    def __init__(self, harness, cfg, opts):
        self.harness = harness
        self.cfg = cfg
        self.opts = opts
        self.vars = {}          # name -> term
        self.ranges = {}
        self.pc = []            # path condition (bool terms)
        self.domain = []        # recorded domain assumptions
        self.assumed = []       # user assumptions
        self.obligations = []
        self.prefix = []
        self.pos_ = 0
        self.known = {}
        self._proved = {}
        self.worklist = []
        self.samples = []
        self.decisions = []
        self.rng = random.Random(opts.get('seed', 1) * 7919 + 13)
        self.nrand = 0
        self.events = {}

    # --- inputs
    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, sort='R'):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        v = T.var(name, sort, lo, hi, lo_strict, hi_strict)
        if name in self.vars:
            return v
        self.vars[name] = v
        self.ranges[name] = (lo, hi, lo_strict, hi_strict, sort)
        L, H = T.const(lo if lo is not None else 0, sort), T.const(hi if hi is not None else 0, sort)
        if lo is not None:
            self.assumed.append(T._mk_cmp('lt' if lo_strict else 'le', L, v))
        if hi is not None:
            self.assumed.append(T._mk_cmp('lt' if hi_strict else 'le', v, H))
        for env, memo in self.samples:
            env[name] = self._draw(name)
            memo.clear()
        return v

    def integer(self, name, lo, hi):
        return self.real(name, lo, hi, sort='I')

    def boolean(self, name):
        v = T.var(name, 'B')
        if name not in self.vars:
            self.vars[name] = v
            self.ranges[name] = (None, None, False, False, 'B')
            for env, memo in self.samples:
                env[name] = bool(self.rng.getrandbits(1))
                memo.clear()
        return v

    def choice(self, name, n):
        """a symbolic index made concrete by forking"""
        return int(self.integer(name, 0, n - 1))

    def flag(self, name):
        return bool(self.boolean(name))

    def tensor(self, name, shape, lo=None, hi=None, pos=False, prob=False, dtype=None):
        import torch
        from . import tensor as ST
        p = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*p.shape):
            n = name + ''.join('_%d' % j for j in i)
            p[i] = self.pos(n, hi) if pos else self.prob(n) if prob else self.real(n, lo, hi)
        return ST.wrap(p, dtype or torch.get_default_dtype())

    def int_tensor(self, name, shape, lo, hi):
        import torch
        from . import tensor as ST
        p = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*p.shape):
            p[i] = self.integer(name + ''.join('_%d' % j for j in i), lo, hi)
        return ST.wrap(p, torch.int64)

    def array(self, name, shape, **kw):
        """numpy array"""
        p = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*p.shape):
            n = name + ''.join('_%d' % j for j in i)
            if kw.get('sort') == 'I':
                p[i] = self.integer(n, kw['lo'], kw['hi'])
            else:
                p[i] = self.real(n, **kw) if not kw.get('pos') else self.pos(n)
        return p

    def make(self, data, dtype=None):
        """tensor from nested lists of scalars"""
        from . import tensor as ST
        import torch
        return ST.tensor_from(data, dtype or torch.get_default_dtype())

    def nparray(self, data):
        a = np.empty(_shape(data), dtype=object)
        for i in np.ndindex(a.shape):
            x = data
            for j in i:
                x = x[j]
            a[i] = T.lift(x)
        return a

    def fresh_random(self, kind):
        n = 'rnd%d' % self.nrand
        self.nrand += 1
        if kind == 'uniform':
            return self.real(n, 0, 1, False, True)
        return self.real(n)

    # --- structure access
    def scalars(self, t):
        from . import tensor as ST
        p = ST.payload_of(t)

        def rec(a):
            return a[()] if a.ndim == 0 else [rec(b) for b in ST._rows(a)]
        return rec(p)

    def scalar(self, t):
        import torch
        if isinstance(t, torch.Tensor):
            from . import tensor as ST
            p = ST.payload_of(t)
            if p.size != 1:
                raise ValueError('expected one value, got shape %s' % (p.shape,))
            return p.reshape(-1)[0]
        return T.lift(t)

    # --- functions for specifications
    def log(self, x):
        return T.log(T.lift(x))

    def exp(self, x):
        return T.exp(T.lift(x))

    def sqrt(self, x):
        return T.power(T.lift(x), T.const(Fraction(1, 2)))

    def digamma(self, x):
        from .tensor import digamma
        return digamma(T.to_real(T.lift(x)))

    def lgamma(self, x):
        from .tensor import lgamma
        return lgamma(T.to_real(T.lift(x)))

    def sin(self, x):
        return T.apply('sin', T.lift(x))

    def cos(self, x):
        return T.apply('cos', T.lift(x))

    @property
    def pi(self):
        return T.PI

    def frac(self, a, b=1):
        return T.const(Fraction(a, b))

    def ite(self, c, a, b):
        return T.ite(T.lift(c), T.lift(a), T.lift(b))

    def max(self, xs):
        r = T.lift(xs[0])
        for x in xs[1:]:
            r = T.maximum(r, T.lift(x))
        return r

    def min(self, xs):
        r = T.lift(xs[0])
        for x in xs[1:]:
            r = T.minimum(r, T.lift(x))
        return r

    def and_(self, *xs):
        return T.land(*[T.lift(x) for x in xs])

    def or_(self, *xs):
        return T.lor(*[T.lift(x) for x in xs])

    def not_(self, x):
        return T.lnot(T.lift(x))

    def equal(self, a, b):
        return T.eq(T.lift(a), T.lift(b))

    def le(self, a, b):
        return T.le(T.lift(a), T.lift(b))

    def lt(self, a, b):
        return T.lt(T.lift(a), T.lift(b))

    # --- obligations
    def check_eq(self, label, a, b, tol=None):
        a, b = T.lift(a), T.lift(b)
        if a.sort == 'B' or b.sort == 'B':
            self.check(label, T.eq(T.to_bool(a), T.to_bool(b)))
            return
        if a is b and a is not T.NAN:
            self.obligations.append(Obligation(label, 'eq', a, b))
            return
        for x in (a, b):
            if x.op == 'c' and isinstance(x.args, float):
                if not (a.op == 'c' and b.op == 'c' and a.args == b.args):
                    # one side infinite / nan: structural disagreement
                    if (a.op == 'ite' and T._ite_special(a)) or (b.op == 'ite' and T._ite_special(b)):
                        self.check(label, T.eq(a, b))
                    else:
                        self.obligations.append(Obligation(label, 'bool', T.FALSE))
                return
        if (a.op == 'ite' and T._ite_special(a)) or (b.op == 'ite' and T._ite_special(b)):
            self.check(label, T.eq(a, b))
            return
        if a.sort == 'I' and b.sort == 'I':
            self.check(label, T.eq(a, b))
            return
        self.obligations.append(Obligation(label, 'eq', a, b) if tol is None else
                                Obligation(label, 'bool', T.land(
                                    T.le(T.sub(a, b), T.const(Fraction(tol))),
                                    T.le(T.sub(b, a), T.const(Fraction(tol))))))

    def check(self, label, cond):
        self.obligations.append(Obligation(label, 'bool', T.to_bool(T.lift(cond))))

    def check_le(self, label, a, b):
        self.check(label, T.le(T.lift(a), T.lift(b)))

    def fail(self, label, why=''):
        self.obligations.append(Obligation(label + ': ' + why, 'bool', T.FALSE))

    def assume(self, cond):
        c = T.to_bool(T.lift(cond))
        if c.op == 'c':
            if not c.args:
                raise PathInfeasible()
            return
        self.assumed.append(c)
        self.known[c.id] = True
        self._filter_samples(c)
        if not self.samples and not self._feasible([]):
            raise PathInfeasible()

    @contextlib.contextmanager
    def in_range(self, label):
        """what the code computes inside stays within the range of double precision"""
        from . import ranges
        keep, ranges.RECORD = ranges.RECORD, []
        try:
            yield
            rec = ranges.RECORD
        finally:
            ranges.RECORD = keep
        conds = ranges.conditions(rec)
        self.event('range operations')
        self.check(label + ': no range condition', T.TRUE)
        for kind, c in conds:
            self.check('%s: %s' % (label, 'an exponential overflows' if kind == 'exp' else 'a sum of exponentials vanishes'), c)

    def finite(self, label, *ts):
        pass

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    # --- forking
    def _conds(self):
        return self.assumed + self.domain + self.pc

    def _draw(self, name):
        lo, hi, ls, hs, sort = self.ranges[name]
        r = self.rng
        if sort == 'B':
            return bool(r.getrandbits(1))
        if sort == 'I':
            return Fraction(r.randint(int(lo), int(hi)))
        a = lo if lo is not None else (hi - 4 if hi is not None else Fraction(-2))
        b = hi if hi is not None else a + (3 if lo is not None else 4)
        k = r.randint(1, 9999)
        return a + (b - a) * Fraction(k, 10000)

    def refill(self, n=6, tries=200):
        """random environments satisfying the current conditions"""
        conds = self._conds()
        t0 = time.time()
        while len(self.samples) < n and tries and time.time() - t0 < 3:
            tries -= 1
            env = {k: self._draw(k) for k in self.vars}
            memo = {}
            if self._holds(conds, env, memo):
                self.samples.append((env, memo))

    def _holds(self, conds, env, memo):
        try:
            return all(evaluate(c, env, memo) for c in conds)
        except (EvalError, KeyError, OverflowError):
            return False

    def _filter_samples(self, c):
        self.samples = [(e, m) for e, m in self.samples if self._holds([c], e, m)]

    def _feasible(self, extra):
        for e, m in self.samples:
            if self._holds(extra, e, m):
                return True
        v, m, tr = query(self._conds() + list(extra), self.opts.get('branch_timeout', 3000))
        if v == 'unsat':
            return False
        if v == 'unknown':
            v, m, tr = query(self._conds() + list(extra), self.opts.get('branch_timeout', 3000), facts=True)
            if v == 'unsat':
                return False
        if v == 'sat':
            atoms = [a for a, _ in tr.atoms if a.op in ('L', 'E', 'f')]
            if atoms:
                v, m, tr = query(self._conds() + list(extra), self.opts.get('branch_timeout', 3000), facts=True)
                if v == 'unsat':
                    return False
            if m is not None:
                env = {k: self._draw(k) for k in self.vars}
                env.update(model_env(m, tr, self.vars))
                memo = {}
                if self._holds(self._conds(), env, memo):
                    self.samples.append((env, memo))
        return True

    def decide(self, c):
        if c.op == 'c':
            return bool(c.args)
        k = self.known.get(c.id)
        if k is not None:
            return k
        n = T.lnot(c)
        if n.id in self.known:
            return not self.known[n.id]
        if self.pos_ < len(self.prefix):
            val = self.prefix[self.pos_]
            self.pos_ += 1
        else:
            if len(self.samples) < 3:
                self.refill()
            t = self._feasible([c])
            f = self._feasible([n])
            if not t and not f:
                raise PathInfeasible()
            if t and f:
                val = True
                self.worklist.append(self.decisions + [False])
            else:
                val = t
            self.prefix.append(val)
            self.pos_ += 1
        self.decisions.append(val)
        lit = c if val else n
        self.pc.append(lit)
        self.known[c.id] = val
        self.known[n.id] = not val
        self._filter_samples(lit)
        return val

    def prove(self, c):
        """is c entailed by the current conditions? (cached, no fork)"""
        if c.op == 'c':
            return bool(c.args)
        if self.known.get(c.id):
            return True
        key = (c.id, len(self.pc), len(self.assumed), len(self.domain))
        if key in self._proved:
            return self._proved[key]
        n = T.lnot(c)
        r = True
        for e, m in self.samples:
            if self._holds([n], e, m):
                r = False
                break
        if r:
            r = query(self._conds() + [n], 1000)[0] == 'unsat'
        if r:
            self.known[c.id] = True
            self.known[n.id] = False
        self._proved[key] = r
        return r

    def concretize(self, t):
        if t.sort == 'R':
            t = T.trunc(t)
        vals = None
        from .tensor import ite_values
        vals = ite_values(t)
        if vals is None:
            lo, hi = self._int_bounds(t)
            vals = range(lo, hi + 1)
        vals = sorted(vals)
        for v in vals[:-1]:
            if self.decide(T.eq(t, T.const(v, 'I'))):
                return v
        if not self.decide(T.eq(t, T.const(vals[-1], 'I'))):
            raise PathInfeasible()
        return vals[-1]

    def _int_bounds(self, t):
        if t.op == 'v' and t.args in self.ranges:
            lo, hi = self.ranges[t.args][:2]
            return int(lo), int(hi)
        # search bounds with the solver
        bounds = []
        for sign in (1, -1):
            b = 0
            u = t if sign == 1 else T.neg(t)
            # maximum of u
            step = 1
            while step < 1 << 12:
                v, m, tr = query(self._conds() + [T.lt(T.const(b, 'I'), u)], 5000)
                if v == 'unsat':
                    break
                b += step
                step *= 2
            else:
                raise Unsupported('unbounded symbolic integer')
            bounds.append(b)
        return -bounds[1], bounds[0]

    def need_positive(self, t):
        """log argument: fork when it might not be positive"""
        c = T.lt(T.ZERO_T, t)
        if c.op == 'c':
            return
        if self.opts.get('assume_positive', False):
            self._domain(c)
            return
        if not self.decide(c):
            raise NonPositive(t)

    def need_nonneg(self, t):
        c = T.le(T.ZERO_T, t)
        if c.op == 'c':
            return
        if not self.decide(c):
            raise NonPositive(t)

    def need_nonzero(self, t):
        c = T.ne(t, T.ZERO_T)
        if c.op == 'c':
            return
        self._domain(c)

    def _domain(self, c):
        if self.known.get(c.id):
            return
        self.known[c.id] = True
        self.domain.append(c)


class NonPositive(Exception):
    """log / root of a value outside the domain (nan in the real code)"""


# ----------------------------------------------------------------------
class ConcreteCtx(Base):
    """Runs the harness on the real torch with given values."""
    symbolic = False

    def __init__(self, env, seed=0, tol=1e-6):
        self.env = dict(env)
        self.failures = []
        self.tol = tol
        self.rng = random.Random(seed)
        self.used = {}
        self.nrand = 0
        self.checks = 0
        self.infeasible = False
        self.events = {}

    def _get(self, name, lo, hi, sort, lo_strict=False, hi_strict=False):
        if name in self.used:
            return self.used[name]
        if name in self.env:
            v = self.env[name]
        elif sort == 'I':
            v = self.rng.randint(int(lo), int(hi))
        elif sort == 'B':
            v = bool(self.rng.getrandbits(1))
        else:
            a = float(lo) if lo is not None else (float(hi) - 4 if hi is not None else -2.)
            b = float(hi) if hi is not None else a + (3 if lo is not None else 4)
            v = a + (b - a) * self.rng.uniform(0.02, 0.98)
        if sort == 'I':
            v = int(v)
        elif sort == 'B':
            v = bool(v)
        else:
            v = float(v)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False, sort='R'):
        return self._get(name, lo, hi, sort)

    def integer(self, name, lo, hi):
        return self._get(name, lo, hi, 'I')

    def boolean(self, name):
        return self._get(name, None, None, 'B')

    def choice(self, name, n):
        return self.integer(name, 0, n - 1)

    def flag(self, name):
        return self.boolean(name)

    def _fill(self, name, shape, f):
        a = np.zeros(tuple(shape))
        for i in np.ndindex(*a.shape):
            a[i] = f(name + ''.join('_%d' % j for j in i))
        return a

    def tensor(self, name, shape, lo=None, hi=None, pos=False, prob=False, dtype=None):
        import torch
        a = self._fill(name, shape, (lambda n: self.pos(n, hi)) if pos else self.prob if prob else
                       (lambda n: self.real(n, lo, hi)))
        return torch.tensor(a, dtype=dtype or torch.get_default_dtype())

    def int_tensor(self, name, shape, lo, hi):
        import torch
        return torch.tensor(self._fill(name, shape, lambda n: self.integer(n, lo, hi)), dtype=torch.int64)

    def array(self, name, shape, **kw):
        if kw.get('sort') == 'I':
            return self._fill(name, shape, lambda n: self.integer(n, kw['lo'], kw['hi'])).astype(int)
        return self._fill(name, shape, lambda n: self.real(n, **kw) if not kw.get('pos') else self.pos(n))

    def make(self, data, dtype=None):
        import torch
        return torch.tensor(data, dtype=dtype or torch.get_default_dtype())

    def nparray(self, data):
        return np.array(data)

    def fresh_random(self, kind):
        n = 'rnd%d' % self.nrand
        self.nrand += 1
        if kind == 'uniform':
            return self.real(n, 0, 1, False, True)
        return self.real(n)

    def scalars(self, t):
        import torch
        if t.dtype == torch.bool:
            return t.detach().tolist()
        return t.detach().tolist()

    def scalar(self, t):
        import torch
        if isinstance(t, torch.Tensor):
            if t.numel() != 1:
                raise ValueError('expected one value, got shape %s' % (tuple(t.shape),))
            return t.detach().reshape(-1)[0].item()
        return t

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def exp(self, x):
        return math.exp(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def digamma(self, x):
        from scipy.special import digamma
        return float(digamma(x))

    def lgamma(self, x):
        return math.lgamma(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    pi = math.pi

    def frac(self, a, b=1):
        return a / b

    def ite(self, c, a, b):
        return a if c else b

    def max(self, xs):
        return max(xs)

    def min(self, xs):
        return min(xs)

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def equal(self, a, b):
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def check_eq(self, label, a, b, tol=None):
        self.checks += 1
        a, b = _py(a), _py(b)
        if isinstance(a, bool) and isinstance(b, bool):
            ok = a == b
        else:
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                ok = False
            elif math.isinf(a) or math.isinf(b):
                ok = a == b
            else:
                ok = abs(a - b) <= (tol or 0) + self.tol * (1 + abs(a) + abs(b))
        if not ok:
            self.failures.append('%s: %r != %r' % (label, a, b))

    def check(self, label, cond):
        self.checks += 1
        if not bool(cond):
            self.failures.append(label)

    def check_le(self, label, a, b):
        self.checks += 1
        a, b = float(a), float(b)
        if not (a <= b + self.tol * (1 + abs(a) + abs(b))):
            self.failures.append('%s: not %r <= %r' % (label, a, b))

    def fail(self, label, why=''):
        self.failures.append(label + ': ' + why)

    @contextlib.contextmanager
    def in_range(self, label):
        yield

    def finite(self, label, *ts):
        import torch
        for t in ts:
            t = torch.as_tensor(t)
            self.check(label + ': finite', bool(torch.isfinite(t).all()))

    def assume(self, cond):
        if not bool(cond):
            raise PathInfeasible()

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1


def _py(x):
    import torch
    if isinstance(x, torch.Tensor):
        return x.item()
    if isinstance(x, np.generic):
        return x.item()
    return x
