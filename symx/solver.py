"""Translation of terms to z3 and the decision procedures built on it."""
import os
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

from . import terms as T
from . import algebra
from .numeric import evaluate, EvalError

z3.set_param('verbose', 0)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.max_query = 0.0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    solver_time_s=round(self.time, 3), max_query_s=round(self.max_query, 3))


STATS = Stats()


def _rat(v):
    v = Fraction(v)
    return z3.RealVal(z3.Q(v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)


class Translator:
    """terms -> z3.  Transcendental applications become fresh variables, with
    the facts listed in facts()."""

    def __init__(self):
        self.memo = {}
        self.side = []      # defining constraints
        self.atoms = []     # (term, z3 var)
        self.keep = []

    def var(self, t, prefix):
        name = '%s!%d' % (prefix, t.id)
        v = z3.Int(name) if t.sort == 'I' else z3.Bool(name) if t.sort == 'B' else z3.Real(name)
        if t.sgn == T.POS:
            self.side.append(v > 0)
        elif t.sgn == T.NONNEG:
            self.side.append(v >= 0)
        elif t.sgn == T.NEG:
            self.side.append(v < 0)
        elif t.sgn == T.NONPOS:
            self.side.append(v <= 0)
        self.atoms.append((t, v))
        return v

    def real(self, t):
        e = self.tr(t)
        if t.sort == 'I':
            return z3.ToReal(e)
        if t.sort == 'B':
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        return e

    def tr(self, t):
        # iterative to survive deep terms
        stack = [t]
        memo = self.memo
        while stack:
            u = stack[-1]
            if u.id in memo:
                stack.pop()
                continue
            if u.op in ('L', 'E', 'f', 'root'):
                ch = ()
            elif u.op == 'pa':
                ch = u.args
            elif u.op == 'pm':
                ch = tuple(b for b, _ in u.args[1])
            else:
                ch = T.children(u)
            todo = [c for c in ch if c.id not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[u.id] = self._tr(u)
            self.keep.append(u)
            stack.pop()
        return memo[t.id]

    def _tr(self, u):
        o = u.op
        if o == 'c':
            v = u.args
            if isinstance(v, bool) or u.sort == 'B':
                return z3.BoolVal(bool(v))
            if isinstance(v, float):
                raise T.Unsupported('non-finite constant reaches the solver')
            return z3.IntVal(int(v)) if u.sort == 'I' else _rat(v)
        if o == 'v':
            if u.args == '%eps':
                v = z3.Real('machine_eps')
                self.side.append(v > 0)
                self.side.append(v < z3.RealVal('1e-15'))
                return v
            if u.args == '%pi':
                v = z3.Real('pi')
                self.side.append(v > z3.RealVal('3.14159265'))
                self.side.append(v < z3.RealVal('3.14159266'))
                self.atoms.append((u, v))
                return v
            n = 'x!' + u.args
            v = z3.Int(n) if u.sort == 'I' else z3.Bool(n) if u.sort == 'B' else z3.Real(n)
            if u.sgn == T.POS:
                self.side.append(v > 0)
            elif u.sgn == T.NONNEG:
                self.side.append(v >= 0)
            elif u.sgn == T.NEG:
                self.side.append(v < 0)
            elif u.sgn == T.NONPOS:
                self.side.append(v <= 0)
            return v
        if o == 'k':
            return _rat(u.args)
        if o == 'w':
            return self.real(u.args)
        if o == '+':
            c, items = u.args
            if u.sort == 'I':
                return z3.Sum([z3.IntVal(int(c))] + [z3.IntVal(int(k)) * self.tr(a) for a, k in items])
            return z3.Sum([_rat(c)] + [_rat(k) * self.real(a) if k != 1 else self.real(a) for a, k in items])
        if o == '*':
            c, fac = u.args
            if u.sort == 'I':
                r = z3.IntVal(int(c))
                for b, e in fac:
                    for _ in range(int(e)):
                        r = r * self.tr(b)
                return r
            r = None if c == 1 else _rat(c)
            for b, e in fac:
                f = self.powr(b, e)
                r = f if r is None else r * f
            return r
        if o == 'pa':
            return z3.Sum([self.real(a) for a in u.args])
        if o == 'pm':
            c, fac = u.args
            r = None if c == 1 else _rat(c)
            for b, e in fac:
                x = self.real(b)
                for _ in range(e):
                    r = x if r is None else r * x
            return r
        if o in ('L', 'E', 'f', 'root'):
            return self.var(u, o)
        if o == 'floor':
            return z3.ToInt(self.real(u.args))
        if o == 'idiv':
            return self.tr(u.args[0]) / self.tr(u.args[1])
        if o == 'imod':
            return self.tr(u.args[0]) % self.tr(u.args[1])
        if o == 'not':
            return z3.Not(self.tr(u.args))
        if o == 'and':
            return z3.And([self.tr(a) for a in u.args])
        if o == 'iff':
            return self.tr(u.args[0]) == self.tr(u.args[1])
        if o == 'ite':
            c, a, b = u.args
            if u.sort == 'I':
                return z3.If(self.tr(c), self.tr(a), self.tr(b))
            return z3.If(self.tr(c), self.real(a), self.real(b))
        if o in ('lt', 'le', 'eq'):
            a, b = u.args
            if a.sort == 'I' and b.sort == 'I':
                x, y = self.tr(a), self.tr(b)
            else:
                x, y = self.real(a), self.real(b)
            return x < y if o == 'lt' else x <= y if o == 'le' else x == y
        raise T.Unsupported('no translation for ' + o)

    def powr(self, b, e):
        x = self.real(b)
        if e.denominator != 1:
            key = ('root', b.id, e.denominator)
            r = self.memo.get(key)
            if r is None:
                r = z3.Real('rt!%d!%d' % (b.id, e.denominator))
                p = r
                for _ in range(e.denominator - 1):
                    p = p * r
                self.side += [r >= 0, p == x]
                if b.sgn == T.POS:
                    self.side.append(r > 0)
                self.memo[key] = r
            x = r
            e = Fraction(e.numerator)
        n = int(e)
        if n < 0:
            key = ('inv', b.id, x.get_id())
            r = self.memo.get(key)
            if r is None:
                r = z3.Real('inv!%d!%d' % (b.id, x.get_id()))
                self.side.append(r * x == 1)
                if b.sgn == T.POS:
                    self.side.append(r > 0)
                self.memo[key] = r
            x, n = r, -n
        p = x
        for _ in range(n - 1):
            p = p * x
        return p

    def facts(self, limit=40):
        """monotonicity of exp/log on the atoms present"""
        out = []
        Ls = [(t, v) for t, v in self.atoms if t.op == 'L'][:limit]
        Es = [(t, v) for t, v in self.atoms if t.op == 'E'][:limit]
        n0 = len(self.side)
        for kind, lst in (('L', Ls), ('E', Es)):
            zs = []
            for t, v in lst:
                try:
                    zs.append((self.real(t.args), v))
                except T.Unsupported:
                    pass
            for i, (a, v) in enumerate(zs):
                if kind == 'L':
                    out.append((a < 1) == (v < 0))
                    out.append((a == 1) == (v == 0))
                    out.append(v <= a - 1)
                else:
                    out.append((a < 0) == (v < 1))
                    out.append((a == 0) == (v == 1))
                    out.append(v >= a + 1)
                for b, w in zs[:i]:
                    out.append((a < b) == (v < w))
                    out.append((a == b) == (v == w))
        return out


def check(assertions, timeout=20000, logic=None, model=False):
    """-> ('sat'|'unsat'|'unknown', model)"""
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set('timeout', int(timeout))
    s.add(assertions)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.max_query = max(STATS.max_query, dt)
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if r == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None


def query(conds, timeout=20000, facts=False, logic=None):
    """satisfiability of a conjunction of boolean terms -> (verdict, model, translator)"""
    tr = Translator()
    es = [tr.tr(T.to_bool(c)) for c in conds]
    fs = tr.facts() if facts else []
    v, m = check(es + tr.side + fs, timeout, logic)
    return v, m, tr


def model_env(m, tr, variables):
    """rational values of the harness variables in a z3 model"""
    env = {}
    for n, v in variables.items():
        if n in ('%pi', '%eps'):
            continue
        x = z3.Int('x!' + n) if v.sort == 'I' else z3.Bool('x!' + n) if v.sort == 'B' else z3.Real('x!' + n)
        val = m.eval(x, model_completion=False)
        if z3.is_const(val) and val.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            continue
        if v.sort == 'B':
            env[n] = z3.is_true(val)
        elif v.sort == 'I':
            env[n] = Fraction(val.as_long())
        elif z3.is_rational_value(val):
            env[n] = Fraction(val.numerator_as_long(), val.denominator_as_long())
        elif z3.is_algebraic_value(val):
            a = val.approx(20)
            env[n] = Fraction(a.numerator_as_long(), a.denominator_as_long())
    return env


# ----------------------------------------------------------------------
class Prover:
    """Equality of real terms under assumptions."""

    def __init__(self, assumptions, samples, timeout=20000):
        self.assumptions = assumptions      # list of boolean terms
        self.samples = samples              # list of env dicts satisfying them
        self.timeout = timeout
        self.cache = {}
        self.memos = [dict() for _ in samples]
        self.sigs = {}

    def values(self, t):
        out = []
        for env, memo in zip(self.samples, self.memos):
            try:
                out.append(evaluate(t, env, memo))
            except (EvalError, KeyError, ZeroDivisionError, OverflowError):
                out.append(None)
        return out

    def same_numerically(self, a, b, rel=1e-15):
        known = False
        for x, y in zip(self.values(a), self.values(b)):
            if x is None or y is None:
                continue
            known = True
            if abs(x - y) > rel * (1 + abs(x) + abs(y)):
                return False
        return known

    # merge congruent applications bottom-up
    def merge_atoms(self, t):
        """rewrite t so that L/f/E atoms with provably equal arguments are identical"""
        order = []
        seen = set()

        def collect(u):
            stack = [(u, False)]
            while stack:
                x, done = stack.pop()
                if done:
                    if x.op in ('L', 'f', 'E'):
                        order.append(x)
                    continue
                if x.id in seen:
                    continue
                seen.add(x.id)
                stack.append((x, True))
                for c in T.children(x):
                    stack.append((c, False))
        collect(t)
        reps = []
        mapping = {}
        memo = {}
        for x in order:
            y = T.substitute(x, mapping, dict(memo)) if mapping else x
            if y.op not in ('L', 'f', 'E'):
                mapping[x] = y
                continue
            if y.op == 'E':
                # merge on the exponent
                found = None
                for z in reps:
                    if z.op == 'E' and z is not y:
                        d = T.sub(z.args, y.args)
                        if d.op == 'c':
                            continue
                        if self.same_numerically(z.args, y.args) and self.eq(z.args, y.args):
                            found = z
                            break
                if found is not None:
                    mapping[x] = found
                    continue
                reps.append(y)
                if y is not x:
                    mapping[x] = y
                continue
            found = None
            for z in reps:
                if z.op != y.op or z is y:
                    if z is y:
                        found = z
                        break
                    continue
                if y.op == 'f' and (z.args[0] != y.args[0] or len(z.args) != len(y.args)):
                    continue
                za = (z.args,) if z.op == 'L' else z.args[1:]
                ya = (y.args,) if y.op == 'L' else y.args[1:]
                if y.op == 'L':
                    r = self.ratio(y.args, z.args)
                    if r is not None:
                        found = T.add(z, T.log(T.const(r)))
                        break
                    continue
                if all(self.same_numerically(p, q) for p, q in zip(ya, za)) and \
                        all(self.eq(p, q) for p, q in zip(ya, za)):
                    found = z
                    break
            if found is None:
                reps.append(y)
                if y is not x:
                    mapping[x] = y
            elif found is not x:
                mapping[x] = found
        return T.substitute(t, mapping) if mapping else t

    def ratio(self, a, b):
        """rational r with a = r*b, proved, else None"""
        rs = set()
        n = 0
        for x, y in zip(self.values(a), self.values(b)):
            if x is None or y is None or y == 0:
                continue
            n += 1
            f = Fraction(str(x / y)[:24]).limit_denominator(1000) if abs(x / y) < 1e6 else None
            if f is None or f == 0:
                return None
            if abs(x / y - evaluate_q(f)) > 1e-18 * abs(x / y) + 1e-20:
                return None
            rs.add(f)
            if len(rs) > 1:
                return None
        if n == 0 or len(rs) != 1:
            return None
        r = rs.pop()
        if self.eq(a, T.mul(T.const(r), b)):
            return r
        return None

    def eq(self, a, b):
        """proved equal (True) or not proved (False) -- internal lemma"""
        return self.decide_eq(a, b)[0] == 'unsat'

    def decide_eq(self, a, b, timeout=None):
        """('unsat'|'sat'|'unknown', env)"""
        if a is b:
            d = T.ZERO_T
        else:
            d = T.sub(a, b)
        if d.id in self.cache:
            return self.cache[d.id]
        r = self._decide(d, timeout or self.timeout)
        self.cache[d.id] = r
        return r

    def _decide(self, d, timeout):
        if d.op == 'c':
            if isinstance(d.args, float):
                return ('sat', None)
            v, m = check([z3.Not(_rat(d.args) == 0)])
            return (v, None)
        num = self.numerator(d)
        v, m, tr = self._num_query(num, [], timeout)
        if v == 'unsat':
            return ('unsat', None)
        d0 = unroot(d)
        if d0 is not d:
            if d0.op == 'c':
                if not isinstance(d0.args, float) and check([z3.Not(_rat(d0.args) == 0)])[0] == 'unsat':
                    return ('unsat', None)
            elif self._num_query(self.numerator(d0), [], timeout)[0] == 'unsat':
                return ('unsat', None)
        # merge congruent atoms and retry
        agree = any(x is not None for x in self.values(d)) and all(
            x is None or abs(x) < 1e-15 for x in self.values(d))
        if agree or not self.samples:
            d2 = self.merge_atoms(d)
            if d2 is not d:
                if d2.op == 'c':
                    v, m = check([z3.Not(_rat(d2.args) == 0)])
                    if v == 'unsat':
                        return ('unsat', None)
                else:
                    num = self.numerator(d2)
                    v, m, tr = self._num_query(num, [], timeout)
                    if v == 'unsat':
                        return ('unsat', None)
            # with the assumptions
            if self.assumptions:
                v, m, tr = self._num_query(num, self.assumptions, timeout)
                if v == 'unsat':
                    return ('unsat', None)
            # case split on ite conditions
            conds = ite_conds(d2)
            if conds and len(conds) <= 12:
                r = self.split(d2, conds, [], timeout)
                if r == 'unsat':
                    return ('unsat', None)
            fs = tr.facts()
            if fs:
                v, m, tr = self._num_query(num, self.assumptions, timeout, facts=True)
                if v == 'unsat':
                    return ('unsat', None)
            if v == 'sat' and m is not None:
                return ('sat', model_env(m, tr, T.free_vars([d] + list(self.assumptions))))
            return (v, None)
        # numerically different: let the solver confirm with assumptions
        v, m, tr = self._num_query(num, self.assumptions, timeout)
        if v == 'unsat':
            return ('unsat', None)
        env = model_env(m, tr, T.free_vars([d] + list(self.assumptions))) if m is not None else None
        return (v, env)

    def split(self, d, conds, chosen, timeout):
        """case analysis over ite conditions"""
        if not conds:
            if d.op == 'c':
                return 'unsat' if not isinstance(d.args, float) and d.args == 0 else 'sat'
            num = self.numerator(d)
            v, m, tr = self._num_query(num, [], timeout)
            if v == 'unsat':
                return v
            v, m, tr = self._num_query(num, self.assumptions + chosen, timeout)
            return v
        c = conds[0]
        for val in (T.TRUE, T.FALSE):
            lit = c if val is T.TRUE else T.lnot(c)
            v, m, tr = query(self.assumptions + chosen + [lit], timeout)
            if v == 'unsat':
                continue
            d2 = T.substitute(d, {c: val})
            r = self.split(d2, ite_conds(d2), chosen + [lit], timeout)
            if r != 'unsat':
                return r
        return 'unsat'

    def numerator(self, d):
        roots = []
        tg = algebra.Together(roots)
        tg.scan([d])
        n, den = tg.run(d)
        self.last_roots = roots
        n_roots = list(roots)
        return n, n_roots, tg

    def _num_query(self, numinfo, assumptions, timeout, facts=False):
        num, roots, tg = numinfo
        tr = Translator()
        e = tr.real(num)
        es = [z3.Not(e == 0)]
        for a, b, q in roots:
            x = tr.real(a)
            p = x
            for _ in range(q - 1):
                p = p * x
            n, den = tg.run(b) if b.op not in ('k',) else (b, {})
            y = tr.real(n)
            for dd, k in den.items():
                z = tr.real(dd)
                for _ in range(k):
                    p = p * z
            es.append(p == y)
        for c in assumptions:
            es.append(tr.tr(c))
        fs = tr.facts() if facts else []
        if not assumptions and not facts:
            # pure identity first: normalise the polynomial
            s = z3.simplify(e, som=True, som_blowup=100000)
            if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                v, m = check([z3.Not(s == 0)])
                return v, m, tr
        v, m = check(es + tr.side + fs, timeout)
        return v, m, tr


def unroot(d):
    """generalise d: a root of a sum with an exponential that occurs linearly becomes an arbitrary positive
    number, of whose power the exponential is an affine function"""
    for k in range(4):
        roots, seen, stack = {}, set(), [d]
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == '*':
                for b, e in t.args[1]:
                    if e.denominator != 1 and b.op == '+':
                        roots[b] = max(roots.get(b, 1), e.denominator)
            stack.extend(T.children(t))
        for b, q in roots.items():
            c, items = b.args
            found = [(u, x) for u, x in items if u.op == 'E']
            if found and b.sgn == T.POS:
                u, x = found[0]
                r = T.var('%%root%d' % k, lo=0, lo_strict=True)
                rest = T.sub(b, T.mul(T.const(x), u))
                d = T.substitute(d, {u: T.mul(T.const(1 / Fraction(x)), T.sub(T.power(r, T.const(Fraction(q))), rest))})
                break
        else:
            break
    return d


def evaluate_q(f):
    import mpmath
    return mpmath.mpf(f.numerator) / f.denominator


def ite_conds(d):
    out, seen, stack = [], set(), [d]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'ite':
            c = t.args[0]
            for x in (c.args if c.op == 'and' else (c,)):
                if x.op != 'c' and not any(y is x for y in out):
                    out.append(x)
        stack.extend(T.children(t))
    return out
