"""Clearing of denominators and small exact simplifications on terms."""
from fractions import Fraction
from math import gcd

from . import terms as T
from .terms import Term


def simplify(t):
    return t


def lcm(a, b):
    return a * b // gcd(a, b)


class Together:
    """t -> (numerator, denominator factors), both free of negative powers.

    exp atoms are split into powers of elementary exponentials and fractional
    powers into powers of root atoms, so that the numerator is a polynomial in
    the atoms.
    """

    def __init__(self, roots):
        self.memo = {}
        self.rmemo = {}
        self.roots = roots      # list collecting (root atom term, base, q)
        self.edenom = {}        # elementary exponent -> common denominator
        self.rdenom = {}        # base -> common root

    # pass 1: collect denominators of exponents
    def scan(self, ts):
        seen = set()
        stack = list(ts)
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'E':
                c, items = T._sum_parts(t.args)
                for m, q in list(items) + ([(None, Fraction(c))] if c != 0 else []):
                    self.edenom[m] = lcm(self.edenom.get(m, 1), q.denominator)
                continue
            if t.op == '*':
                for b, e in t.args[1]:
                    if e.denominator != 1:
                        self.rdenom[b] = lcm(self.rdenom.get(b, 1), e.denominator)
            if t.op in ('L', 'f'):
                continue
            stack.extend(T.children(t))

    def eatom(self, m):
        q = self.edenom.get(m, 1)
        arg = T.const(Fraction(1, q)) if m is None else T.mul(T.const(Fraction(1, q)), m)
        return T._mk('E', arg, 'R', T.POS)

    def root(self, b):
        q = self.rdenom[b]
        a = T._mk('root', (b, q), 'R', T.POS if b.sgn == T.POS else T.NONNEG)
        self.roots.append((a, b, q))
        return a

    def run(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._run(t)
            self.memo[t.id] = r
        return r

    def _run(self, t):
        """-> (num Term polynomial, den dict term->int exponent)"""
        if t.op == '+':
            c, items = t.args
            parts = [(T.const(c), {})] if c != 0 else []
            for u, k in items:
                n, d = self.run(u)
                parts.append((pmul(T.const(k), n), d))
            L = {}
            for n, d in parts:
                for b, e in d.items():
                    if L.get(b, 0) < e:
                        L[b] = e
            out = []
            for n, d in parts:
                fs = [n]
                for b, e in L.items():
                    k = e - d.get(b, 0)
                    if k:
                        fs.append(ppow(b, k))
                out.append(pmul(*fs) if len(fs) > 1 else n)
            return padd(*out), L
        if t.op == '*':
            c, fac = t.args
            num = [T.const(c)]
            den = {}
            for b, e in fac:
                if e.denominator != 1 or b in self.rdenom:
                    q = self.rdenom[b]
                    k = e * q
                    a = self.root(b)
                    k = int(k)
                    # integer part on the base itself
                    whole, part = divmod(abs(k), q)
                    pieces = []
                    if whole:
                        pieces.append((b, whole))
                    if part:
                        pieces.append((a, part))
                    for x, m in pieces:
                        self._put(num, den, x, m if k > 0 else -m)
                    continue
                self._put(num, den, b, int(e))
            # cancel common factors
            return pmul(*num), {b: e for b, e in den.items() if e}
        if t.op == 'E':
            num, den = [T.ONE], {}
            c, items = T._sum_parts(t.args)
            for m, q in list(items) + ([(None, Fraction(c))] if c != 0 else []):
                k = int(q * self.edenom[m])
                a = self.eatom(m)
                if k > 0:
                    num.append(ppow(a, k))
                else:
                    den[a] = den.get(a, 0) - k
            return pmul(*num), den
        return t, {}

    def _put(self, num, den, b, e):
        if b.op in ('root',):
            n, d = b, {}
        else:
            n, d = self.run(b)
        if e < 0:
            if n.op == 'c':
                num.append(T.const(1 / Fraction(n.args) ** (-e)))
            elif n.op == 'pm':
                k = n.args[0]
                num.append(T.const(1 / Fraction(k) ** (-e)))
                for x, m in n.args[1]:
                    den[x] = den.get(x, 0) + m * (-e)
            else:
                den[n] = den.get(n, 0) - e
            for x, m in d.items():
                num.append(ppow(x, m * (-e)))
        else:
            num.append(ppow(n, e))
            for x, m in d.items():
                den[x] = den.get(x, 0) + m * e


# raw polynomial nodes: no smart rewriting, translated 1-1 to the solver
def padd(*ts):
    ts = [t for t in ts if not (t.op == 'c' and t.args == 0)]
    if not ts:
        return T.ZERO_T
    if len(ts) == 1:
        return ts[0]
    return T._mk('pa', tuple(ts), 'R', T.UNK)


def pmul(*ts):
    c = Fraction(1)
    fac = {}
    for t in ts:
        if t.op == 'c':
            c *= t.args
        elif t.op == 'pm':
            c *= t.args[0]
            for b, e in t.args[1]:
                fac[b] = fac.get(b, 0) + e
        else:
            fac[t] = fac.get(t, 0) + 1
    if c == 0:
        return T.ZERO_T
    if not fac:
        return T.const(c)
    items = tuple(sorted(fac.items(), key=lambda p: p[0].id))
    if c == 1 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return T._mk('pm', (c, items), 'R', T.UNK)


def ppow(t, k):
    if k == 0:
        return T.ONE
    if k == 1:
        return t
    if t.op == 'c':
        return T.const(Fraction(t.args) ** k)
    if t.op == 'pm':
        return T._mk('pm', (Fraction(t.args[0]) ** k, tuple((b, e * k) for b, e in t.args[1])), 'R', T.UNK)
    return T._mk('pm', (Fraction(1), ((t, k),)), 'R', T.UNK)
