"""A stand-in for numpy (and the scipy functions used) that computes on symbolic terms.

Arrays of floating point values become object arrays of terms; integer and boolean arrays stay real numpy arrays (values decided by
forking).  Only the functions listed here are redefined, everything else is numpy itself working on object arrays.
"""
import functools
import itertools
import types
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import Term


class SymArray(np.ndarray):
    """object array of terms that survives astype(float)"""
    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt.kind in 'fO':
            return self.copy()
        if dt.kind in 'iu':
            return np.vectorize(lambda x: int(T.trunc(T.lift(x))) if isinstance(x, Term) else int(x), otypes=[dt])(np.asarray(self))
        return np.asarray(self).astype(dtype, *a, **k)


class IntArray(np.ndarray):
    """integer array that becomes an array of terms when converted to floating point"""
    def astype(self, dtype, *a, **k):
        if floating(dtype):
            return wrap(np.asarray(self))
        return np.asarray(self).astype(dtype, *a, **k)


def keep_int(a):
    return a.view(IntArray) if isinstance(a, np.ndarray) and a.dtype.kind in 'iub' and type(a) is np.ndarray else a


class Complex:
    """symbolic complex number"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __abs__(self):
        return T.power(self.re * self.re + self.im * self.im, T.const(Fraction(1, 2)))

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return Complex(self.re, -self.im)

    def __mul__(self, o):
        if isinstance(o, Complex):
            return Complex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        return Complex(self.re * o, self.im * o)
    __rmul__ = __mul__

    def __add__(self, o):
        return Complex(self.re + o.re, self.im + o.im) if isinstance(o, Complex) else Complex(self.re + o, self.im)
    __radd__ = __add__


def symbolic(x):
    if isinstance(x, Term):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    return False


def wrap(a):
    """object array with every element a term"""
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = a[i]
        if isinstance(v, np.ndarray) and v.ndim == 0:
            v = v[()]
        out[i] = v if isinstance(v, (Term, Complex)) else T.lift(v)
    return out.view(SymArray)


def floating(dtype):
    return dtype is None or (dtype is not object and np.dtype(dtype).kind == 'f')


def twiddle(k, n):
    """exact cos and sin of 2 pi k / n where they are algebraic, snapped floats otherwise"""
    k %= n
    table = {Fraction(0): (0, 0), Fraction(1, 8): ('h', 'h'), Fraction(1, 4): (0, 1), Fraction(3, 8): ('-h', 'h'), Fraction(1, 2): (-1, 0),
             Fraction(5, 8): ('-h', '-h'), Fraction(3, 4): (0, -1), Fraction(7, 8): ('h', '-h')}
    f = Fraction(k, n)
    if f == 0:
        return T.ONE, T.ZERO_T
    if f in table:
        h = T.power(T.const(Fraction(1, 2)), T.const(Fraction(1, 2)))
        val = {'h': h, '-h': T.neg(h)}
        return tuple(val[x] if isinstance(x, str) else T.const(x) for x in table[f])
    a = 2 * np.pi * k / n
    return T.const(float(np.cos(a))), T.const(float(np.sin(a)))


def rfft(a, n=None, axis=-1, norm=None):
    a = wrap(a)
    a = np.moveaxis(a, axis, -1)
    L = a.shape[-1]
    n = n or L
    out = np.empty(a.shape[:-1] + (n // 2 + 1,), dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        for k in range(n // 2 + 1):
            re, im = T.ZERO_T, T.ZERO_T
            for t in range(min(L, n)):
                c, s = twiddle(k * t, n)
                re = re + a[i][t] * c
                im = im - a[i][t] * s
            out[i + (k,)] = Complex(re, im)
    return np.moveaxis(out, -1, axis)


def lfilter(b, a, x, axis=-1, zi=None):
    """finite impulse response part of scipy.signal.lfilter"""
    a = np.atleast_1d(a)
    if len(a) != 1 or zi is not None:
        raise T.Unsupported('lfilter with feedback')
    x = np.moveaxis(wrap(x), axis, 0)
    b = [T.lift(v) / T.lift(a[0]) if isinstance(v, Term) or isinstance(a[0], Term) else T.const(float(v) / float(a[0])) for v in b]
    out = np.empty(x.shape, dtype=object)
    for n in range(x.shape[0]):
        acc = None
        for k in range(min(len(b), n + 1)):
            t = x[n - k] * b[k]
            acc = t if acc is None else acc + t
        out[n] = acc
    return np.moveaxis(out, 0, axis).view(SymArray)


def log_base(x, c):
    return T.log(x) / T.log(T.const(c))


class Namespace(types.ModuleType):
    """a module with some functions replaced"""
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


def _result(r, k):
    """ufunc keywords: out is written, where is not supported"""
    if k.get('where', True) is not True:
        raise T.Unsupported('where= of a ufunc')
    out = k.get('out')
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        return r
    out[...] = r
    return out


def _unary(real, f):
    def g(x, *a, **k):
        if a:
            k = dict(k, out=a[0])
        if isinstance(x, Term):
            return _result(f(x), k)
        if symbolic(x):
            x = wrap(x)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i])
            return _result(out.view(SymArray), k)
        return real(x, *a, **k)
    return g


def _binary(real, f):
    def g(x, y, *a, **k):
        if a:
            k = dict(k, out=a[0])
        if symbolic(x) or symbolic(y):
            x, y = np.broadcast_arrays(wrap(x), wrap(y))
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i], y[i])
            return _result(out.view(SymArray) if out.shape else out[()], k)
        return real(x, y, *a, **k)

    def reduce(x, axis=0, dtype=None, out=None, keepdims=False, **k):
        if not symbolic(x):
            return real.reduce(x, axis=axis, dtype=dtype, out=out, keepdims=keepdims, **k)
        x = wrap(x)
        if axis is None:
            x, axis = x.reshape(-1), 0
        r = wrap(functools.reduce(g, list(np.moveaxis(x, axis, 0))))
        return _result(np.expand_dims(r, axis) if keepdims else (r if r.shape else r[()]), dict(out=out))

    def accumulate(x, axis=0, dtype=None, out=None):
        if not symbolic(x):
            return real.accumulate(x, axis=axis, dtype=dtype, out=out)
        rows = list(np.moveaxis(wrap(x), axis, 0))
        return _result(np.moveaxis(np.stack([wrap(v) for v in itertools.accumulate(rows, g)]).view(SymArray), 0, axis), dict(out=out))

    def outer(x, y, **k):
        x, y = np.asarray(x), np.asarray(y)
        return g(x.reshape(x.shape + (1,) * y.ndim), y, **k)
    g.reduce, g.accumulate, g.outer = reduce, accumulate, outer
    return g


def _round_half_even(x):
    lo = T.floor(x)
    d = x - lo
    half = T.const(Fraction(1, 2))
    even = T.eq(T.floor(lo * half) * T.const(2), lo)
    return T.ite(T.lor(T.lt(d, half), T.land(T.eq(d, half), even)), lo, lo + T.ONE)


def around(x, decimals=0, out=None):
    if not symbolic(x):
        return np.round(x, decimals, out=out)
    s = T.const(Fraction(10) ** decimals)
    return _unary(None, lambda v: _round_half_even(v * s) / s)(x, out=out)


def interp(x, xp, fp, left=None, right=None, period=None):
    if not (symbolic(x) or symbolic(fp)) or period is not None:
        return np.interp(x, xp, fp, left, right, period)
    xp = [T.lift(v) for v in xp]
    fp = [T.lift(v) for v in fp]

    def one(v):
        r = fp[-1] if right is None else T.lift(right)
        r = T.ite(T.le(v, xp[-1]), fp[-1], r)
        for i in reversed(range(len(xp) - 1)):
            r = T.ite(T.lt(v, xp[i + 1]), fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i]), r)
        return T.ite(T.lt(v, xp[0]), fp[0] if left is None else T.lift(left), r)
    if isinstance(x, Term):
        return one(x)
    r = _unary(None, one)(wrap(x))
    return r if r.shape else r[()]


def clip(x, a_min=None, a_max=None, out=None, **k):
    if not (symbolic(x) or symbolic(a_min) or symbolic(a_max)):
        return np.clip(x, a_min, a_max, out=out, **k)
    if a_min is not None:
        x = _binary(None, T.maximum)(x, a_min)
    if a_max is not None:
        x = _binary(None, T.minimum)(x, a_max)
    return _result(x, dict(out=out))


def bincount(x, weights=None, minlength=0):
    if weights is None or not symbolic(weights):
        return np.bincount(x, weights, minlength)
    x = np.asarray(x)
    out = [T.ZERO_T] * max(minlength, int(x.max()) + 1 if len(x) else 0)
    for i, w in zip(x, weights):
        out[i] = out[i] + w
    return wrap(out)


def fromiter(it, dtype=None, count=-1, **k):
    vals = list(it if count < 0 else itertools.islice(it, count))
    return wrap(vals) if symbolic(vals) else np.fromiter(vals, dtype=dtype, **k)


def cov(m, y=None, rowvar=True, bias=False, ddof=None):
    if not symbolic(m) or y is not None:
        return np.cov(m, y, rowvar, bias, ddof)
    m = np.atleast_2d(wrap(m))
    if not rowvar and m.shape[0] != 1:
        m = m.T
    n = m.shape[1]
    m = m - (np.sum(m, axis=1) / T.const(n))[:, None]
    return np.dot(m, m.T) / T.const(n - (ddof if ddof is not None else 0 if bias else 1))


def dft(a, n=None, axis=-1, norm=None):
    a = np.moveaxis(wrap(a), axis, -1)
    n = n or a.shape[-1]
    out = np.empty(a.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(a.shape[:-1]):
        for k in range(n):
            acc = Complex(T.ZERO_T, T.ZERO_T)
            for t in range(min(a.shape[-1], n)):
                c, s = twiddle(k * t, n)
                acc = acc + Complex(c, T.neg(s)) * a[i][t]
            out[i + (k,)] = acc
    return np.moveaxis(out, -1, axis)


def _minor(a, i, j):
    return np.delete(np.delete(a, i, 0), j, 1)


def det(a):
    if not symbolic(a):
        return np.linalg.det(a)
    a = wrap(a)
    if a.ndim != 2:
        raise T.Unsupported('determinant of a stack of matrices')
    if a.shape[0] == 1:
        return a[0, 0]
    return functools.reduce(T.add, [(a[0, j] if j % 2 == 0 else T.neg(a[0, j])) * det(_minor(a, 0, j)) for j in range(a.shape[1])])


def inv(a):
    if not symbolic(a):
        return np.linalg.inv(a)
    a = wrap(a)
    n, d = a.shape[0], det(a)
    if n == 1:
        return wrap([[T.ONE / a[0, 0]]])
    return wrap([[(det(_minor(a, j, i)) if (i + j) % 2 == 0 else T.neg(det(_minor(a, j, i)))) / d for j in range(n)] for i in range(n)])


def solve(a, b):
    return np.dot(inv(a), wrap(b)) if symbolic(a) or symbolic(b) else np.linalg.solve(a, b)


def isclose(x, y, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (symbolic(x) or symbolic(y)):
        return np.isclose(x, y, rtol, atol, equal_nan)
    x, y = np.broadcast_arrays(wrap(x), wrap(y))
    out = np.empty(x.shape, dtype=bool)
    for i in np.ndindex(x.shape):
        out[i] = bool(T.le(abs(x[i] - y[i]), T.const(atol) + T.const(rtol) * abs(y[i])))
    return out


def _classify(real, f):
    """isfinite and its relatives: symbolic values are finite, constants need not be"""
    def one(v):
        return bool(f(v)) if T.is_const(v) else bool(f(T.ZERO_T))

    def g(x, *a, **k):
        if isinstance(x, Term):
            return one(x)
        if symbolic(x):
            return np.array([one(v) for v in wrap(x).reshape(-1)], dtype=bool).reshape(np.shape(x))
        return real(x, *a, **k)
    return g


def _filled(real, value):
    def g(shape, dtype=None, *a, **k):
        if floating(dtype):
            return wrap(real(shape))
        return keep_int(real(shape, dtype=dtype, *a, **k))
    return g


def _like(real):
    def g(x, dtype=None, *a, **k):
        if floating(dtype) and (symbolic(x) or np.asarray(x).dtype.kind == 'f' or dtype is not None):
            return wrap(real(np.zeros(np.shape(x))))
        return keep_int(real(x, dtype=dtype, *a, **k))
    return g


def _array(real):
    def g(x, dtype=None, *a, **k):
        if symbolic(x) and (dtype is None or floating(dtype) or dtype is object):
            return wrap(x)
        r = real(x, dtype=dtype, *a, **k)
        return r
    return g


def linspace(a, b, num=50, endpoint=True, *r, **k):
    if symbolic(a) or symbolic(b):
        a, b = T.lift(a), T.lift(b)
        d = num - 1 if endpoint else num
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = a if i == 0 else (b if endpoint and i == d else a + (b - a) * T.const(Fraction(i, d)))
        return out.view(SymArray)
    return np.linspace(a, b, num, endpoint, *r, **k)


def where(c, *xy):
    if xy and (symbolic(c) or symbolic(xy[0]) or symbolic(xy[1])):
        c, x, y = np.broadcast_arrays(np.asarray(c), wrap(xy[0]), wrap(xy[1]))
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = T.ite(T.lift(c[i]), x[i], y[i]) if isinstance(c[i], Term) else (x[i] if c[i] else y[i])
        return out.view(SymArray)
    return np.where(c, *xy)


def _reduce(real, *extra):
    def g(x, *a, **k):
        if symbolic(x):
            k.pop('dtype', None)
            x = wrap(x)
        return real(x, *a, **k)
    return g


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if not symbolic(x):
        return np.var(x, axis=axis, ddof=ddof, keepdims=keepdims)
    x = wrap(x)
    n = x.size if axis is None else x.shape[axis]
    m = np.sum(x, axis=axis, keepdims=True) / T.const(n)
    r = np.sum((x - m) * (x - m), axis=axis, keepdims=keepdims)
    return r / T.const(n - ddof)


def numpy_proxy():
    one, zero = T.const(1), T.const(0)
    fft = Namespace(np.fft, dict(rfft=lambda a, n=None, axis=-1, norm=None: rfft(a, n, axis, norm) if symbolic(a) else np.fft.rfft(a, n, axis, norm),
                                 fft=lambda a, n=None, axis=-1, norm=None: dft(a, n, axis, norm) if symbolic(a) else np.fft.fft(a, n, axis, norm)))
    linalg = Namespace(np.linalg, dict(det=det, inv=inv, solve=solve))
    half = T.const(Fraction(1, 2))
    sign = lambda x: T.ite(T.lt(T.ZERO_T, x), T.ONE, T.ite(T.lt(x, T.ZERO_T), T.const(-1), T.ZERO_T))
    over = dict(
        zeros=_filled(np.zeros, 0), ones=_filled(np.ones, 1), empty=_filled(np.zeros, 0),
        full=lambda shape, v, dtype=None, **k: wrap(np.full(shape, v, dtype=object)) if symbolic(v) else np.full(shape, v, dtype=dtype, **k),
        zeros_like=_like(np.zeros_like), ones_like=_like(np.ones_like), empty_like=_like(np.zeros_like),
        array=_array(np.array), asarray=_array(np.asarray), ascontiguousarray=_array(np.ascontiguousarray),
        arange=lambda *a, **k: keep_int(np.arange(*a, **k)) if not any(symbolic(x) for x in a) else np.arange(*[int(x) for x in a], **k),
        linspace=linspace, where=where, var=var,
        log=_unary(np.log, T.log), exp=_unary(np.exp, T.exp), sqrt=_unary(np.sqrt, lambda x: T.power(x, T.const(Fraction(1, 2)))),
        log2=_unary(np.log2, lambda x: log_base(x, 2)), log10=_unary(np.log10, lambda x: log_base(x, 10)), log1p=_unary(np.log1p, lambda x: T.log(x + one)),
        expm1=_unary(np.expm1, lambda x: T.exp(x) - one),
        floor=_unary(np.floor, T.floor), ceil=_unary(np.ceil, T.ceil), square=_unary(np.square, lambda x: x * x), abs=_unary(np.abs, abs), absolute=_unary(np.abs, abs),
        sin=_unary(np.sin, lambda x: T.apply('sin', x)), cos=_unary(np.cos, lambda x: T.apply('cos', x)),
        maximum=_binary(np.maximum, T.maximum), minimum=_binary(np.minimum, T.minimum),
        fmax=_binary(np.fmax, T.maximum), fmin=_binary(np.fmin, T.minimum), logaddexp=_binary(np.logaddexp, lambda x, y: T.log(T.exp(x) + T.exp(y))),
        hypot=_binary(np.hypot, lambda x, y: T.power(x * x + y * y, half)), sign=_unary(np.sign, sign),
        sinh=_unary(np.sinh, lambda x: (T.exp(x) - T.exp(T.neg(x))) * half), cosh=_unary(np.cosh, lambda x: (T.exp(x) + T.exp(T.neg(x))) * half),
        tanh=_unary(np.tanh, lambda x: (T.exp(x * 2) - one) / (T.exp(x * 2) + one)), arcsinh=_unary(np.arcsinh, lambda x: T.apply('asinh', x)),
        rint=_unary(np.rint, _round_half_even), round=around, around=around, interp=interp, clip=clip, bincount=bincount, fromiter=fromiter, cov=cov,
        isfinite=_classify(np.isfinite, T.is_finite_const), isnan=_classify(np.isnan, lambda v: T.show(v) == 'nan'),
        isinf=_classify(np.isinf, lambda v: not T.is_finite_const(v) and T.show(v) != 'nan'), isclose=isclose,
        allclose=lambda *a, **k: bool(np.all(isclose(*a, **k))),
        fft=fft, linalg=linalg,
        float32=np.float32, float64=np.float64,
    )
    return Namespace(np, over)


def scipy_proxy():
    import scipy
    import scipy.signal
    sig = Namespace(scipy.signal, dict(lfilter=lambda b, a, x, axis=-1, zi=None: lfilter(b, a, x, axis, zi) if symbolic(x) or symbolic(b) else scipy.signal.lfilter(b, a, x, axis)))
    return Namespace(scipy, dict(signal=sig))


def patch(module):
    """replace the numpy and scipy modules among the globals of a module; returns a function undoing it"""
    import scipy
    import scipy.signal
    old = {}
    px, sx = numpy_proxy(), scipy_proxy()
    for k, v in list(vars(module).items()):
        new = px if v is np else sx if v is scipy else sx.signal if v is scipy.signal else None
        if new is None and getattr(v, '__module__', '').startswith('numpy') if callable(v) and not isinstance(v, type) else False:
            new = getattr(px, getattr(v, '__name__', ''), None)
        if v is scipy.signal.lfilter:
            new = sx.signal.lfilter
        if new is not None and new is not v:
            old[k] = v
            setattr(module, k, new)

    def undo():
        for k, v in old.items():
            setattr(module, k, v)
    return undo
