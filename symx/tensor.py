"""Symbolic tensors: the real torch runs, its kernels are replaced.

SymTensor is a wrapper subclass of torch.Tensor whose payload is a numpy object
array of symbolic terms.  Every ATen operator reaching the dispatcher is
executed on the payloads; numpy views give exactly torch's aliasing semantics.
Composite operators are decomposed by torch itself.  Autograd sits above the
dispatcher, so gradients are computed by torch's own derivative formulas on
symbolic values.
"""
import itertools
import math
from fractions import Fraction

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.overrides import TorchFunctionMode
from torch.utils import _pytree as pytree

from . import ranges
from . import terms as T
from .terms import Term, Unsupported, HOOKS

aten = torch.ops.aten


def oarr(x):
    """object array (0-dim safe)"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    a = np.empty((), dtype=object)
    if isinstance(x, np.ndarray):
        a = np.empty(x.shape, dtype=object)
        flat = x.reshape(-1)
        for i, idx in enumerate(np.ndindex(x.shape)):
            a[idx] = T.lift(flat[i].item() if x.dtype.kind != 'f' else x.dtype.type(flat[i]))
        return a
    a[()] = x
    return a


def vec(f, *arrs, **kw):
    """elementwise with broadcasting, always returning an ndarray"""
    arrs = np.broadcast_arrays(*[oarr(a) for a in arrs]) if len(arrs) > 1 else [oarr(arrs[0])]
    out = np.empty(arrs[0].shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[a[()] for a in arrs])
        return out
    its = [a.reshape(-1) for a in arrs]
    flat = out.reshape(-1)
    for i in range(flat.shape[0]):
        flat[i] = f(*[it[i] for it in its])
    return out


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, payload, dtype, requires_grad=False):
        assert isinstance(payload, np.ndarray) and payload.dtype == object
        strides = tuple(s // payload.itemsize for s in payload.strides)
        # torch rejects negative strides
        if any(s < 0 for s in strides):
            payload = payload.copy()
            strides = tuple(s // payload.itemsize for s in payload.strides)
        r = torch.Tensor._make_wrapper_subclass(
            cls, payload.shape, strides=strides, dtype=dtype,
            device=torch.device('cpu'), requires_grad=requires_grad)
        r.payload = payload
        return r

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self):
        return 'SymTensor(%s, %s)' % (self.payload.tolist(), self.dtype)

    def __deepcopy__(self, memo):
        r = wrap(self.payload.copy(), self.dtype)
        if isinstance(self, torch.nn.Parameter):
            r = torch.nn.Parameter(r, requires_grad=self.requires_grad)
        elif self.requires_grad and self.is_leaf:
            r.requires_grad_(True)
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        key = len(_PICKLED)
        _PICKLED.append(self.payload.copy())
        kind = ('param', self.requires_grad) if isinstance(self, torch.nn.Parameter) else \
            ('leaf', self.requires_grad and self.is_leaf)
        return _unpickle, (key, self.dtype, kind)


_PICKLED = []       # payloads of the pickled symbolic tensors of this process


def _unpickle(key, dtype, kind):
    r = wrap(_PICKLED[key].copy(), dtype)
    if kind[0] == 'param':
        return torch.nn.Parameter(r, requires_grad=kind[1])
    if kind[1]:
        r.requires_grad_(True)
    return r


def wrap(payload, dtype):
    return SymTensor(oarr(payload), dtype)


def _scalar_dtype(t):
    return {'R': torch.get_default_dtype(), 'I': torch.int64, 'B': torch.bool}[t.sort]


def wrap_scalar(t):
    return wrap(oarr(t), _scalar_dtype(t))


HOOKS.wrap_tensor = wrap_scalar


def concrete_to_payload(t):
    with torch._C._DisableTorchDispatch(), torch._C.DisableTorchFunction():
        t = t.detach()
        a = np.empty(tuple(t.shape), dtype=object)
        vals = t.tolist()
        f32 = t.dtype == torch.float32

        def cv(v):
            if isinstance(v, float) and f32:
                return T.const(np.float32(v))
            return T.lift(v)
        if a.ndim == 0:
            a[()] = cv(vals)
        else:
            def rec(v, idx):
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        rec(x, idx + (i,))
                else:
                    a[idx] = cv(v)
            rec(vals, ())
        return a


_CONC_CACHE = {}


def payload_of(x):
    if isinstance(x, SymTensor):
        return x.payload
    if isinstance(x, torch.Tensor):
        return concrete_to_payload(x)
    if isinstance(x, Term):
        return oarr(x)
    return oarr(T.lift(x))


def is_conc(p):
    """all entries are constants"""
    return all(t.op == 'c' for t in p.reshape(-1))


# ----------------------------------------------------------------------
IMPL = {}
INPLACE = {}


def impl(*names):
    def deco(f):
        for n in names:
            IMPL[n] = f
        return f
    return deco


def opname(func):
    return func._schema.name.split('::')[1]


USED_OPS = {}


def _isfloat(dt):
    return dt.is_floating_point


def dispatch(func, args, kwargs):
    name = opname(func)
    ns = func._schema.name.split('::')[0]
    USED_OPS[name] = USED_OPS.get(name, 0) + 1
    f = IMPL.get(name)
    if f is not None:
        out = f(func, *args, **kwargs)
        if out is not NotImplemented:
            if 'out' in kwargs and isinstance(kwargs['out'], SymTensor):
                kwargs['out'].payload[...] = out.payload
                return kwargs['out']
            return out
    # in-place variants of functional ops
    if name.endswith('_') and not name.startswith('_') and name[:-1] in IMPL:
        base = name[:-1]
        self = args[0]
        out = IMPL[base](func, *args, **kwargs)
        if not isinstance(self, SymTensor):
            raise Unsupported('in-place %s on a concrete tensor' % name)
        self.payload[...] = cast(out.payload, out.dtype, self.dtype)
        return self
    table = decomp_table()
    d = table.get(func)
    if d is not None:
        return d(*args, **kwargs)
    if func._can_decompose():
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported('operator %s' % func)


_DT = None


def decomp_table():
    global _DT
    if _DT is None:
        import torch._decomp as D
        import torch._refs  # noqa
        _DT = dict(D.decomposition_table)
    return _DT


def cast(p, src, dst):
    if src == dst:
        return p
    if dst == torch.bool:
        return vec(T.to_bool, p)
    if _isfloat(dst):
        return vec(T.to_real, p) if not _isfloat(src) else p
    if _isfloat(src):
        return vec(T.trunc, p)
    if src == torch.bool:
        return vec(T._num, p)
    return p


# ---- dtype promotion -------------------------------------------------
def result_type(*xs):
    dummies = []
    for x in xs:
        if isinstance(x, torch.Tensor):
            dummies.append((x.dtype, x.dim()))
        elif isinstance(x, Term):
            dummies.append(({'R': float, 'I': int, 'B': bool}[x.sort], -1))
        else:
            dummies.append((type(x), -1))

    def cat(d):
        if d in (float,):
            return 2
        if d in (int,):
            return 1
        if d in (bool,):
            return 0
        if d.is_floating_point:
            return 2
        return 0 if d == torch.bool else 1
    # three priority levels: dim tensors, 0-dim tensors, python scalars
    res = None
    for level in (lambda k: k > 0, lambda k: k == 0, lambda k: k < 0):
        ds = [d for d, k in dummies if level(k)]
        for d in ds:
            dt = {float: torch.get_default_dtype(), int: torch.int64, bool: torch.bool}.get(d, d)
            if res is None:
                res = (dt, level)
                continue
            if level is res[1]:
                res = (torch.promote_types(res[0], dt), level)
            elif cat(dt) > cat(res[0]):
                res = (dt if d in (float, int, bool) or True else dt, res[1])
    return res[0]


# ---- elementwise -----------------------------------------------------
def ewise(names, f, kind='num'):
    """kind: num (promote), float (ints go to float), bool, intlike"""
    def run(func, *args, **kwargs):
        alpha = kwargs.get('alpha', 1)
        xs = list(args)
        dt = result_type(*xs)
        if kind == 'float' and not _isfloat(dt):
            dt = torch.get_default_dtype()
        ps = [payload_of(x) for x in xs]
        if kind in ('num', 'float') and _isfloat(dt):
            ps = [vec(T.to_real, p) if (p.size and not all(t.sort == 'R' for t in p.reshape(-1))) else p for p in ps]
        if alpha != 1:
            al = T.lift(alpha)
            ps[1] = vec(lambda t: T.mul(t, al), ps[1])
        out = vec(f, *ps)
        if kind == 'bool':
            dt = torch.bool
        return wrap(out, dt)
    for n in names:
        IMPL[n] = run


ewise(['add'], T.add)
ewise(['sub'], T.sub)
ewise(['mul'], T.mul)
ewise(['neg'], T.neg)
def _exp(a):
    ranges.note('exp', a)
    return T.exp(a)


def _log(a):
    ranges.note('log', a)
    return T.log(a)


def _recip(a):
    ranges.note('log', a)
    return T.div(T.ONE, a)


ewise(['exp'], _exp, 'float')
ewise(['reciprocal'], _recip, 'float')
ewise(['log'], _log, 'float')
ewise(['log1p'], lambda a: T.log(T.add(T.ONE, a)), 'float')
ewise(['exp2'], lambda a: _exp(T.mul(a, T.log(T.const(2)))), 'float')
ewise(['sinh'], lambda a: T.mul(T.const(Fraction(1, 2)), T.sub(_exp(a), _exp(T.neg(a)))), 'float')
ewise(['cosh'], lambda a: T.mul(T.const(Fraction(1, 2)), T.add(_exp(a), _exp(T.neg(a)))), 'float')
ewise(['expm1'], lambda a: T.sub(_exp(a), T.ONE), 'float')
ewise(['log2'], lambda a: T.div(T.log(a), T.log(T.const(2))), 'float')
ewise(['log10'], lambda a: T.div(T.log(a), T.log(T.const(10))), 'float')
ewise(['sqrt'], lambda a: T.power(a, T.const(Fraction(1, 2))), 'float')
ewise(['rsqrt'], lambda a: T.power(a, T.const(Fraction(-1, 2))), 'float')
ewise(['square'], lambda a: T.mul(a, a))
ewise(['abs'], T.absolute)
ewise(['digamma', 'special_digamma'], lambda a: digamma(a), 'float')
ewise(['lgamma', 'special_gammaln'], lambda a: lgamma(a), 'float')
ewise(['trigamma'], lambda a: T.apply('trigamma', a), 'float')
ewise(['sin'], lambda a: T.apply('sin', a), 'float')
ewise(['cos'], lambda a: T.apply('cos', a), 'float')
ewise(['erf'], lambda a: T.apply('erf', a), 'float')
ewise(['tanh'], lambda a: tanh(a), 'float')
ewise(['sigmoid'], lambda a: sigmoid(a), 'float')
ewise(['relu'], lambda a: T.maximum(a, T.const(0, a.sort)))
ewise(['maximum'], T.maximum)
ewise(['minimum'], T.minimum)
ewise(['floor'], lambda a: T.to_real(T.floor(a)))
ewise(['ceil'], lambda a: T.to_real(T.ceil(a)))
ewise(['trunc'], lambda a: T.to_real(T.trunc(a)))
ewise(['lt'], T.lt, 'bool')
ewise(['le'], T.le, 'bool')
ewise(['gt'], lambda a, b: T.lt(b, a), 'bool')
ewise(['ge'], lambda a, b: T.le(b, a), 'bool')
ewise(['eq'], T.eq, 'bool')
ewise(['ne'], T.ne, 'bool')
ewise(['isnan'], T.isnan, 'bool')
ewise(['isinf'], lambda a: T.TRUE if (a is T.PINF or a is T.NINF) else T.FALSE, 'bool')
ewise(['logical_not'], T.lnot, 'bool')
ewise(['logical_and'], lambda a, b: T.land(a, b), 'bool')
ewise(['logical_or'], lambda a, b: T.lor(a, b), 'bool')
ewise(['logical_xor'], lambda a, b: T.lnot(T.eq(T.to_bool(a), T.to_bool(b))), 'bool')
ewise(['remainder', 'fmod'], T.mod)
ewise(['floor_divide'], T.floordiv)
ewise(['sign', 'sgn'], lambda a: T.ite(T.lt(T.ZERO_T, a), T.ONE, T.ite(T.lt(a, T.ZERO_T), T.const(-1), T.ZERO_T)))
ewise(['logaddexp'], lambda a, b: T.log(T.add(T.exp(a), T.exp(b))), 'float')


def sigmoid(a):
    return T.div(T.ONE, T.add(T.ONE, T.exp(T.neg(a))))


def tanh(a):
    e = T.exp(T.mul(T.const(2), a))
    return T.div(T.sub(e, T.ONE), T.add(e, T.ONE))


def _split_shift(a):
    """a = r + n with n a non-negative integer taken from the constant, r > 0 kept"""
    return a


def digamma(a):
    return T.apply('digamma', a)


def lgamma(a):
    if a.op == 'c' and a.args in (1, 2):
        return T.ZERO_T
    return T.apply('lgamma', a)


@impl('bitwise_and', '__and__')
def _band(func, a, b):
    dt = result_type(a, b)
    if dt != torch.bool:
        raise Unsupported('integer bit operations')
    return wrap(vec(T.land, payload_of(a), payload_of(b)), dt)


@impl('bitwise_or', '__or__')
def _bor(func, a, b):
    return wrap(vec(T.lor, payload_of(a), payload_of(b)), torch.bool)


@impl('bitwise_not')
def _bnot(func, a):
    return wrap(vec(T.lnot, payload_of(a)), torch.bool)


@impl('div')
def _div(func, a, b, rounding_mode=None):
    dt = result_type(a, b)
    if rounding_mode == 'floor':
        return wrap(vec(T.floordiv, payload_of(a), payload_of(b)), dt)
    if rounding_mode == 'trunc':
        return wrap(vec(lambda x, y: T.trunc(T.div(x, y)), payload_of(a), payload_of(b)), dt)
    if not _isfloat(dt):
        dt = torch.get_default_dtype()
    if ranges.RECORD is not None:
        for t in payload_of(b).reshape(-1):
            ranges.note('log', T.lift(t))
    return wrap(vec(lambda x, y: T.to_real(T.div(T.to_real(x), T.to_real(y))), payload_of(a), payload_of(b)), dt)


@impl('true_divide')
def _tdiv(func, a, b):
    return _div(func, a, b)


@impl('rsub')
def _rsub(func, a, b, alpha=1):
    dt = result_type(a, b)
    return wrap(vec(lambda x, y: T.sub(y, T.mul(T.lift(alpha), x)), payload_of(a), payload_of(b)), dt)


@impl('pow')
def _pow(func, a, b):
    dt = result_type(a, b)
    if isinstance(b, float) and not _isfloat(dt):
        dt = torch.get_default_dtype()
    return wrap(vec(T.power, payload_of(a), payload_of(b)), dt)


@impl('where')
def _where(func, c, a=None, b=None):
    if a is None:
        return NotImplemented
    dt = result_type(a, b)
    return wrap(vec(T.ite, payload_of(c), cast(payload_of(a), _dt(a), dt), cast(payload_of(b), _dt(b), dt)), dt)


def _dt(x):
    return x.dtype if isinstance(x, torch.Tensor) else result_type(x)


@impl('clamp')
def _clamp(func, a, min=None, max=None):
    p = payload_of(a)
    if min is not None:
        p = vec(T.maximum, p, payload_of(min))
    if max is not None:
        p = vec(T.minimum, p, payload_of(max))
    return wrap(p, result_type(a, *[m for m in (min, max) if m is not None]))


@impl('clamp_min')
def _cmin(func, a, m):
    return _clamp(func, a, min=m)


@impl('clamp_max')
def _cmax(func, a, m):
    return _clamp(func, a, max=m)


@impl('masked_fill')
def _mfill(func, a, mask, value):
    v = payload_of(value)
    return wrap(vec(lambda x, m, v: T.ite(m, v, x), payload_of(a), payload_of(mask), v), a.dtype)


@impl('softplus')
def _softplus(func, a, beta=1, threshold=20):
    # log(1 + exp(x)); torch switches to the identity above the threshold,
    # which changes the value by less than exp(-20)
    b = T.lift(beta)
    return wrap(vec(lambda x: T.div(T.log(T.add(T.ONE, T.exp(T.mul(b, x)))), b), payload_of(a)), a.dtype)


@impl('softplus_backward')
def _softplus_b(func, g, a, beta, threshold):
    return wrap(vec(lambda g, x: T.mul(g, sigmoid(T.mul(T.lift(beta), x))), payload_of(g), payload_of(a)), a.dtype)


@impl('sigmoid_backward')
def _sig_b(func, g, y):
    return wrap(vec(lambda g, y: T.mul(g, y, T.sub(T.ONE, y)), payload_of(g), payload_of(y)), y.dtype)


@impl('tanh_backward')
def _tanh_b(func, g, y):
    return wrap(vec(lambda g, y: T.mul(g, T.sub(T.ONE, T.mul(y, y))), payload_of(g), payload_of(y)), y.dtype)


@impl('threshold_backward')
def _thr_b(func, g, x, th):
    th = T.lift(th)
    return wrap(vec(lambda g, x: T.ite(T.le(x, th), T.ZERO_T, g), payload_of(g), payload_of(x)), x.dtype)


@impl('polygamma')
def _polygamma(func, n, a):
    if isinstance(n, torch.Tensor):
        n, a = a, n
    if n == 0:
        return wrap(vec(digamma, payload_of(a)), a.dtype)
    return wrap(vec(lambda x: T.apply('trigamma' if n == 1 else 'polygamma%d' % n, x), payload_of(a)), a.dtype)


@impl('mvlgamma')
def _mvlgamma(func, a, p):
    def f(x):
        r = T.mul(T.const(Fraction(p * (p - 1), 4)), T._mk('L', T.PI, 'R', T.POS))
        return T.add(r, *[lgamma(T.sub(x, T.const(Fraction(i, 2)))) for i in range(p)])
    return wrap(vec(f, payload_of(a)), a.dtype)


# ---- reductions ------------------------------------------------------
def _dims(p, dim):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(p.ndim))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(d % p.ndim if p.ndim else 0 for d in dim)


def reduce_(p, dim, keepdim, f):
    """f: list of terms -> term"""
    dims = _dims(p, dim)
    if p.ndim == 0:
        return oarr(f([p[()]]))
    keep = [d for d in range(p.ndim) if d not in dims]
    q = np.transpose(p, keep + list(dims))
    shp = tuple(p.shape[d] for d in keep)
    n = int(np.prod([p.shape[d] for d in dims], dtype=int))
    q = q.reshape(shp + (n,))
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(shp):
        out[idx] = f(list(q[idx]))
    if keepdim:
        out = out.reshape(tuple(1 if d in dims else p.shape[d] for d in range(p.ndim)))
    return out


def tsum(xs, dt=None):
    if not xs:
        return T.const(0, 'R' if dt is None or dt.is_floating_point else 'I')
    return T.add(*xs) if len(xs) > 1 else T._num(xs[0])


@impl('sum')
def _sum(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (a.dtype if _isfloat(a.dtype) else torch.int64)
    p = cast(payload_of(a), a.dtype, dt)
    return wrap(reduce_(p, dim, keepdim, lambda xs: tsum(xs, dt)), dt)


@impl('mean')
def _mean(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or a.dtype

    def f(xs):
        if not xs:
            return T.NAN
        return T.div(tsum(xs), T.const(len(xs)))
    return wrap(reduce_(payload_of(a), dim, keepdim, f), dt)


@impl('prod')
def _prod(func, a, dim=None, keepdim=False, dtype=None):
    dt = dtype or (a.dtype if _isfloat(a.dtype) else torch.int64)
    return wrap(reduce_(payload_of(a), dim, keepdim, lambda xs: T.mul(*xs) if xs else T.ONE), dt)


@impl('logsumexp')
def _lse(func, a, dim, keepdim=False):
    return wrap(reduce_(payload_of(a), dim, keepdim, lambda xs: T.log(tsum([T.exp(x) for x in xs]))), a.dtype)


@impl('_log_softmax')
def _lsm(func, a, dim, half=False):
    p = payload_of(a)
    z = reduce_(p, dim, True, lambda xs: T.log(tsum([T.exp(x) for x in xs])))
    return wrap(vec(T.sub, p, z), a.dtype)


@impl('_softmax')
def _sm(func, a, dim, half=False):
    p = vec(T.exp, payload_of(a))
    z = reduce_(p, dim, True, tsum)
    return wrap(vec(T.div, p, z), a.dtype)


@impl('_softmax_backward_data')
def _smb(func, g, y, dim, dt):
    gp, yp = payload_of(g), payload_of(y)
    s = reduce_(vec(T.mul, gp, yp), dim, True, tsum)
    return wrap(vec(lambda g, y, s: T.mul(y, T.sub(g, s)), gp, yp, s), y.dtype)


@impl('_log_softmax_backward_data')
def _lsmb(func, g, y, dim, dt):
    gp, yp = payload_of(g), payload_of(y)
    s = reduce_(gp, dim, True, tsum)
    return wrap(vec(lambda g, y, s: T.sub(g, T.mul(T.exp(y), s)), gp, yp, s), y.dtype)


@impl('var')
def _var(func, a, dim=None, unbiased=None, correction=None, keepdim=False):
    corr = 1
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    if correction is not None:
        corr = correction
    elif unbiased is not None:
        corr = 1 if unbiased else 0

    def f(xs):
        n = len(xs)
        m = T.div(tsum(xs), T.const(n))
        s = tsum([T.power(T.sub(x, m), T.const(2)) for x in xs])
        return T.div(s, T.const(n - corr)) if n != corr else T.NAN
    return wrap(reduce_(payload_of(a), dim, keepdim, f), a.dtype)


@impl('std')
def _std(func, a, *args, **kw):
    v = _var(func, a, *args, **kw)
    return wrap(vec(lambda t: T.power(t, T.const(Fraction(1, 2))), v.payload), a.dtype)


@impl('any')
def _any(func, a, dim=None, keepdim=False):
    return wrap(reduce_(payload_of(a), dim, keepdim, lambda xs: T.lor(*xs)), torch.bool)


@impl('all')
def _all(func, a, dim=None, keepdim=False):
    return wrap(reduce_(payload_of(a), dim, keepdim, lambda xs: T.land(*xs)), torch.bool)


def _argbest(xs, better):
    """first index of the best element; better(new, old) strict"""
    bi, bv = T.const(0, 'I'), xs[0]
    for i, x in enumerate(xs[1:], 1):
        c = better(x, bv)
        bi = T.ite(c, T.const(i, 'I'), bi)
        bv = T.ite(c, x, bv)
    return bi, bv


def _first_arg(xs, op):
    """argmax as an ite chain over pairwise comparisons (no nested values)"""
    n = len(xs)
    if all(x.op == 'c' for x in xs):
        vals = [x.args for x in xs]
        b = max(vals) if op == 'max' else min(vals)
        return T.const(vals.index(b), 'I')
    res = T.const(n - 1, 'I')
    for i in range(n - 2, -1, -1):
        conds = []
        for j in range(n):
            if j == i:
                continue
            a, b = (xs[i], xs[j]) if op == 'max' else (xs[j], xs[i])
            conds.append(T.lt(b, a) if j < i else T.le(b, a))
        res = T.ite(T.land(*conds), T.const(i, 'I'), res)
    return res


def _best(xs, op):
    if len(xs) == 1:
        return xs[0]
    v = xs[0]
    for x in xs[1:]:
        v = T.maximum(v, x) if op == 'max' else T.minimum(v, x)
    return v


def _mk_minmax(op):
    def run(func, a, dim=None, keepdim=False):
        if isinstance(dim, torch.Tensor):
            return wrap(vec(T.maximum if op == 'max' else T.minimum, payload_of(a), payload_of(dim)),
                        result_type(a, dim))
        p = payload_of(a)
        if dim is None:
            return wrap(oarr(_best(list(p.reshape(-1)), op)), a.dtype)
        v = reduce_(p, dim, keepdim, lambda xs: _best(xs, op))
        i = reduce_(p, dim, keepdim, lambda xs: _first_arg(xs, op))
        return wrap(v, a.dtype), wrap(i, torch.int64)

    def amax(func, a, dim=(), keepdim=False):
        return wrap(reduce_(payload_of(a), dim, keepdim, lambda xs: _best(xs, op)), a.dtype)

    def arg(func, a, dim=None, keepdim=False):
        p = payload_of(a)
        if dim is None:
            return wrap(oarr(_first_arg(list(p.reshape(-1)), op)), torch.int64)
        return wrap(reduce_(p, dim, keepdim, lambda xs: _first_arg(xs, op)), torch.int64)
    IMPL[op] = run
    IMPL['a' + op] = amax
    IMPL['arg' + op] = arg


_mk_minmax('max')
_mk_minmax('min')


@impl('cumsum')
def _cumsum(func, a, dim, dtype=None):
    p = payload_of(a)
    if not _isfloat(a.dtype):
        p = vec(T._num, p)
    out = p.copy()
    if p.ndim:
        q = np.moveaxis(out, dim, 0)
        for i in range(1, q.shape[0]):
            q[i, ...] = vec(T.add, q[i - 1], q[i])
    return wrap(out, dtype or (a.dtype if _isfloat(a.dtype) else torch.int64))


@impl('cumprod')
def _cumprod(func, a, dim, dtype=None):
    out = payload_of(a).copy()
    q = np.moveaxis(out, dim, 0)
    for i in range(1, q.shape[0]):
        q[i, ...] = vec(T.mul, q[i - 1], q[i])
    return wrap(out, a.dtype)


@impl('logcumsumexp')
def _lcse(func, a, dim):
    e = vec(T.exp, payload_of(a))
    q = np.moveaxis(e, dim, 0)
    for i in range(1, q.shape[0]):
        q[i, ...] = vec(T.add, q[i - 1], q[i])
    return wrap(vec(T.log, e), a.dtype)


def _sort_terms(xs, descending):
    """stable sort by forking on comparisons"""
    idx = []
    for i in range(len(xs)):
        pos = len(idx)
        for k, j in enumerate(idx):
            c = T.lt(xs[j], xs[i]) if descending else T.lt(xs[i], xs[j])
            if bool(c):
                pos = k
                break
        idx.insert(pos, i)
    return idx


@impl('sort')
def _sort(func, a, *args, **kw):
    args = list(args)
    stable = kw.get('stable')
    if args and (args[0] is None or isinstance(args[0], bool)) and 'stable' in str(func._schema):
        if func._overloadname == 'stable':
            stable = args.pop(0)
    dim = args[0] if args else kw.get('dim', -1)
    desc = args[1] if len(args) > 1 else kw.get('descending', False)
    p = payload_of(a)
    if p.ndim == 0:
        return wrap(p.copy(), a.dtype), wrap(oarr(T.const(0, 'I')), torch.int64)
    v = np.moveaxis(p.copy(), dim, -1)
    ix = np.empty(v.shape, dtype=object)
    for k in np.ndindex(v.shape[:-1]):
        row = list(v[k])
        order = _sort_terms(row, desc)
        for q, o in enumerate(order):
            v[k + (q,)] = row[o]
            ix[k + (q,)] = T.const(o, 'I')
    return wrap(np.moveaxis(v, -1, dim).copy(), a.dtype), wrap(np.moveaxis(ix, -1, dim).copy(), torch.int64)


# ---- shape / views ---------------------------------------------------
@impl('view', '_unsafe_view', '_reshape_alias')
def _view(func, a, size, stride=None):
    p = payload_of(a)
    size = tuple(int(s) for s in size)
    if -1 in size:
        n = int(np.prod([s for s in size if s != -1], dtype=int))
        size = tuple((p.size // n if n else 0) if s == -1 else s for s in size)
    q = p.reshape(size)
    return wrap(q, a.dtype)


@impl('view_as_real', 'view_as_complex')
def _nocomplex(func, *a, **k):
    raise Unsupported('complex numbers')


@impl('t')
def _t(func, a):
    return wrap(payload_of(a).T, a.dtype)


@impl('transpose')
def _transpose(func, a, d0, d1):
    p = payload_of(a)
    if p.ndim == 0:
        return wrap(p, a.dtype)
    return wrap(np.swapaxes(p, d0, d1), a.dtype)


@impl('permute')
def _permute(func, a, dims):
    return wrap(np.transpose(payload_of(a), dims), a.dtype)


@impl('unsqueeze')
def _unsq(func, a, dim):
    p = payload_of(a)
    d = dim if dim >= 0 else dim + p.ndim + 1
    return wrap(np.expand_dims(p, d), a.dtype)


@impl('squeeze')
def _squeeze(func, a, dim=None):
    p = payload_of(a)
    if dim is None:
        return wrap(p.reshape(tuple(s for s in p.shape if s != 1)), a.dtype)
    if p.ndim == 0:
        return wrap(p, a.dtype)
    dims = (dim,) if isinstance(dim, int) else tuple(dim)
    dims = tuple(d % p.ndim for d in dims)
    return wrap(p.reshape(tuple(s for i, s in enumerate(p.shape) if not (i in dims and s == 1))), a.dtype)


@impl('expand')
def _expand(func, a, size, implicit=False):
    p = payload_of(a)
    size = list(size)
    off = len(size) - p.ndim
    for i, s in enumerate(size):
        if s == -1:
            size[i] = p.shape[i - off]
    return wrap(np.broadcast_to(p, tuple(size)), a.dtype)


@impl('as_strided')
def _as_strided(func, a, size, stride, offset=None):
    p = payload_of(a)
    base = p
    if offset not in (None, 0):
        raise Unsupported('as_strided offset')
    return wrap(np.lib.stride_tricks.as_strided(base, tuple(size), tuple(s * 8 for s in stride)), a.dtype)


@impl('_linalg_check_errors', '_assert_async')
def _noop(func, *a, **k):
    return None


@impl('alias', 'detach', 'lift_fresh_copy')
def _alias(func, a):
    if isinstance(a, SymTensor):
        return wrap(a.payload, a.dtype)
    return wrap(payload_of(a), a.dtype)


@impl('lift_fresh')
def _lift_fresh(func, a):
    return wrap(payload_of(a), a.dtype)


@impl('clone', 'contiguous')
def _clone(func, a, memory_format=None):
    return wrap(payload_of(a).copy(order='C') if memory_format in (None, torch.preserve_format, torch.contiguous_format)
                else payload_of(a).copy(), a.dtype)


@impl('select')
def _select(func, a, dim, index):
    p = payload_of(a)
    dim = dim % p.ndim
    n = p.shape[dim]
    if not -n <= index < n:
        raise IndexError('select(): index %d out of range for tensor of size %s at dimension %d' % (index, p.shape, dim))
    return wrap(_view_idx(p, (slice(None),) * dim + (index,)), a.dtype)


def _view_idx(p, idx):
    r = p[idx + (Ellipsis,)]
    return r


@impl('slice')
def _slice(func, a, dim=0, start=None, end=None, step=1):
    p = payload_of(a)
    dim = dim % p.ndim
    n = p.shape[dim]
    s = 0 if start is None else int(start)
    e = n if end is None else min(int(end), n) if int(end) >= 0 else int(end) + n
    s = s + n if s < 0 else s
    s = min(max(s, 0), n)
    e = min(max(e, s), n)
    return wrap(p[(slice(None),) * dim + (slice(s, e, step),)], a.dtype)


@impl('diagonal')
def _diagonal(func, a, offset=0, dim1=0, dim2=1):
    p = payload_of(a)
    r = np.diagonal(p, offset, dim1, dim2)
    r = np.lib.stride_tricks.as_strided(r, r.shape, r.strides, writeable=True) if False else _writable_diag(p, offset, dim1, dim2)
    return wrap(r, a.dtype)


def _writable_diag(p, offset, dim1, dim2):
    r = np.diagonal(p, offset, dim1, dim2)
    try:
        r.flags.writeable = True
    except ValueError:
        return r
    return r


@impl('unbind')
def _unbind(func, a, dim=0):
    p = payload_of(a)
    dim = dim % p.ndim
    return [wrap(_view_idx(p, (slice(None),) * dim + (i,)), a.dtype) for i in range(p.shape[dim])]


@impl('split')
def _split(func, a, size, dim=0):
    p = payload_of(a)
    n = p.shape[dim]
    sizes = size if isinstance(size, (list, tuple)) else [min(size, n - i) for i in range(0, n, size)]
    return _splitter(a, p, sizes, dim)


@impl('split_with_sizes')
def _splitws(func, a, sizes, dim=0):
    return _splitter(a, payload_of(a), sizes, dim)


def _splitter(a, p, sizes, dim):
    dim = dim % p.ndim
    out, o = [], 0
    for s in sizes:
        out.append(wrap(p[(slice(None),) * dim + (slice(o, o + s),)], a.dtype))
        o += s
    if o != p.shape[dim]:
        raise RuntimeError('split_with_sizes expects split_sizes to sum exactly to %d' % p.shape[dim])
    return out


@impl('cat')
def _cat(func, ts, dim=0):
    ts = [t for t in ts if not (t.dim() == 1 and t.shape[0] == 0)] or [ts[0]]
    dt = result_type(*ts) if len({t.dtype for t in ts}) > 1 else ts[0].dtype
    ps = [cast(payload_of(t), t.dtype, dt) for t in ts]
    nd = ps[0].ndim
    if nd == 0:
        raise RuntimeError('zero-dimensional tensor (at position 0) cannot be concatenated')
    if any(p.ndim != nd for p in ps):
        raise RuntimeError('Tensors must have same number of dimensions')
    d = dim % nd
    for p in ps:
        if tuple(s for i, s in enumerate(p.shape) if i != d) != tuple(s for i, s in enumerate(ps[0].shape) if i != d):
            raise RuntimeError('Sizes of tensors must match except in dimension %d' % d)
    return wrap(np.concatenate(ps, axis=dim), dt)


@impl('stack')
def _stack(func, ts, dim=0):
    dt = result_type(*ts) if len({t.dtype for t in ts}) > 1 else ts[0].dtype
    if any(t.shape != ts[0].shape for t in ts):
        raise RuntimeError('stack expects each tensor to be equal size')
    return wrap(np.stack([cast(payload_of(t), t.dtype, dt) for t in ts], axis=dim), dt)


@impl('repeat')
def _repeat(func, a, reps):
    p = payload_of(a)
    p = p.reshape((1,) * (len(reps) - p.ndim) + p.shape)
    return wrap(np.tile(p, tuple(reps)), a.dtype)


@impl('flip')
def _flip(func, a, dims):
    return wrap(np.flip(payload_of(a), tuple(dims)).copy(), a.dtype)


@impl('roll')
def _roll(func, a, shifts, dims=()):
    p = payload_of(a)
    if not dims:
        return wrap(np.roll(p, shifts[0]), a.dtype)
    return wrap(np.roll(p, tuple(shifts), tuple(dims)), a.dtype)


@impl('tril')
def _tril(func, a, k=0):
    p = payload_of(a).copy()
    for idx in np.ndindex(p.shape):
        if idx[-1] - idx[-2] > k:
            p[idx] = T.const(0, 'R' if _isfloat(a.dtype) else 'I')
    return wrap(p, a.dtype)


@impl('triu')
def _triu(func, a, k=0):
    p = payload_of(a).copy()
    for idx in np.ndindex(p.shape):
        if idx[-1] - idx[-2] < k:
            p[idx] = T.const(0, 'R' if _isfloat(a.dtype) else 'I')
    return wrap(p, a.dtype)


@impl('_to_copy')
def _to_copy(func, a, dtype=None, **kw):
    dt = dtype or a.dtype
    return wrap(cast(payload_of(a), a.dtype, dt).copy(), dt)


@impl('copy_')
def _copy_(func, dst, src, non_blocking=False):
    if not isinstance(dst, SymTensor):
        raise Unsupported('copy_ into a concrete tensor')
    dst.payload[...] = np.broadcast_to(cast(payload_of(src), src.dtype, dst.dtype), dst.payload.shape)
    return dst


@impl('fill_')
def _fill_(func, a, v):
    p = cast(payload_of(v), _dt(v), a.dtype)
    a.payload[...] = p[()]
    return a


@impl('fill')
def _fill(func, a, v):
    p = np.empty(tuple(a.shape), dtype=object)
    p[...] = cast(payload_of(v), _dt(v), a.dtype)[()]
    return wrap(p, a.dtype)


@impl('zero_')
def _zero_(func, a):
    a.payload[...] = T.const(0, 'R' if _isfloat(a.dtype) else 'I')
    return a


@impl('masked_fill_')
def _mfill_(func, a, mask, value):
    a.payload[...] = _mfill(func, a, mask, value).payload
    return a


@impl('diagonal_copy')
def _dcopy(func, a, *args, **kw):
    return wrap(_diagonal(func, a, *args, **kw).payload.copy(), a.dtype)


# ---- factories -------------------------------------------------------
def _full(size, v, dt):
    p = np.empty(tuple(int(s) for s in size), dtype=object)
    if dt == torch.bool:
        v = T.const(bool(v), 'B')
    elif not _isfloat(dt):
        v = T.const(int(v), 'I') if not isinstance(v, Term) else v
    elif not isinstance(v, Term):
        v = T.const(float(v))
    p[...] = v
    return wrap(p, dt)


@impl('zeros', 'new_zeros')
def _zeros(func, *args, dtype=None, **kw):
    if isinstance(args[0], torch.Tensor):
        return _full(args[1], 0, dtype or args[0].dtype)
    return _full(args[0], 0, dtype or torch.get_default_dtype())


@impl('ones', 'new_ones')
def _ones(func, *args, dtype=None, **kw):
    if isinstance(args[0], torch.Tensor):
        return _full(args[1], 1, dtype or args[0].dtype)
    return _full(args[0], 1, dtype or torch.get_default_dtype())


@impl('empty', 'empty_strided', 'new_empty', 'new_empty_strided')
def _empty(func, *args, dtype=None, **kw):
    # uninitialised memory: not-a-number so that any use of it is visible
    if isinstance(args[0], torch.Tensor):
        dt, size = dtype or args[0].dtype, args[1]
    else:
        dt, size = dtype or torch.get_default_dtype(), args[0]
    return _full(size, T.NAN if _isfloat(dt) else 0, dt)


@impl('empty_like')
def _empty_like(func, a, dtype=None, **kw):
    dt = dtype or a.dtype
    return _full(a.shape, T.NAN if _isfloat(dt) else 0, dt)


@impl('zeros_like')
def _zeros_like(func, a, dtype=None, **kw):
    return _full(a.shape, 0, dtype or a.dtype)


@impl('ones_like')
def _ones_like(func, a, dtype=None, **kw):
    return _full(a.shape, 1, dtype or a.dtype)


@impl('full_like')
def _full_like(func, a, v, dtype=None, **kw):
    return _full(a.shape, v, dtype or a.dtype)


@impl('full', 'new_full')
def _full_op(func, *args, dtype=None, **kw):
    if isinstance(args[0], torch.Tensor):
        return _full(args[1], args[2], dtype or args[0].dtype)
    return _full(args[0], args[1], dtype or result_type(args[1]))


@impl('scalar_tensor')
def _scalar_tensor(func, v, dtype=None, **kw):
    return _full((), v, dtype or torch.get_default_dtype())


@impl('eye')
def _eye(func, n, m=None, dtype=None, **kw):
    m = n if not isinstance(m, int) else m
    r = _full((n, m), 0, dtype or torch.get_default_dtype())
    for i in range(min(n, m)):
        r.payload[i, i] = T.const(1, 'R' if _isfloat(r.dtype) else 'I')
    return r


@impl('arange')
def _arange(func, *args, dtype=None, **kw):
    start, end, step = 0, None, 1
    if len(args) == 1:
        end = args[0]
    elif len(args) == 2:
        start, end = args
    else:
        start, end, step = args[:3]
    step = kw.get('step', step)
    isf = any(isinstance(x, float) for x in (start, end, step))
    dt = dtype or (torch.get_default_dtype() if isf else torch.int64)
    n = max(0, math.ceil((end - start) / step))
    p = np.empty((n,), dtype=object)
    for i in range(n):
        v = start + i * step
        p[i] = T.const(v) if _isfloat(dt) else T.const(int(v), 'I')
    return wrap(p, dt)


@impl('linspace')
def _linspace(func, start, end, steps, dtype=None, **kw):
    p = np.empty((steps,), dtype=object)
    s, e = T.lift(start), T.lift(end)
    for i in range(steps):
        p[i] = T.to_real(T.add(s, T.mul(T.const(Fraction(i, steps - 1)), T.sub(e, s)))) if steps > 1 else T.to_real(s)
    return wrap(p, dtype or torch.get_default_dtype())


class RandomSource:
    """fresh symbolic values (or recorded concrete ones) for random draws"""
    fresh = None


RAND = RandomSource()


def _rand_tensor(size, dt, kind):
    if RAND.fresh is None:
        raise Unsupported('random draw outside of a declared source')
    size = tuple(int(s) for s in size)
    p = np.empty(size, dtype=object)
    for i in np.ndindex(size):
        p[i] = RAND.fresh(kind)
    return wrap(p, dt)


@impl('randn')
def _randn(func, size, dtype=None, **kw):
    return _rand_tensor(size, dtype or torch.get_default_dtype(), 'normal')


@impl('randn_like')
def _randn_like(func, a, dtype=None, **kw):
    return _rand_tensor(a.shape, dtype or a.dtype, 'normal')


@impl('rand')
def _rand(func, size, dtype=None, **kw):
    return _rand_tensor(size, dtype or torch.get_default_dtype(), 'uniform')


@impl('rand_like')
def _rand_like(func, a, dtype=None, **kw):
    return _rand_tensor(a.shape, dtype or a.dtype, 'uniform')


@impl('normal_')
def _normal_(func, a, mean=0., std=1., generator=None):
    r = _rand_tensor(a.shape, a.dtype, 'normal')
    a.payload[...] = vec(lambda t: T.add(T.lift(mean), T.mul(T.lift(std), t)), r.payload)
    return a


@impl('uniform_')
def _uniform_(func, a, lo=0., hi=1., generator=None):
    r = _rand_tensor(a.shape, a.dtype, 'uniform')
    a.payload[...] = vec(lambda t: T.add(T.lift(lo), T.mul(T.lift(hi - lo), t)), r.payload)
    return a


@impl('normal')
def _normal(func, mean, std=1., **kw):
    shp = np.broadcast_shapes(*[tuple(x.shape) for x in (mean, std) if isinstance(x, torch.Tensor)])
    r = _rand_tensor(shp, _dt(mean) if isinstance(mean, torch.Tensor) else _dt(std), 'normal')
    return wrap(vec(lambda m, s, t: T.add(m, T.mul(s, t)), payload_of(mean), payload_of(std), r.payload), r.dtype)


# ---- indexing --------------------------------------------------------
def _prep_index(indices, shape):
    """bool masks -> integer index arrays (concrete masks only); returns list"""
    out = []
    for ix in indices:
        if ix is None:
            out.append(None)
            continue
        p = payload_of(ix)
        if ix.dtype == torch.bool or ix.dtype == torch.uint8:
            m = np.empty(p.shape, dtype=bool)
            for k in np.ndindex(p.shape):
                m[k] = bool(p[k])
            for nz in m.nonzero():
                out.append(oarr(nz.astype(np.int64)))
        else:
            out.append(p)
    return out


def _ix_val(t, n):
    if t.op == 'c':
        v = int(t.args)
        if not -n <= v < n:
            raise IndexError('index %d is out of bounds for dimension with size %d' % (v, n))
        return v % n if n else v
    return None


def _gather_terms(get, idxs, dims):
    """idxs: list of index terms, dims their sizes. ITE over symbolic ones."""
    for k, (t, n) in enumerate(zip(idxs, dims)):
        if isinstance(t, Term) and t.op != 'c':
            cands = possible_ints(t, n)
            res = None
            for v in cands:
                val = _gather_terms(get, idxs[:k] + [v] + idxs[k + 1:], dims)
                res = val if res is None else T.ite(T.eq(t, T.const(v, 'I')), val, res)
            return res
    return get([(_ix_val(t, n) if isinstance(t, Term) else t) for t, n in zip(idxs, dims)])


def possible_ints(t, n):
    vals = ite_values(t)
    if vals is not None:
        for v in vals:
            if not -n <= v < n:
                raise IndexError('index %d out of bounds for size %d' % (v, n))
        if any(v < 0 for v in vals):
            raise Unsupported('symbolic negative index')
        return sorted(vals)
    # general symbolic integer: decide the range
    c = T.land(T.le(T.const(0, 'I'), t), T.lt(t, T.const(n, 'I')))
    if not bool(c):
        raise IndexError('symbolic index out of bounds')
    return list(range(n))


def ite_values(t):
    out = set()
    stack = [t]
    seen = set()
    while stack:
        u = stack.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'c':
            out.add(int(u.args))
        elif u.op == 'ite':
            stack += [u.args[1], u.args[2]]
        else:
            return None
    return out


@impl('index', '_unsafe_index')
def _index(func, a, indices):
    p = payload_of(a)
    idx = _prep_index(indices, p.shape)
    idx += [None] * (p.ndim - len(idx))
    if all(i is None or is_conc(i) for i in idx):
        key = tuple(slice(None) if i is None else np.vectorize(lambda t: int(t.args), otypes=[np.int64])(i) if i.size
                    else np.zeros(i.shape, dtype=np.int64) for i in idx)
        try:
            r = p[key]
        except IndexError as e:
            raise IndexError(str(e))
        return wrap(oarr(r) if not isinstance(r, np.ndarray) else r, a.dtype)
    # symbolic: broadcast index arrays; general layout
    used = [d for d, i in enumerate(idx) if i is not None]
    bc = np.broadcast_arrays(*[idx[d] for d in used])
    bshape = bc[0].shape
    contiguous = used == list(range(used[0], used[-1] + 1))
    rest = [d for d in range(p.ndim) if d not in used]
    pre = [d for d in rest if contiguous and d < used[0]]
    post = [d for d in rest if d not in pre]
    shape = tuple(p.shape[d] for d in pre) + bshape + tuple(p.shape[d] for d in post)
    out = np.empty(shape, dtype=object)
    for k in np.ndindex(shape):
        kp = k[:len(pre)]
        kb = k[len(pre):len(pre) + len(bshape)]
        kq = k[len(pre) + len(bshape):]
        full = [None] * p.ndim
        for d, v in zip(pre, kp):
            full[d] = v
        for d, v in zip(post, kq):
            full[d] = v
        for d, b in zip(used, bc):
            full[d] = b[kb]
        out[k] = _gather_terms(lambda ii: p[tuple(ii)], full, p.shape)
    return wrap(out, a.dtype)


@impl('index_put_', '_unsafe_index_put', '_index_put_impl_', 'index_put')
def _index_put(func, a, indices, values, accumulate=False, unsafe=False):
    inplace = opname(func).endswith('_')
    if inplace and not isinstance(a, SymTensor):
        raise Unsupported('index_put_ into a concrete tensor')
    p = a.payload if inplace else payload_of(a).copy()
    idx = _prep_index(indices, p.shape)
    vals = cast(payload_of(values), values.dtype, a.dtype)
    idx += [None] * (p.ndim - len(idx))
    if not all(i is None or is_conc(i) for i in idx):
        _sym_put(p, idx, vals, accumulate)
        return a if inplace else wrap(p, a.dtype)
    key = tuple(slice(None) if i is None else np.vectorize(lambda t: int(t.args), otypes=[np.int64])(i) if i.size
                else np.zeros(i.shape, dtype=np.int64) for i in idx)
    if accumulate:
        target_shape = p[key].shape
        pos = np.arange(p.size).reshape(p.shape)[key]
        vb = np.broadcast_to(vals, target_shape)
        flat = [np.unravel_index(int(j), p.shape) for j in pos.reshape(-1)]
        for f, v in zip(flat, vb.reshape(-1)):
            p[f] = T.add(p[f], v)
    else:
        p[key] = vals if vals.ndim else vals[()]
    return a if inplace else wrap(p, a.dtype)


def _sym_put(p, idx, vals, accumulate):
    used = [d for d, i in enumerate(idx) if i is not None]
    if used != list(range(p.ndim)):
        raise Unsupported('partial symbolic index_put')
    bc = np.broadcast_arrays(*idx)
    vb = np.broadcast_to(vals, bc[0].shape)
    for k in np.ndindex(bc[0].shape):
        tgt = [b[k] for b in bc]
        ranges = [([_ix_val(t, n)] if t.op == 'c' else possible_ints(t, n)) for t, n in zip(tgt, p.shape)]
        for pos in itertools.product(*ranges):
            c = T.land(*[T.eq(t, T.const(v, 'I')) for t, v in zip(tgt, pos)])
            new = T.add(p[pos], vb[k]) if accumulate else vb[k]
            p[pos] = T.ite(c, new, p[pos])


@impl('gather')
def _gather(func, a, dim, index, sparse_grad=False):
    p, ix = payload_of(a), payload_of(index)
    out = np.empty(ix.shape, dtype=object)
    dim = dim % p.ndim
    for k in np.ndindex(ix.shape):
        full = list(k)
        full[dim] = ix[k]
        out[k] = _gather_terms(lambda ii: p[tuple(ii)], full, p.shape)
    return wrap(out, a.dtype)


@impl('index_select')
def _index_select(func, a, dim, index):
    p, ix = payload_of(a), payload_of(index)
    return _index(func, a, [None] * (dim % p.ndim) + [index])


@impl('scatter_add_', 'scatter_add', 'scatter_', 'scatter')
def _scatter(func, a, dim, index, src, reduce=None):
    nm = opname(func)
    p = a.payload if nm.endswith('_') else payload_of(a).copy()
    ix = payload_of(index)
    sp = payload_of(src)
    if sp.ndim == 0:
        sp = np.broadcast_to(sp, ix.shape)
    for k in np.ndindex(ix.shape):
        t = ix[k]
        cands = [_ix_val(t, p.shape[dim])] if t.op == 'c' else possible_ints(t, p.shape[dim])
        for v in cands:
            pos = list(k)
            pos[dim] = v
            pos = tuple(pos)
            new = T.add(p[pos], sp[k]) if 'add' in nm else sp[k]
            p[pos] = new if t.op == 'c' else T.ite(T.eq(t, T.const(v, 'I')), new, p[pos])
    return a if nm.endswith('_') else wrap(p, a.dtype)


@impl('index_add_', 'index_add')
def _index_add(func, a, dim, index, src, alpha=1):
    nm = opname(func)
    p = a.payload if nm.endswith('_') else payload_of(a).copy()
    q = np.moveaxis(p, dim, 0)
    s = np.moveaxis(payload_of(src), dim, 0)
    for i, t in enumerate(payload_of(index)):
        q[int(t), ...] = vec(T.add, q[int(t)], s[i])
    return a if nm.endswith('_') else wrap(p, a.dtype)


@impl('nonzero')
def _nonzero(func, a):
    p = payload_of(a)
    rows = [k for k in np.ndindex(p.shape) if bool(T.to_bool(p[k]))]
    out = np.empty((len(rows), p.ndim), dtype=object)
    for i, k in enumerate(rows):
        for j, v in enumerate(k):
            out[i, j] = T.const(v, 'I')
    return wrap(out, torch.int64)


@impl('unique_dim', 'unique_consecutive')
def _unique(func, *a, **k):
    raise Unsupported('unique')


@impl('_unique2')
def _unique2(func, a, sorted=True, return_inverse=False, return_counts=False):
    p = payload_of(a)
    xs = list(p.reshape(-1))
    vals, counts, inverse = [], [], [0] * len(xs)
    for i in _sort_terms(xs, False):
        if not vals or not bool(T.eq(vals[-1], xs[i])):
            vals.append(xs[i])
            counts.append(0)
        counts[-1] += 1
        inverse[i] = len(vals) - 1
    ints = lambda v, shape: wrap(np.array([T.const(c, 'I') for c in v] + [None], dtype=object)[:-1].reshape(shape), torch.int64)
    return wrap(np.array(vals + [None], dtype=object)[:-1], a.dtype), ints(inverse, p.shape), ints(counts, (len(vals),))


@impl('topk')
def _topk(func, a, k, dim=-1, largest=True, sorted=True):
    v, ix = _sort(func, a, dim, largest)
    return v.narrow(dim, 0, k), ix.narrow(dim, 0, k)


@impl('allclose')
def _allclose(func, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    p, q = np.broadcast_arrays(payload_of(a), payload_of(b))
    near = [T.le(T.absolute(T.sub(x, y)), T.add(T.lift(atol), T.mul(T.lift(rtol), T.absolute(y)))) for x, y in zip(p.reshape(-1), q.reshape(-1))]
    return bool(T.land(*near))


@impl('masked_select')
def _masked_select(func, a, mask):
    p, m = np.broadcast_arrays(payload_of(a), payload_of(mask))
    keep = [x for x, k in zip(p.reshape(-1), m.reshape(-1)) if bool(T.to_bool(k))]
    return wrap(np.array(keep + [None], dtype=object)[:-1], a.dtype)


@impl('bincount')
def _bincount(func, a, weights=None, minlength=0):
    ix = [int(t) for t in payload_of(a).reshape(-1)]
    w = payload_of(weights).reshape(-1) if weights is not None else [T.const(1, 'I')] * len(ix)
    n = max([minlength] + [i + 1 for i in ix])
    out = np.empty((n,), dtype=object)
    for i in range(n):
        out[i] = tsum([v for k, v in zip(ix, w) if k == i]) if weights is not None else T.const(ix.count(i), 'I')
    return wrap(out, weights.dtype if weights is not None else torch.int64)


@impl('constant_pad_nd')
def _pad(func, a, pad, value=0):
    p = payload_of(a)
    widths = [(0, 0)] * p.ndim
    for i in range(len(pad) // 2):
        widths[p.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
    shape = tuple(s + x + y for s, (x, y) in zip(p.shape, widths))
    out = np.empty(shape, dtype=object)
    out[...] = T.to_real(T.lift(value)) if _isfloat(a.dtype) else T.lift(value)
    out[tuple(slice(x, x + s) for s, (x, y) in zip(p.shape, widths))] = p
    return wrap(out, a.dtype)


# backward helpers of views
@impl('select_backward')
def _selb(func, g, sizes, dim, index):
    out = _full(sizes, 0, g.dtype)
    p = payload_of(g)
    out.payload[(slice(None),) * (dim % len(sizes)) + (index,)] = p[()] if p.ndim == 0 else p
    return out


@impl('slice_backward')
def _sliceb(func, g, sizes, dim, start, end, step):
    out = _full(sizes, 0, g.dtype)
    d = dim % len(sizes)
    end = min(end, sizes[d])
    out.payload[(slice(None),) * d + (slice(start, end, step),)] = payload_of(g)
    return out


@impl('diagonal_backward')
def _diagb(func, g, sizes, offset, d1, d2):
    out = _full(sizes, 0, g.dtype)
    _diagonal(func, out, offset, d1, d2).payload[...] = payload_of(g)
    return out


# ---- linear algebra --------------------------------------------------
def matmul2(a, b):
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise RuntimeError('mat1 and mat2 shapes cannot be multiplied (%dx%d and %dx%d)' % (n, k, k2, m))
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = tsum([T.mul(a[i, l], b[l, j]) for l in range(k)]) if k else T.ZERO_T
    return out


@impl('mm')
def _mm(func, a, b):
    if a.dtype != b.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype, but got: %s != %s' % (a.dtype, b.dtype))
    return wrap(matmul2(payload_of(a), payload_of(b)), a.dtype)


@impl('bmm')
def _bmm(func, a, b):
    pa, pb = payload_of(a), payload_of(b)
    if pa.shape[0] != pb.shape[0]:
        raise RuntimeError('batch mismatch in bmm')
    out = [matmul2(x, y) for x, y in zip(pa, pb)]
    return wrap(np.stack(out) if out else np.empty((0, pa.shape[1], pb.shape[2]), dtype=object), a.dtype)


@impl('mv')
def _mv(func, a, b):
    return wrap(matmul2(payload_of(a), payload_of(b)[:, None])[:, 0], a.dtype)


@impl('dot', 'vdot')
def _dot(func, a, b):
    pa, pb = payload_of(a), payload_of(b)
    if pa.shape != pb.shape:
        raise RuntimeError('inconsistent tensor size in dot')
    return wrap(oarr(tsum([T.mul(x, y) for x, y in zip(pa, pb)])), a.dtype)


@impl('addmm')
def _addmm(func, c, a, b, beta=1, alpha=1):
    m = matmul2(payload_of(a), payload_of(b))
    return wrap(vec(lambda x, y: T.add(T.mul(T.lift(beta), x), T.mul(T.lift(alpha), y)), payload_of(c), m), a.dtype)


@impl('baddbmm')
def _baddbmm(func, c, a, b, beta=1, alpha=1):
    m = _bmm(func, a, b).payload
    return wrap(vec(lambda x, y: T.add(T.mul(T.lift(beta), x), T.mul(T.lift(alpha), y)), payload_of(c), m), a.dtype)


@impl('addmv')
def _addmv(func, c, a, b, beta=1, alpha=1):
    m = _mv(func, a, b).payload
    return wrap(vec(lambda x, y: T.add(T.mul(T.lift(beta), x), T.mul(T.lift(alpha), y)), payload_of(c), m), a.dtype)


def det_(m):
    n = m.shape[0]
    if n == 0:
        return T.ONE
    if n == 1:
        return m[0, 0]
    parts = []
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        parts.append(T.mul(T.const((-1) ** j), m[0, j], det_(minor)))
    return T.add(*parts)


def inv_(m):
    n = m.shape[0]
    if n > 3:
        # the inverse of a block-diagonal matrix (up to the order of the coordinates) is that of its blocks
        blocks, seen = [], set()
        for i in range(n):
            if i not in seen:
                todo, block = [i], []
                seen.add(i)
                while todo:
                    k = todo.pop()
                    block.append(k)
                    for j in range(n):
                        if j not in seen and not (m[k, j].sgn == T.ZERO and m[j, k].sgn == T.ZERO):
                            seen.add(j)
                            todo.append(j)
                blocks.append(sorted(block))
        if max(len(b) for b in blocks) > 3:
            raise Unsupported('symbolic inverse of a %dx%d matrix' % (n, n))
        out = np.empty((n, n), dtype=object)
        out[...] = T.ZERO_T
        for b in blocks:
            out[np.ix_(b, b)] = inv_(m[np.ix_(b, b)])
        return out
    off = [m[i, j] for i in range(n) for j in range(n) if i != j]
    out = np.empty((n, n), dtype=object)
    if all(t.sgn == T.ZERO for t in off):
        for i in range(n):
            for j in range(n):
                out[i, j] = T.div(T.ONE, m[i, i]) if i == j else T.ZERO_T
        return out
    d = det_(m)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            out[i, j] = T.div(T.mul(T.const((-1) ** (i + j)), det_(minor)), d)
    return out


def batched(p, f, n=2):
    """apply f on the last n dims"""
    lead = p.shape[:-n] if n else p.shape
    res = {}
    for k in np.ndindex(lead):
        res[k] = f(p[k])
    first = next(iter(res.values())) if res else None
    if first is None:
        return p.copy()
    out = np.empty(lead + first.shape, dtype=object)
    for k, v in res.items():
        out[k] = v if v.ndim else v[()]
    return out


@impl('linalg_inv_ex')
def _inv_ex(func, a, check_errors=False):
    p = payload_of(a)
    return wrap(batched(p, inv_), a.dtype), _full(p.shape[:-2], 0, torch.int32)


@impl('inverse')
def _inverse(func, a):
    return wrap(batched(payload_of(a), inv_), a.dtype)


def chol_(m):
    n = m.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = T.ZERO_T
    half = T.const(Fraction(1, 2))
    for j in range(n):
        s = T.sub(m[j, j], tsum([T.mul(L[j, k], L[j, k]) for k in range(j)]))
        s = cancel(s)
        L[j, j] = T.power(s, half)
        for i in range(j + 1, n):
            v = T.sub(m[i, j], tsum([T.mul(L[i, k], L[j, k]) for k in range(j)]))
            L[i, j] = T.div(cancel(v), L[j, j])
    return L


def cancel(t):
    from . import algebra
    return algebra.simplify(t)


@impl('cholesky', 'linalg_cholesky')
def _chol(func, a, upper=False):
    r = batched(payload_of(a), chol_)
    if upper:
        r = np.swapaxes(r, -1, -2)
    return wrap(r, a.dtype)


@impl('linalg_cholesky_ex')
def _chol_ex(func, a, upper=False, check_errors=False):
    p = payload_of(a)
    return _chol(func, a, upper), _full(p.shape[:-2], 0, torch.int32)


@impl('cholesky_inverse')
def _cholinv(func, a, upper=False):
    def f(L):
        if upper:
            L = L.T
        return inv_(matmul2(L, L.T))
    return wrap(batched(payload_of(a), f), a.dtype)


@impl('cholesky_solve')
def _cholsolve(func, B, L, upper=False):
    l = payload_of(L)
    l = np.swapaxes(l, -1, -2) if upper else l
    inv = batched(l, lambda m: inv_(matmul2(m, m.T)))
    q = payload_of(B)
    lead = np.broadcast_shapes(inv.shape[:-2], q.shape[:-2])
    inv, q = np.broadcast_to(inv, lead + inv.shape[-2:]), np.broadcast_to(q, lead + q.shape[-2:])
    out = np.empty(lead + (inv.shape[-2], q.shape[-1]), dtype=object)
    for k in np.ndindex(lead):
        out[k] = matmul2(inv[k], q[k])
    return wrap(out, B.dtype)


def determinant(a):
    """by minors, in operations that can be differentiated"""
    n = a.shape[-1]
    if n == 1:
        return a[..., 0, 0]
    rest = lambda j: a[..., 1:, [k for k in range(n) if k != j]]
    return sum(a[..., 0, j] * determinant(rest(j)) * (-1) ** j for j in range(n))


def logdet(a):
    return determinant(a).log()


def slogdet(a):
    d = determinant(a)
    return torch.return_types.linalg_slogdet((d.sign(), d.abs().log()))


DETERMINANTS = {torch.det: determinant, torch.linalg.det: determinant, torch.Tensor.det: determinant, torch.logdet: logdet, torch.Tensor.logdet: logdet,
                torch.slogdet: slogdet, torch.linalg.slogdet: slogdet, torch.Tensor.slogdet: slogdet}


@impl('_linalg_det')
def _det(func, a):
    p = payload_of(a)
    d = batched(p, lambda m: oarr(det_(m)))
    return wrap(d, a.dtype), wrap(p.copy(), a.dtype), _full(p.shape[:-1], 0, torch.int32)


@impl('_linalg_slogdet')
def _slogdet(func, a):
    p = payload_of(a)
    d = batched(p, lambda m: oarr(cancel(det_(m))))
    s = vec(lambda t: T.ONE if t.sgn == T.POS else T.ite(T.lt(T.ZERO_T, t), T.ONE, T.const(-1)), d)
    l = vec(lambda t: T.log(T.absolute(t)), d)
    return wrap(s, a.dtype), wrap(l, a.dtype), wrap(p.copy(), a.dtype), _full(p.shape[:-1], 0, torch.int32)


@impl('_linalg_solve_ex')
def _solve_ex(func, A, B, left=True, check_errors=False):
    pa, pb = payload_of(A), payload_of(B)
    inv = batched(pa, inv_)
    vecb = pb.ndim == 1 or (pb.ndim == pa.ndim - 1)
    q = pb[..., None] if vecb else pb
    lead = np.broadcast_shapes(inv.shape[:-2], q.shape[:-2])
    inv = np.broadcast_to(inv, lead + inv.shape[-2:])
    q = np.broadcast_to(q, lead + q.shape[-2:])
    out = np.empty(lead + ((inv.shape[-2], q.shape[-1]) if left else (q.shape[-2], inv.shape[-1])), dtype=object)
    for k in np.ndindex(lead):
        out[k] = matmul2(inv[k], q[k]) if left else matmul2(q[k], inv[k])
    if vecb:
        out = out[..., 0]
    return (wrap(out, A.dtype), wrap(pa.copy(), A.dtype), _full(pa.shape[:-1], 0, torch.int32),
            _full(pa.shape[:-2], 0, torch.int32))


@impl('triangular_solve')
def _trisolve(func, B, A, upper=True, transpose=False, unitriangular=False):
    pa, pb = payload_of(A), payload_of(B)
    inv = inv_(pa.T if transpose else pa)
    return wrap(matmul2(inv, pb), A.dtype), A


@impl('linalg_solve_triangular')
def _stri(func, A, B, upper=False, left=True, unitriangular=False):
    r = _solve_ex(func, A, B, left)
    return r[0]


EIGH = None         # decomposition supplied by a harness (contract of the routine)


@impl('_linalg_eigh')
def _eigh(func, a, UPLO='L', compute_v=True):
    if EIGH is None:
        raise Unsupported('eigen decomposition of a symbolic matrix')
    l, q = EIGH(payload_of(a))
    return tensor_from(l, a.dtype), tensor_from(q, a.dtype)


@impl('linalg_eig', '_linalg_svd', 'linalg_qr', 'geqrf')
def _noeig(func, *a, **k):
    raise Unsupported('eigen/singular/QR decomposition of a symbolic matrix')


@impl('diag_embed')
def _diag_embed(func, a, offset=0, dim1=-2, dim2=-1):
    p = payload_of(a)
    if offset != 0 or (dim1, dim2) != (-2, -1):
        raise Unsupported('diag_embed variant')
    n = p.shape[-1]
    out = np.empty(p.shape + (n,), dtype=object)
    out[...] = T.const(0, 'R' if _isfloat(a.dtype) else 'I')
    for k in np.ndindex(p.shape):
        out[k + (k[-1],)] = p[k]
    return wrap(out, a.dtype)


# ---- misc ------------------------------------------------------------
@impl('_local_scalar_dense', 'item')
def _item(func, a):
    t = payload_of(a)[()] if payload_of(a).ndim == 0 else payload_of(a).reshape(-1)[0]
    if t.op == 'c':
        v = t.args
        if t.sort == 'B':
            return bool(v)
        if a.dtype.is_floating_point:
            return float(v)
        return int(v)
    if t.sort == 'B' or a.dtype == torch.bool:
        return bool(t)
    if t.sort == 'I':
        return int(t)
    if T.HOOKS.float_nan:
        return float('nan')
    raise Unsupported('implicit conversion of a symbolic real to a python number')


@impl('equal')
def _equal(func, a, b):
    if a.shape != b.shape:
        return False
    c = T.land(*[T.eq(x, y) for x, y in zip(payload_of(a).reshape(-1), payload_of(b).reshape(-1))])
    return bool(c)


@impl('is_same_size')
def _iss(func, a, b):
    return a.shape == b.shape


@impl('native_dropout', 'dropout')
def _dropout(func, *a, **k):
    raise Unsupported('dropout')


@impl('resolve_conj', 'resolve_neg', 'conj')
def _ident(func, a):
    return a


@impl('isfinite')
def _isfinite(func, a):
    return wrap(vec(lambda t: T.FALSE if (t.op == 'c' and isinstance(t.args, float)) else T.TRUE, payload_of(a)), torch.bool)


# ----------------------------------------------------------------------
def unwrap_numpy(t):
    """object ndarray of a tensor (concrete tensors give a numeric array)"""
    if isinstance(t, SymTensor):
        p = t.payload
        return p
    with torch._C._DisableTorchDispatch():
        return torch.Tensor.numpy(t.detach())


def _contains_term(x):
    if isinstance(x, Term):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_term(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def _contains_sym(x):
    if isinstance(x, (Term, SymTensor)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    return False


def tensor_from(data, dtype=None):
    if isinstance(data, torch.Tensor):
        r = wrap(payload_of(data).copy(), data.dtype)
        return wrap(cast(r.payload, r.dtype, dtype).copy(), dtype) if dtype else r
    if isinstance(data, np.ndarray):
        p = oarr(data).copy()
    else:
        def rec(x):
            if isinstance(x, (list, tuple)):
                parts = [rec(y) for y in x]
                return np.stack(parts) if parts else np.empty((0,), dtype=object)
            if isinstance(x, torch.Tensor):
                return payload_of(x)
            if isinstance(x, np.ndarray):
                return oarr(x)
            return oarr(T.lift(x))
        p = rec(data)
    sorts = {t.sort for t in p.reshape(-1)}
    dt = dtype or (torch.get_default_dtype() if 'R' in sorts or not sorts else torch.int64 if 'I' in sorts else torch.bool)
    src = torch.get_default_dtype() if 'R' in sorts else torch.int64 if 'I' in sorts else torch.bool
    p2 = cast(p, src, dt)
    return wrap(p2.copy() if p2 is p else p2, dt)


_LEGACY = {'FloatTensor': torch.float32, 'DoubleTensor': torch.float64, 'LongTensor': torch.int64,
           'IntTensor': torch.int32, 'ByteTensor': torch.uint8, 'BoolTensor': torch.bool}


class SymFunctionMode(TorchFunctionMode):
    """Catches the few python-level entry points the dispatcher cannot see."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, '__name__', '')
        if func is torch.tensor or func is torch.as_tensor:
            data = args[0] if args else kwargs['data']
            if _contains_sym(data):
                r = tensor_from(data, kwargs.get('dtype') or (args[1] if len(args) > 1 and isinstance(args[1], torch.dtype) else None))
                if kwargs.get('requires_grad'):
                    r.requires_grad_(True)
                return r
        elif func is torch.from_numpy:
            a = args[0]
            if a.dtype == object:
                sorts = {t.sort for t in a.reshape(-1)}
                return wrap(a, torch.get_default_dtype() if 'R' in sorts or not sorts else torch.int64)
        elif func is torch.Tensor.numpy or func is torch.Tensor.__array__:
            return unwrap_numpy(args[0])
        elif func is torch.Tensor.item:
            t = args[0]
            if isinstance(t, SymTensor):
                if t.payload.size != 1:
                    raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % t.payload.size)
                v = t.payload.reshape(-1)[0]
                if v.op != 'c':
                    return v
        elif func is torch.Tensor.tolist:
            t = args[0]
            if isinstance(t, SymTensor):
                def conv(v):
                    if v.op == 'c':
                        return bool(v.args) if v.sort == 'B' else float(v.args) if t.dtype.is_floating_point else int(v.args)
                    return v

                def rec(a):
                    return conv(a[()]) if a.ndim == 0 else [rec(b) for b in _rows(a)]
                return rec(t.payload)
        elif func is torch.Tensor.__getitem__:
            if len(args) == 2 and (_contains_term(args[1])):
                args = (args[0], _conv_index(args[1]))
            pts = _all_points(args[1], args[0].dim())
            if pts is not None:
                return aten.index.Tensor(args[0], pts)
        elif func is torch.Tensor.__setitem__:
            t, ix, v = args
            if isinstance(v, Term):
                v = wrap(oarr(v), t.dtype) if v.sort != 'I' or not t.dtype.is_floating_point else wrap(oarr(T.to_real(v)), t.dtype)
            elif isinstance(v, np.ndarray):
                v = tensor_from(v)
            if _contains_term(ix):
                ix = _conv_index(ix)
            pts = _all_points(ix, t.dim())
            if pts is not None:
                if not isinstance(v, torch.Tensor):
                    v = wrap(oarr(T.lift(v)), t.dtype)
                aten.index_put_(t, pts, v.to(t.dtype))
                return None
            args = (t, ix, v)
        elif name == '__set__' and len(args) == 2 and isinstance(args[0], SymTensor) and isinstance(args[1], SymTensor):
            # tensor.data = other / tensor.grad = other
            owner = getattr(func, '__self__', None)
            r = func(*args, **kwargs)
            if getattr(owner, '__name__', '') == 'data':
                args[0].payload = args[1].payload
            return r
        elif name == '__get__' and len(args) == 1 and isinstance(args[0], SymTensor):
            owner = getattr(func, '__self__', None)
            if getattr(owner, '__name__', '') == 'data':
                return wrap(args[0].payload, args[0].dtype)
        elif func in DETERMINANTS and isinstance(args[0], SymTensor) and 0 < args[0].shape[-1] <= 4:
            return DETERMINANTS[func](args[0])
        if kwargs or args:
            if any(isinstance(a, Term) for a in args) or any(isinstance(v, Term) for v in kwargs.values()):
                args = tuple(wrap_scalar(a) if isinstance(a, Term) else a for a in args)
                kwargs = {k: wrap_scalar(a) if isinstance(a, Term) else a for k, a in kwargs.items()}
        return func(*args, **kwargs)


def _rows(a):
    return [oarr(a[i]) if a.ndim == 1 else a[i] for i in range(a.shape[0])]


def _sym0(i):
    return (isinstance(i, SymTensor) and i.dim() == 0 and not i.dtype.is_floating_point
            and i.dtype != torch.bool and i.payload[()].op != 'c')


def _all_points(ix, nd):
    """index made of python ints and 0-dim integer tensors, one symbolic"""
    tup = ix if isinstance(ix, tuple) else (ix,)
    if not any(_sym0(i) for i in tup):
        return None
    if any(isinstance(i, (slice, list)) or i is None or i is Ellipsis for i in tup):
        return None
    return [i if isinstance(i, torch.Tensor) else wrap(oarr(T.const(int(i), 'I')), torch.int64) for i in tup]


def _conv_index(ix):
    if isinstance(ix, Term):
        return int(ix.args) if ix.op == 'c' else wrap(oarr(ix), torch.int64 if ix.sort != 'B' else torch.bool)
    if isinstance(ix, tuple):
        return tuple(_conv_index(i) for i in ix)
    if isinstance(ix, list) and _contains_term(ix):
        return tensor_from(ix)
    if isinstance(ix, np.ndarray) and ix.dtype == object:
        return tensor_from(ix)
    return ix


class SymDispatchMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        with torch._C._DisableTorchDispatch() if False else _null():
            return dispatch(func, args, kwargs or {})


class _null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class LegacyTensor:
    """stand-in for torch.LongTensor & co. accepting symbolic data"""

    def __init__(self, cls, dt):
        self.cls, self.dt = cls, dt

    def __call__(self, *args, **kw):
        if len(args) == 1 and isinstance(args[0], (list, tuple, np.ndarray)):
            return tensor_from(args[0] if not isinstance(args[0], np.ndarray) else args[0], self.dt)
        if len(args) == 1 and isinstance(args[0], torch.Tensor):
            return tensor_from(args[0], self.dt)
        if args and all(isinstance(a, int) for a in args):
            return _full(args, 0, self.dt)
        return self.cls(*args, **kw)

    def __getattr__(self, n):
        return getattr(self.cls, n)

    def __instancecheck__(self, x):
        return isinstance(x, self.cls)


class symbolic_torch:
    """context manager: torch executes symbolically inside"""

    def __enter__(self):
        self.saved = {}
        for n, dt in _LEGACY.items():
            if hasattr(torch, n):
                self.saved[n] = getattr(torch, n)
                setattr(torch, n, LegacyTensor(self.saved[n], dt))
        self.from_numpy = torch.from_numpy

        def from_numpy(a):
            if isinstance(a, np.ndarray) and a.dtype == object:
                sorts = {t.sort for t in a.reshape(-1)}
                return wrap(a, torch.get_default_dtype() if 'R' in sorts or not sorts else torch.int64)
            return self.from_numpy(a)
        torch.from_numpy = from_numpy
        self.load = torch.load

        def load(*a, **k):
            k.setdefault('weights_only', False)     # stored states may hold terms here
            return self.load(*a, **k)
        torch.load = load
        self.f = SymFunctionMode()
        self.d = SymDispatchMode()
        self.f.__enter__()
        self.d.__enter__()
        return self

    def __exit__(self, *exc):
        self.d.__exit__(*exc)
        self.f.__exit__(*exc)
        for n, v in self.saved.items():
            setattr(torch, n, v)
        torch.from_numpy = self.from_numpy
        torch.load = self.load
        return False
