from .common import *

BOUNDS = ('Bounds: up to 3 labels of up to 4 values; tensors of up to 3 dimensions of size up to 3 with arbitrary values and minus infinity in the listed patterns; '
          'matrices up to 3 x 3 (2 x 2 for the positive definite repair, any rotation and eigenvalues); up to 3 outputs of 2 input tensors.')
ASSUMPTIONS = ['make_symposdef: the largest eigenvalue is positive; the eigen-decomposition routine of torch is replaced by its contract']


def utils():
    import beer.utils
    return beer.utils


def onehot(ctx, N, K, kind='list'):
    l = [ctx.integer('l%d' % i, 0, K - 1) for i in range(N)]
    arg = [int(v) for v in l] if kind == 'list' else ctx.make(l, torch.int64)
    got = utils().onehot(arg, K, dtype=torch.get_default_dtype(), device=torch.device('cpu'))
    ctx.check('shape', tuple(got.shape) == (N, K))
    ctx.check_all_eq('one-hot rows', got, [[ctx.ite(ctx.equal(l[i], k), 1., 0.) for k in range(K)] for i in range(N)])


def lse(ctx, shape, dim, holes=()):
    import itertools
    inf = float('inf')
    x = {i: (-inf if (holes == 'all' or i in holes) else ctx.real('x' + '_'.join(map(str, i)))) for i in itertools.product(*[range(s) for s in shape])}

    def nest(pre, f, shp):
        return f(pre) if not shp else [nest(pre + (k,), f, shp[1:]) for k in range(shp[0])]
    t = ctx.make(nest((), x.__getitem__, shape))
    got = utils().logsumexp(t, dim=dim) if dim is not None else utils().logsumexp(t)
    d = (dim or 0) % len(shape)

    def want(i):
        v = [x[i[:d] + (k,) + i[d:]] for k in range(shape[d])]
        v = [a for a in v if not (isinstance(a, float) and a == -inf)]
        return ctx.logsumexp(v) if v else -inf
    out = shape[:d] + shape[d + 1:]
    ctx.check('shape', tuple(got.shape) == tuple(out))
    ctx.check_all_eq('log-sum-exp', got, nest((), want, out))
    ctx.check_all_eq('argument unchanged', t, nest((), x.__getitem__, shape))


def symmetric(ctx, D):
    m = ctx.tensor('m', (D, D))
    v = ctx.scalars(m)
    ctx.check_all_eq('symmetric part', utils().symmetrize_matrix(m), [[(v[i][j] + v[j][i]) / 2 for j in range(D)] for i in range(D)])
    ctx.check_all_eq('argument unchanged', m, v)


def samples(ctx, N, D, S):
    mean, var = ctx.tensor('m', (N, D)), ctx.tensor('v', (N, D), pos=True)
    k0 = ctx.nrand
    got = utils().sample_from_normals(mean, var, S)
    ctx.check('one noise value per sample', ctx.nrand - k0 == S * N * D)
    ctx.check('shape', tuple(got.shape) == (S, N, D))
    g, m, v = ctx.scalars(got), ctx.scalars(mean), ctx.scalars(var)
    noise = iter([ctx.real('rnd%d' % k) for k in range(k0, k0 + S * N * D)])
    ctx.check_all_eq('samples', g, [[[m[n][d] + ctx.sqrt(v[n][d]) * next(noise) for d in range(D)] for n in range(N)] for _ in range(S)])


def jacobian(ctx, O, twice=False, zero=False):
    """quadratic functions of two tensors"""
    a = ctx.tensor('a', (O, 4))
    x, y = ctx.tensor('x', (2,)).requires_grad_(True), ctx.tensor('y', (1, 2)).requires_grad_(True)
    y1 = y.view(-1)
    out = a[:, 0] * x[0] * x[1] + a[:, 1] * y1[0] * y1[0] + a[:, 2] * x[1] * y1[1] + a[:, 3] * x.sum() * y.sum()
    if zero:
        out = torch.cat([(x * x).sum()[None], out])
    if twice:
        utils().jacobians(out, [y])
    got = utils().jacobians(out, [x, y])
    A, X, Y = ctx.scalars(a), ctx.scalars(x), ctx.scalars(y)[0]
    more = [[2 * X[0], 2 * X[1]]] if zero else []
    ctx.check_all_eq('Jacobian of the first input', got[0], more + [[r[0] * X[1] + r[3] * (Y[0] + Y[1]), r[0] * X[0] + r[2] * Y[1] + r[3] * (Y[0] + Y[1])] for r in A])
    ctx.check_all_eq('Jacobian of the second input', got[1], [[0, 0]] * zero + [[2 * r[1] * Y[0] + r[3] * (X[0] + X[1]), r[2] * X[1] + r[3] * (X[0] + X[1])] for r in A])


def hessian(ctx, N, dims):
    g = [ctx.tensor('g%d' % i, (N, d)) for i, d in enumerate(dims)]
    got = utils().approximate_hessian(g)
    ctx.check('one matrix per tensor', len(got) == len(dims))
    for h, t, d in zip(got, g, dims):
        v = ctx.scalars(t)
        ctx.check_all_eq('sum of the outer products', h, [[ctx.sum([r[i] * r[j] for r in v]) for j in range(d)] for i in range(d)])


def posdef(ctx, D, thr=None):
    from symx import tensor as ST
    l = [ctx.real('l%d' % i) for i in range(D)]
    for a, b in zip(l, l[1:]):
        ctx.assume(ctx.le(a, b))
    ctx.assume(ctx.lt(0, l[-1]))
    if D == 1:
        Q = [[ctx.frac(1)]]
    else:
        t = ctx.real('t')
        Q = [[(1 - t * t) / (1 + t * t), -2 * t / (1 + t * t)], [2 * t / (1 + t * t), (1 - t * t) / (1 + t * t)]]
    k = ctx.real('k')
    comp = lambda e: [[ctx.sum([Q[i][n] * e[n] * Q[j][n] for n in range(D)]) for j in range(D)] for i in range(D)]
    sym = comp(l)
    mat = [[sym[i][j] + (k if i < j else -k if i > j else 0) for j in range(D)] for i in range(D)]

    def eigh(p):
        for i in range(D):
            for j in range(D):
                ctx.check_eq('argument of the decomposition', p[i][j], sym[i][j])
        return l, Q
    kw = {} if thr is None else dict(eval_threshold=thr)
    ST.EIGH = eigh
    try:
        got = utils().make_symposdef(ctx.make(mat), **kw)
    finally:
        ST.EIGH = None
    low = (0.1 if thr is None else thr) * l[-1]
    ctx.check_all_eq('repaired matrix', got, comp([ctx.max([v, low]) for v in l]))


HARNESSES = [
    Harness('onehot', onehot, quick=[dict(N=2, K=3), dict(N=1, K=1), dict(N=3, K=2, kind='tensor'), dict(N=0, K=2)], thorough=[dict(N=3, K=4, kind='tensor')], about='one-hot encoding'),
    Harness('logsumexp', lse, about='log-sum-exp',
            quick=[dict(shape=(3,), dim=0), dict(shape=(2, 3), dim=0), dict(shape=(2, 3), dim=1), dict(shape=(2, 2, 2), dim=1), dict(shape=(2, 2), dim=-1), dict(shape=(2, 2), dim=None),
                   dict(shape=(2, 2), dim=1, holes=((0, 1),)), dict(shape=(2, 2), dim=1, holes=((0, 0), (0, 1))), dict(shape=(2, 2), dim=0, holes=((0, 1), (1, 1), (1, 0))),
                   dict(shape=(2, 2), dim=0, holes='all'), dict(shape=(1, 3), dim=0)],
            thorough=[dict(shape=(3, 3), dim=0), dict(shape=(2, 3, 2), dim=1), dict(shape=(4,), dim=0)]),
    Harness('symmetrize', symmetric, quick=[dict(D=d) for d in (1, 2, 3)], about='symmetric part'),
    Harness('samples', samples, quick=[dict(N=2, D=2, S=2), dict(N=1, D=3, S=1), dict(N=2, D=1, S=3)], about='samples of Normal distributions'),
    Harness('jacobians', jacobian, quick=[dict(O=1), dict(O=2), dict(O=3), dict(O=2, twice=True), dict(O=1, zero=True)], about='Jacobian matrices'),
    Harness('hessian', hessian, quick=[dict(N=2, dims=(2, 3)), dict(N=1, dims=(1,)), dict(N=3, dims=(2,))], about='outer product approximation'),
    Harness('posdef', posdef, quick=[dict(D=1), dict(D=2), dict(D=2, thr=0.5)], about='symmetric positive definite repair'),
]
