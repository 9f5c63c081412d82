from .common import *
from . import families as F

BOUNDS = ('Bounds: dimension 1-3 (full covariance 1-2, thorough 3), batches of up to 3 parameter vectors and 3 data points; data, '
          'coordinates and parameters are arbitrary reals (positive where required).')


def rows(ctx, x, K):
    s = ctx.scalars(x)
    return s if isinstance(s[0], list) or K else [s]


def coords(ctx, lik, dim):
    return dict(categorical=dim - 1, gamma=2 * dim, isotropic=dim + 1, diagonal=2 * dim,
                full=2 * dim + dim * (dim - 1) // 2, fixed=dim)[lik]


def likelihood(lik, dim):
    from beer import dists as D
    from beer.dists.normalgamma import NormalDiagonalLikelihood
    from beer.dists.normaldiag import NormalFixedDiagonalCovarianceLikelihood
    return dict(categorical=D.CategoricalLikelihood, gamma=D.GammaLikelihood, isotropic=D.IsotropicNormalLikelihood,
                diagonal=NormalDiagonalLikelihood, full=D.NormalLikelihood,
                fixed=NormalFixedDiagonalCovarianceLikelihood)[lik](dim)


def density(ctx, lik, dim, r, x):
    """log density of x under the parameters with coordinates r, and the standard parameters (nested lists)"""
    half = ctx.frac(1, 2)
    S = ctx.sum
    if lik == 'categorical':
        z = 1 + S([ctx.exp(v) for v in r])
        p = [ctx.exp(v) / z for v in r] + [1 / z]
        return S([x[i] * ctx.log(p[i]) for i in range(dim)]), [p]
    if lik == 'gamma':
        a, b = [ctx.exp(v) for v in r[:dim]], [ctx.exp(v) for v in r[dim:]]
        return gamma(ctx, a, b, x), [a, b]
    m = r[:dim]
    if lik in ('isotropic', 'diagonal'):
        lp = r[dim:] * dim if lik == 'isotropic' else r[dim:]
        p = [ctx.exp(v) for v in lp]
        ll = S([half * lp[i] - half * p[i] * (x[i] - m[i]) * (x[i] - m[i]) for i in range(dim)])
        return ll + F.lognormal_const(ctx, dim), [m, p[:1] if lik == 'isotropic' else p]
    if lik == 'fixed':
        # relative to the base measure exp(-x^2/2)
        return S([m[i] * x[i] - half * m[i] * m[i] for i in range(dim)]) + F.lognormal_const(ctx, dim), [m]
    L = [[0] * dim for _ in range(dim)]
    k = 2 * dim
    for i in range(dim):
        L[i][i] = ctx.exp(half * r[dim + i])
        for j in range(i):
            L[i][j] = r[k]
            k += 1
    P = [[S([L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(dim)] for i in range(dim)]
    d = [x[i] - m[i] for i in range(dim)]
    ll = half * S(r[dim:2 * dim]) - half * S([d[i] * P[i][j] * d[j] for i in range(dim) for j in range(dim)])
    return ll + F.lognormal_const(ctx, dim), [m, P]


def gamma(ctx, a, b, x):
    return ctx.sum([ai * ctx.log(bi) - ctx.lgamma(ai) + (ai - 1) * ctx.log(xi) - bi * xi for ai, bi, xi in zip(a, b, x)])


def data(ctx, lik, dim, N):
    """-> nested lists"""
    if lik == 'gamma':
        return [[ctx.pos('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]
    if lik == 'categorical':        # one-hot rows with a symbolic label
        lab = [ctx.integer('label%d' % n, 0, dim - 1) for n in range(N)]
        return [[ctx.ite(ctx.equal(lab[n], i), ctx.frac(1), ctx.frac(0)) for i in range(dim)] for n in range(N)]
    return [[ctx.real('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]


def vectors(ctx, lik, dim, K, N):
    """stats . pdfvector = log density; parameters are recovered"""
    l = likelihood(lik, dim)
    q = coords(ctx, lik, dim)
    if lik != 'fixed':
        ctx.check('number of coordinates', l.sufficient_statistics_dim(zero_stats=False) == q)
    R = [[ctx.real('r%d_%d' % (k, i)) for i in range(q)] for k in range(K)]
    X = data(ctx, lik, dim, N)
    if lik == 'gamma':
        eps = ctx.frac(1, 10 ** 6)     # the library shifts the coordinates by this constant
        R_ = [[v + eps for v in r] for r in R]
    else:
        R_ = R
    xt = ctx.make(X)
    stats = l.sufficient_statistics(xt)
    ctx.check_all_eq('the data is left unchanged', xt, X)
    rv = ctx.make(R)
    pv = l.pdfvectors_from_rvectors(rv)
    ctx.check_all_eq('the coordinates are left unchanged', rv, R)
    ctx.check('one vector per row', tuple(pv.shape) == (K, stats.shape[-1]))
    want = [[density(ctx, lik, dim, R_[k], X[n])[0] for k in range(K)] for n in range(N)]
    ctx.check_all_eq('log density (batch)', l(pv, stats), want)
    for k in range(K):
        ctx.check_all_eq('log density of vector %d alone' % k, l(pv[k], stats).reshape(-1), [w[k] for w in want])
    std = [density(ctx, lik, dim, R_[k], X[0])[1] for k in range(K)]
    tup = lambda v: v if isinstance(v, tuple) else (v,)
    back = tup(l.parameters_from_pdfvector(pv))
    ctx.check('number of parameters', len(back) == len(std[0]))
    for i, b in enumerate(back):
        ctx.check_all_eq('recovered parameter %d (batch)' % i, b, [std[k][i] for k in range(K)])
    for k in range(K):
        for i, b in enumerate(tup(l.parameters_from_pdfvector(pv[k]))):
            ctx.check_all_eq('recovered parameter %d of vector %d alone' % (i, k), b, std[k][i])


def forward(ctx, fam, dim, K, N):
    """density evaluation of the Normal distributions"""
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    d = F.build(ctx, fam, ps, batch=K > 0)
    X = data(ctx, fam, dim, N)
    stats = d.sufficient_statistics(ctx.make(X))

    def ll(p, x):
        df = [a - b for a, b in zip(x, p['mean'])]
        if fam == 'normaldiag':
            q = ctx.sum([v * v / s + ctx.log(s) for v, s in zip(df, p['diag_cov'])])
        else:
            P = F.spd_inv(p['_L'])
            q = ctx.sum([df[i] * P[i][j] * df[j] for i in range(dim) for j in range(dim)]) + F.tri_logdet(ctx, p['_L'])
        return ctx.frac(-1, 2) * q + F.lognormal_const(ctx, dim)
    want = [[ll(p, x) for x in X] for p in ps]
    ctx.check_all_eq('log density', d(stats), want if K else want[0])
    if K == N:
        ctx.check_all_eq('log density, one data point per distribution', d(stats, pdfwise=True), [want[k][k] for k in range(K)])
    if K > 1:
        ctx.check_all_eq('log density of one element', d[1](stats).reshape(-1), want[1])


def natural(ctx, fam, dim, K, N):
    """expected log-likelihood: statistics . E[T] for a conjugate prior = E[log density]"""
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    d = F.build(ctx, fam, ps, batch=K > 0)
    lik = {'dirichlet': 'categorical', 'isonormalgamma': 'isotropic', 'normalgamma': 'diagonal', 'normalwishart': 'full',
           'normaldiag': 'fixed'}[fam]
    l = d.conjugate()
    X = data(ctx, lik, dim, N)
    st = l.sufficient_statistics(ctx.make(X))
    got = l(d.expected_sufficient_statistics(), st)
    want = [[F.exp_density(ctx, fam, p, x) for p in ps] for x in X]
    ctx.check_all_eq('expected log density', got.reshape(N, -1), want)


def grid(key, names, dims, Ks, Ns):
    return [{key: n, 'dim': d, 'K': K, 'N': N} for n in names for d in dims for K, N in zip(Ks, Ns)]


LIKS = ['gamma', 'isotropic', 'diagonal', 'fixed']
FAMS = ['dirichlet', 'isonormalgamma', 'normalgamma', 'normalwishart', 'normaldiag']
HARNESSES = [
    Harness('vectors', vectors, about='parameter vectors built from real coordinates',
            quick=grid('lik', LIKS, [1, 2, 3], [1, 2, 3], [2, 2, 1]) + grid('lik', ['full'], [1, 2], [1, 2], [2, 1]) +
            grid('lik', ['categorical'], [2, 3, 4], [1, 2, 3], [2, 2, 1]),
            thorough=grid('lik', ['full'], [3], [1], [1]) + grid('lik', LIKS, [4], [2], [2])),
    Harness('forward', forward, about='density evaluation', quick=grid('fam', ['normaldiag', 'normalfull'], [1, 2], [0, 1, 2, 2], [2, 1, 2, 3]),
            thorough=grid('fam', ['normaldiag', 'normalfull'], [3], [0, 2], [1, 2])),
    Harness('natural', natural, about='expected log density under a conjugate prior',
            quick=grid('fam', FAMS, [2], [0, 1, 2, 3], [2, 1, 2, 1]) + grid('fam', FAMS[1:], [1, 3], [0, 2], [1, 1]),
            thorough=grid('fam', FAMS, [4], [0, 2], [1, 1])),
]
