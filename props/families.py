"""Exponential-family members with arbitrary valid parameters, and closed forms
written independently of the code under test."""
import beer
from beer import dists as D


def spd(ctx, name, n):
    """arbitrary symmetric positive definite matrix as L L^T -> (matrix, L); from 4 dimensions on, two blocks of 2 and the
    rest diagonal"""
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if n > 3 and (i, j) not in ((1, 0), (3, 2)):
                continue
            L[i][j] = ctx.real('%s_l%d%d' % (name, i, j))
        L[i][i] = ctx.pos('%s_l%d%d' % (name, i, i))
    M = [[ctx.sum([L[i][k] * L[j][k] for k in range(min(i, j) + 1)]) for j in range(n)] for i in range(n)]
    return M, L


def params(ctx, fam, dim, name):
    """standard parameters (nested lists of scalars) of one distribution"""
    r = lambda n: [ctx.real('%s_%s%d' % (name, n, i)) for i in range(dim)]
    p = lambda n: [ctx.pos('%s_%s%d' % (name, n, i)) for i in range(dim)]
    one = lambda n: [ctx.pos('%s_%s' % (name, n))]
    if fam == 'dirichlet':
        return dict(concentrations=p('a'))
    if fam == 'gamma':
        return dict(shape=p('a'), rate=p('b'))
    if fam == 'isonormalgamma':
        return dict(mean=r('m'), scale=one('k'), shape=one('a'), rate=one('b'))
    if fam == 'normalgamma':
        return dict(mean=r('m'), scale=one('k'), shape=one('a'), rates=p('b'))
    if fam == 'normalwishart':
        W, L = spd(ctx, name + '_W', dim)
        return dict(mean=r('m'), scale=one('k'), scale_matrix=W, dof=[ctx.pos('%s_v' % name) + (dim - 1)], _L=L)
    if fam == 'normaldiag':
        return dict(mean=r('m'), diag_cov=p('s'))
    if fam == 'normalfull':
        C, L = spd(ctx, name + '_C', dim)
        return dict(mean=r('m'), cov=C, _L=L)
    raise KeyError(fam)


CLS = dict(dirichlet=D.Dirichlet, gamma=D.Gamma, isonormalgamma=D.IsotropicNormalGamma,
           normalgamma=D.NormalGamma, normalwishart=D.NormalWishart,
           normaldiag=D.NormalDiagonalCovariance, normalfull=D.NormalFullCovariance)
ALL = list(CLS)
ORDER = dict(dirichlet=['concentrations'], gamma=['shape', 'rate'], isonormalgamma=['mean', 'scale', 'shape', 'rate'],
             normalgamma=['mean', 'scale', 'shape', 'rates'], normalwishart=['mean', 'scale', 'scale_matrix', 'dof'],
             normaldiag=['mean', 'diag_cov'], normalfull=['mean', 'cov'])


def build(ctx, fam, plist, batch=None):
    """plist: list of std parameter dicts -> distribution object (a batch when
    batch or more than one)"""
    batch = len(plist) > 1 if batch is None else batch
    args = {}
    for n in ORDER[fam]:
        args[n] = ctx.make([p[n] for p in plist] if batch else plist[0][n])
    return CLS[fam].from_std_parameters(**args)


def tri_logdet(ctx, L):
    return 2 * ctx.sum([ctx.log(L[i][i]) for i in range(len(L))])


def tri_inv(L):
    n = len(L)
    R = [[0] * n for _ in range(n)]
    for i in range(n):
        R[i][i] = 1 / L[i][i]
        for j in range(i):
            s = 0
            for k in range(j, i):
                s = s + L[i][k] * R[k][j]
            R[i][j] = -s / L[i][i]
    return R


def spd_inv(L):
    """(L L^T)^-1"""
    R = tri_inv(L)
    n = len(L)
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            s = 0
            for k in range(max(i, j), n):
                s = s + R[k][i] * R[k][j]
            M[i][j] = s
    return M


def nat(ctx, fam, p):
    """natural parameters by hand, in the documented order"""
    half = ctx.frac(1, 2)
    if fam == 'dirichlet':
        a = p['concentrations']
        return [x - 1 for x in a[:-1]] + [ctx.sum([x - 1 for x in a])]
    if fam == 'gamma':
        return [-b for b in p['rate']] + [a - 1 for a in p['shape']]
    if fam == 'isonormalgamma':
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rate'][0]
        return [k * x for x in m] + [-half * k * ctx.sum([x * x for x in m]) - b, -half * k, a - 1 + half * len(m)]
    if fam == 'normalgamma':
        m, k, a, b = p['mean'], p['scale'][0], p['shape'][0], p['rates']
        return [k * x for x in m] + [-half * k * x * x - y for x, y in zip(m, b)] + [-half * k, a - half]
    if fam == 'normalwishart':
        m, k, v = p['mean'], p['scale'][0], p['dof'][0]
        Wi = spd_inv(p['_L'])
        n = len(m)
        return [k * x for x in m] + [-half * (Wi[i][j] + k * m[i] * m[j]) for i in range(n) for j in range(n)] + \
            [-half * k, half * (v - n)]
    if fam == 'normaldiag':
        return [m / s for m, s in zip(p['mean'], p['diag_cov'])] + [1 / s for s in p['diag_cov']]
    if fam == 'normalfull':
        P = spd_inv(p['_L'])
        n = len(P)
        m = p['mean']
        return [ctx.sum([P[i][j] * m[j] for j in range(n)]) for i in range(n)] + [P[i][j] for i in range(n) for j in range(n)]


def kl(ctx, fam, p, q):
    """KL(p || q) from the textbook closed forms"""
    lg, ps, lo, S = ctx.lgamma, ctx.digamma, ctx.log, ctx.sum
    half = ctx.frac(1, 2)

    def kl_gamma(a, b, c, d):
        return (a - c) * ps(a) - lg(a) + lg(c) + c * (lo(b) - lo(d)) + a * (d - b) / b
    if fam == 'dirichlet':
        a, b = p['concentrations'], q['concentrations']
        return (lg(S(a)) - S([lg(x) for x in a]) - lg(S(b)) + S([lg(x) for x in b]) +
                S([(x - y) * (ps(x) - ps(S(a))) for x, y in zip(a, b)]))
    if fam == 'gamma':
        return S([kl_gamma(a, b, c, d) for a, b, c, d in zip(p['shape'], p['rate'], q['shape'], q['rate'])])
    if fam in ('isonormalgamma', 'normalgamma'):
        n = len(p['mean'])
        k, k2, a, a2 = p['scale'][0], q['scale'][0], p['shape'][0], q['shape'][0]
        iso = fam == 'isonormalgamma'
        b = p['rate'] * n if iso else p['rates']
        b2 = q['rate'] * n if iso else q['rates']
        r = half * n * (k2 / k - 1 - lo(k2) + lo(k))
        r = r + half * k2 * S([a / bi * (x - y) * (x - y) for bi, x, y in zip(b, p['mean'], q['mean'])])
        if iso:
            return r + kl_gamma(a, b[0], a2, b2[0])
        return r + S([kl_gamma(a, x, a2, y) for x, y in zip(b, b2)])
    if fam == 'normalwishart':
        m, k, v = p['mean'], p['scale'][0], p['dof'][0]
        m2, k2, v2 = q['mean'], q['scale'][0], q['dof'][0]
        n = len(m)
        W, Wi2 = p['scale_matrix'], spd_inv(q['_L'])
        ld, ld2 = tri_logdet(ctx, p['_L']), tri_logdet(ctx, q['_L'])
        d = [x - y for x, y in zip(m, m2)]
        r = half * n * (k2 / k - 1 - lo(k2) + lo(k))
        r = r + half * k2 * v * S([d[i] * W[i][j] * d[j] for i in range(n) for j in range(n)])
        gm = lambda x: S([lg((x - i) * half) for i in range(n)])
        pm = S([ps((v - i) * half) for i in range(n)])
        tr = S([Wi2[i][j] * W[j][i] for i in range(n) for j in range(n)])
        return r + half * (v2 * (ld2 - ld) + v * (tr - n)) + gm(v2) - gm(v) + half * (v - v2) * pm
    if fam == 'normaldiag':
        return half * S([s / t - 1 - lo(s) + lo(t) + (x - y) * (x - y) / t for x, y, s, t in
                         zip(p['mean'], q['mean'], p['diag_cov'], q['diag_cov'])])
    if fam == 'normalfull':
        n = len(p['mean'])
        P2 = spd_inv(q['_L'])
        C = p['cov']
        d = [x - y for x, y in zip(p['mean'], q['mean'])]
        return half * (S([P2[i][j] * C[j][i] for i in range(n) for j in range(n)]) - n +
                       S([d[i] * P2[i][j] * d[j] for i in range(n) for j in range(n)]) +
                       tri_logdet(ctx, q['_L']) - tri_logdet(ctx, p['_L']))


def lognormal_const(ctx, dim):
    return ctx.frac(-1, 2) * dim * ctx.log(2 * ctx.pi)


def exp_density(ctx, fam, p, x):
    """E[log density of x] when the parameters of the density follow the conjugate member with parameters p"""
    half, S = ctx.frac(1, 2), ctx.sum
    dim = len(x)
    if fam == 'dirichlet':
        a = p['concentrations']
        return S([x[i] * (ctx.digamma(a[i]) - ctx.digamma(S(a))) for i in range(dim)])
    m = p['mean']
    df = [a - b for a, b in zip(x, m)]
    if fam == 'normaldiag':
        return S([m[i] * x[i] - half * (m[i] * m[i] + p['diag_cov'][i]) for i in range(dim)]) + lognormal_const(ctx, dim)
    k = p['scale'][0]
    if fam == 'normalwishart':
        v, W = p['dof'][0], p['scale_matrix']
        ld = S([ctx.digamma(half * (v - i)) for i in range(dim)]) + dim * ctx.log(ctx.frac(2)) + tri_logdet(ctx, p['_L'])
        q = v * S([df[i] * W[i][j] * df[j] for i in range(dim) for j in range(dim)])
    else:
        a = p['shape'][0]
        b = p['rate'] * dim if fam == 'isonormalgamma' else p['rates']
        ld = S([ctx.digamma(a) - ctx.log(y) for y in b])
        q = S([a / y * z * z for y, z in zip(b, df)])
    return half * ld - half * q - half * dim / k + lognormal_const(ctx, dim)


def data_stats(ctx, fam, x):
    """what one data point adds to the natural parameters of the conjugate prior"""
    half = ctx.frac(1, 2)
    if fam == 'dirichlet':
        return list(x[:-1]) + [ctx.sum(x)]
    n = len(x)
    if fam == 'isonormalgamma':
        return list(x) + [-half * ctx.sum([v * v for v in x]), -half, half * n]
    if fam == 'normalgamma':
        return list(x) + [-half * v * v for v in x] + [-half, half]
    if fam == 'normalwishart':
        return list(x) + [-half * x[i] * x[j] for i in range(n) for j in range(n)] + [-half, half]
    raise KeyError(fam)


def posterior(ctx, fam, p, X, w=None):
    """textbook conjugate posterior after the data points X with weights w"""
    S, half = ctx.sum, ctx.frac(1, 2)
    w = w or [ctx.frac(1)] * len(X)
    n = S(w)
    dim = len(X[0])
    if fam == 'dirichlet':
        return dict(concentrations=[a + S([wi * x[i] for wi, x in zip(w, X)]) for i, a in enumerate(p['concentrations'])])
    k, m = p['scale'][0], p['mean']
    sx = [S([wi * x[i] for wi, x in zip(w, X)]) for i in range(dim)]
    kn = k + n
    mn = [(k * a + b) / kn for a, b in zip(m, sx)]
    r = dict(mean=mn, scale=[kn])
    sq = [half * (S([wi * x[i] * x[i] for wi, x in zip(w, X)]) + k * m[i] * m[i] - kn * mn[i] * mn[i]) for i in range(dim)]
    if fam == 'isonormalgamma':
        return dict(r, shape=[p['shape'][0] + half * n * dim], rate=[p['rate'][0] + S(sq)])
    if fam == 'normalgamma':
        return dict(r, shape=[p['shape'][0] + half * n], rates=[a + b for a, b in zip(p['rates'], sq)])
    raise KeyError(fam)
