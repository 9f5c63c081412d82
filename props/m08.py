from .common import *
from . import families as F
from .models import conj

BOUNDS = ('Bounds: dimension 1-2 (3 in the thorough tier), 1-3 models in a set, 1-2 data points, covariances given as a number, a vector '
          'or a matrix; data, responsibilities and parameters are arbitrary.')
NORMALS = ['isonormalgamma', 'normalgamma', 'normalwishart']


def points(ctx, fam, dim, N):
    if fam == 'dirichlet':
        lab = [ctx.integer('label%d' % n, 0, dim - 1) for n in range(N)]
        return [[ctx.ite(ctx.equal(l, i), ctx.frac(1), ctx.frac(0)) for i in range(dim)] for l in lab]
    return [[ctx.real('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]


def model(ctx, fam, dim, K):
    from beer.models import Normal, NormalSet, Categorical, CategoricalSet
    p, ps, qs = conj(ctx, fam, dim, K, 'm')
    one, many = (Categorical, CategoricalSet) if fam == 'dirichlet' else (Normal, NormalSet)
    return (many if K else one)(p), p, ps, qs


def single(ctx, fam, dim, N):
    m, p, ps, qs = model(ctx, fam, dim, 0)
    X = points(ctx, fam, dim, N)
    xt = ctx.make(X)
    stats = m.sufficient_statistics(xt)
    ctx.check_all_eq('the data is left unchanged', xt, X)
    ctx.check_all_eq('expected log-likelihood', m.expected_log_likelihood(stats).reshape(-1), [F.exp_density(ctx, fam, qs[0], x) for x in X])
    acc = m.accumulate(stats)
    st = [F.data_stats(ctx, fam, x) for x in X]
    ctx.check('its parameter only', list(acc) == [p])
    ctx.check_all_eq('statistics', acc[p], [ctx.sum(c) for c in zip(*st)])
    p.store_stats(acc[p])
    p.natural_grad_update(1.)
    if fam != 'normalwishart':
        ctx.check_all_eq('full update', p.posterior.natural_parameters(), F.nat(ctx, fam, F.posterior(ctx, fam, ps[0], X)))
    else:
        ctx.check_all_eq('full update', p.posterior.natural_parameters(), [a + ctx.sum(c) for a, c in zip(F.nat(ctx, fam, ps[0]), zip(*st))])


def several(ctx, fam, dim, K, N):
    m, p, ps, qs = model(ctx, fam, dim, K)
    X = points(ctx, fam, dim, N)
    ctx.check('size', len(m) == K)
    stats = m.sufficient_statistics(ctx.make(X))
    want = [[F.exp_density(ctx, fam, q, x) for q in qs] for x in X]
    ctx.check_all_eq('expected log-likelihoods', m.expected_log_likelihood(stats).reshape(N, K), want)
    r = [[ctx.real('r%d_%d' % (n, k), 0) for k in range(K)] for n in range(N)]
    rt = ctx.make(r)
    acc = m.accumulate(stats, rt)
    st = [F.data_stats(ctx, fam, x) for x in X]
    hand = [[ctx.sum([r[n][k] * st[n][i] for n in range(N)]) for i in range(len(st[0]))] for k in range(K)]
    ctx.check('its parameter only', list(acc) == [p])
    ctx.check_all_eq('weighted statistics', acc[p], hand)
    ctx.check_all_eq('the responsibilities are left unchanged', rt, r)
    if fam == 'dirichlet':
        # joint responsibilities: one row of counts per model
        jr = [[[ctx.real('j%d_%d_%d' % (n, k, i), 0) for i in range(dim)] for k in range(K)] for n in range(N)]
        js = m.sufficient_statistics(ctx.make(jr).reshape(-1, dim)).reshape(N, K, dim)
        acc2 = m.accumulate_from_jointresps(js)
        ctx.check_all_eq('statistics from joint responsibilities', acc2[p],
                         [[ctx.sum(c) for c in zip(*[F.data_stats(ctx, fam, jr[n][k]) for n in range(N)])] for k in range(K)])
    # members
    k = ctx.choice('member', K)
    ctx.check_all_eq('one member', m[k].expected_log_likelihood(stats).reshape(-1), [w[k] for w in want])
    if fam == 'dirichlet':
        a = qs[k]['concentrations']
        ctx.check_all_eq('mean of a member', m[k].mean, [v / ctx.sum(a) for v in a])
    else:
        ctx.check_all_eq('mean of a member', m[k].mean, qs[k]['mean'])
    lo = ctx.choice('from', K)
    hi = lo + 1 + ctx.choice('count', K - lo)
    s = m[lo:hi]
    ctx.check('size of a slice', len(s) == hi - lo)
    ctx.check_all_eq('slice', s.expected_log_likelihood(stats).reshape(N, hi - lo), [w[lo:hi] for w in want])
    ctx.check_all_eq('statistics of a slice', list(s.accumulate(stats, ctx.make([x[lo:hi] for x in r])).values())[0], hand[lo:hi])
    p.store_stats(acc[p])
    p.natural_grad_update(1.)
    ctx.check_all_eq('full update', p.posterior.natural_parameters(),
                     [[a + b for a, b in zip(F.nat(ctx, fam, ps[k]), hand[k])] for k in range(K)])


def covariance(ctx, form, dim):
    """-> (tensor, full matrix of scalars)"""
    if form in ('number', 'vector1'):
        c = ctx.pos('c')
        t = ctx.make(c) if form == 'number' else ctx.make([c])
        return t, [[c if i == j else 0 for j in range(dim)] for i in range(dim)]
    if form == 'vector':
        c = [ctx.pos('c%d' % i) for i in range(dim)]
        return ctx.make(c), [[c[i] if i == j else 0 for j in range(dim)] for i in range(dim)]
    C, L = F.spd(ctx, 'C', dim)
    return ctx.make(C), C


def expected_cov(ctx, cov_type, C):
    dim = len(C)
    if cov_type == 'full':
        return C
    d = [C[i][i] for i in range(dim)] if cov_type == 'diagonal' else [ctx.max([C[i][i] for i in range(dim)])] * dim
    return [[d[i] if i == j else 0 for j in range(dim)] for i in range(dim)]


def create(ctx, cov_type, form, dim, K):
    """a new model has the requested mean and covariance, for the requested prior strength; prior and posterior are separate"""
    from beer.models import Normal, NormalSet
    mean = [ctx.real('m%d' % i) for i in range(dim)]
    mt = ctx.make(mean)
    ct, C = covariance(ctx, form, dim)
    ct0 = ctx.scalars(ct)
    s = ctx.pos('strength')
    std = ctx.real('noise_std', 0)
    m = NormalSet.create(mt, ct, K, prior_strength=s, noise_std=std, cov_type=cov_type) if K else \
        Normal.create(mt, ct, prior_strength=s, cov_type=cov_type)
    p = m.mean_field_factorization()[0][0]
    want = expected_cov(ctx, cov_type, C)
    noise = None
    for which, d in (('prior', p.prior), ('posterior', p.posterior)):
        for k in range(K or 1):
            e = d[k] if K else d
            if K and which == 'posterior':
                wm = [mean[i] + ctx.real('rnd%d' % (k * dim + i)) * std * ctx.sqrt(C[i][i]) for i in range(dim)]
            else:
                wm = mean
            ev = e.expected_value()
            ctx.check_all_eq('%s mean %d' % (which, k), ev[0], wm)
            prec = ctx.scalars(ev[1])
            if cov_type == 'full':
                pr = [[ctx.sum([prec[i][k] * want[k][j] for k in range(dim)]) for j in range(dim)] for i in range(dim)]
                ctx.check_all_eq('%s precision x covariance %d' % (which, k), pr, [[int(i == j) for j in range(dim)] for i in range(dim)])
            else:
                prec = prec if isinstance(prec, list) else [prec]
                for v, i in zip(prec, range(dim)):
                    ctx.check_eq('%s precision %d' % (which, k), v * want[i][i], 1)
                ctx.check('%s number of precisions' % which, len(prec) == (dim if cov_type == 'diagonal' else 1))
            ctx.check_all_eq('%s strength %d' % (which, k), e.params.scale.reshape(-1), [s])
            if cov_type == 'full':
                ctx.check_all_eq('%s degrees of freedom %d' % (which, k), e.params.dof.reshape(-1), [s + dim - 1])
            else:
                ctx.check_all_eq('%s shape %d' % (which, k), e.params.shape.reshape(-1), [s])
    if not K:
        ctx.check_all_eq('reported mean', m.mean, mean)
        if cov_type != 'full':
            ctx.check_all_eq('reported covariance', m.cov, want)
    before = ctx.scalars(p.prior.natural_parameters())
    x = m.sufficient_statistics(ctx.make([[ctx.real('x%d' % i) for i in range(dim)]]))
    m.expected_log_likelihood(x)
    acc = m.accumulate(x, torch.ones(1, K)) if K else m.accumulate(x)
    p.store_stats(acc[p])
    p.natural_grad_update(1.)
    ctx.check_all_eq('prior after an update of the posterior', p.prior.natural_parameters(), before)
    ctx.check_all_eq('the given mean is left unchanged', mt, mean)
    ctx.check_all_eq('the given covariance is left unchanged', ct, ct0)


def gamma_model(ctx, dim, N):
    from beer.models import Gamma
    mean = [ctx.pos('mean%d' % i) for i in range(dim)]
    shape = [ctx.pos('shape%d' % i) for i in range(dim)]
    s = ctx.pos('strength')
    g = Gamma.create(ctx.make(mean), ctx.make(shape), s)
    ctx.check_all_eq('requested mean', g.mean, mean)
    ctx.check_all_eq('requested strength', g.rate.prior.params.shape, [s] * dim)
    p, ps, qs = conj(ctx, 'gamma', dim, 0, 'm')
    m = Gamma(ctx.make(shape), p)
    X = [[ctx.pos('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]
    stats = m.sufficient_statistics(ctx.make(X))
    a, b = qs[0]['shape'], qs[0]['rate']
    want = [ctx.sum([shape[i] * (ctx.digamma(a[i]) - ctx.log(b[i])) - ctx.lgamma(shape[i]) + (shape[i] - 1) * ctx.log(x[i]) - a[i] / b[i] * x[i]
                     for i in range(dim)]) for x in X]
    ctx.check_all_eq('expected log-likelihood', m.expected_log_likelihood(stats).reshape(-1), want)
    acc = m.accumulate(stats)
    ctx.check('its parameter only', list(acc) == [p])
    p.store_stats(acc[p])
    p.natural_grad_update(1.)
    post = dict(shape=[u + N * v for u, v in zip(ps[0]['shape'], shape)], rate=[v + ctx.sum([x[i] for x in X]) for i, v in enumerate(ps[0]['rate'])])
    ctx.check_all_eq('full update', p.posterior.natural_parameters(), F.nat(ctx, 'gamma', post))


def categorical_create(ctx, dim, K):
    from beer.models import Categorical, CategoricalSet
    s = ctx.pos('strength')
    u = [[ctx.pos('w%d_%d' % (k, i)) for i in range(dim)] for k in range(K or 1)]
    w = [[v / ctx.sum(r) for v in r] for r in u]
    c = CategoricalSet.create(ctx.make(w), s) if K else Categorical.create(ctx.make(w[0]), s)
    ctx.check_all_eq('requested weights', c.mean, w if K else w[0])
    for d in (c.weights.prior, c.weights.posterior):
        ctx.check_all_eq('requested strength', d.params.concentrations.sum(dim=-1), [s] * K if K else s)


HARNESSES = [
    Harness('single', single, about='one model',
            quick=[dict(fam=f, dim=d, N=n) for f in NORMALS for d, n in ((1, 2), (2, 2))] + [dict(fam='dirichlet', dim=d, N=2) for d in (2, 3)],
            thorough=[dict(fam=f, dim=3, N=2) for f in NORMALS] + [dict(fam='dirichlet', dim=5, N=3)]),
    Harness('several', several, about='sets of models',
            quick=[dict(fam=f, dim=d, K=K, N=n) for f in NORMALS[:2] for d, K, n in ((1, 2, 2), (2, 3, 1), (1, 1, 2))] +
                  [dict(fam='normalwishart', dim=1, K=2, N=2), dict(fam='normalwishart', dim=2, K=2, N=1)] +
                  [dict(fam='dirichlet', dim=d, K=K, N=2) for d, K in ((2, 2), (3, 2), (2, 3))],
            thorough=[dict(fam='normalwishart', dim=2, K=3, N=2), dict(fam='normalgamma', dim=3, K=3, N=2)]),
    Harness('create', create, about='newly created Normal models',
            quick=[dict(cov_type=t, form=f, dim=d, K=K) for t in ('full', 'diagonal', 'isotropic') for f, d in
                   (('number', 2), ('vector1', 2), ('vector', 2), ('matrix', 2), ('vector1', 1)) for K in (0, 2)],
            thorough=[dict(cov_type=t, form=f, dim=3, K=0) for t in ('full', 'diagonal', 'isotropic') for f in ('vector', 'vector1')]),
    Harness('gamma_model', gamma_model, quick=[dict(dim=1, N=2), dict(dim=2, N=2)], thorough=[dict(dim=3, N=3)], about='Gamma model with known shape'),
    Harness('categorical_create', categorical_create, quick=[dict(dim=2, K=0), dict(dim=3, K=0), dict(dim=2, K=2)], about='newly created categorical models'),
]
