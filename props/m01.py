from .common import *
from . import families as F
from .models import Mixture, conj

BOUNDS = ('Bounds: 2-4 components (isotropic, diagonal and full covariance Normals of dimension 1-2), 1-2 data points, Dirichlet or '
          'stick-breaking weights; data, parameters and labels are arbitrary.')


def build(ctx, fam, dim, K, sb):
    m = Mixture(ctx, fam=fam, dim=dim, K=K)
    if sb:
        from beer.models import SBCategorical, Mixture as M
        p, _, _ = conj(ctx, 'dirichlet', 2, K, 'sb')
        cat = SBCategorical(p)
        m.model = M(cat, m.model.modelset)
        m.params[0] = p
        lp = ctx.scalars(cat.expected_log_likelihood(torch.eye(K)))     # property M05 covers these values
        m.joint = lambda x: [lp[k] + F.exp_density(ctx, fam, m.cq[k], x) for k in range(K)]
    return m


def values(ctx, fam, dim, K, N, sb=False):
    m = build(ctx, fam, dim, K, sb)
    X = [m.point('x%d' % n) for n in range(N)]
    stats = m.model.sufficient_statistics(ctx.make(X))
    llh = m.model.expected_log_likelihood(stats)
    ctx.check_all_eq('log of the summed terms', llh, [m.ellh(x) for x in X])
    r = [m.resps(x) for x in X]
    acc = m.model.accumulate(stats)
    ctx.check('one entry per parameter', len(acc) == 2 and set(acc) == set(m.params))
    st = [F.data_stats(ctx, fam, x) for x in X]
    ctx.check_all_eq('component statistics', acc[m.params[1]],
                     [[ctx.sum([r[n][k] * st[n][i] for n in range(N)]) for i in range(len(st[0]))] for k in range(K)])
    if sb:
        ctx.check_all_eq('weight statistics', acc[m.params[0]], [ctx.sum([x[k] for x in r]) for k in range(K)])
    else:
        ctx.check_all_eq('weight statistics', acc[m.params[0]], [ctx.sum(c) for c in zip(*[F.data_stats(ctx, 'dirichlet', x) for x in r])])
    post = m.model.posteriors(ctx.make(X))
    ctx.check_all_eq('posteriors', post, r)
    ctx.check_all_eq('posteriors sum to one', post.sum(dim=-1), [1] * N)


def labels(ctx, fam, dim, K, N, sb=False):
    m = build(ctx, fam, dim, K, sb)
    X = [m.point('x%d' % n) for n in range(N)]
    lab = [ctx.choice('label%d' % n, K) for n in range(N)]
    stats = m.model.sufficient_statistics(ctx.make(X))
    llh = m.model.expected_log_likelihood(stats, labels=torch.tensor(lab))
    ctx.check_all_eq('value of the label', llh, [F.exp_density(ctx, fam, m.cq[lab[n]], x) for n, x in enumerate(X)])
    acc = m.model.accumulate(stats)
    st = [F.data_stats(ctx, fam, x) for x in X]
    ctx.check_all_eq('component statistics', acc[m.params[1]],
                     [[ctx.sum([st[n][i] for n in range(N) if lab[n] == k]) for i in range(len(st[0]))] for k in range(K)])
    r = [[int(l == k) for k in range(K)] for l in lab]
    if sb:
        ctx.check_all_eq('weight statistics', acc[m.params[0]], [sum(c) for c in zip(*r)])
    else:
        ctx.check_all_eq('weight statistics', acc[m.params[0]], [sum(c) for c in zip(*[x[:-1] + [1] for x in r])])
    # the labels of one call do not survive it
    llh = m.model.expected_log_likelihood(stats)
    ctx.check_all_eq('next call without labels', llh, [m.ellh(x) for x in X])


def again(ctx, fam, dim, K, N):
    """statistics follow the latest call"""
    m = build(ctx, fam, dim, K, False)
    Y = [m.point('y%d' % n) for n in range(N)]
    X = [m.point('x%d' % n) for n in range(N)]
    m.model.expected_log_likelihood(m.model.sufficient_statistics(ctx.make(Y)))
    stats = m.model.sufficient_statistics(ctx.make(X))
    ctx.check_all_eq('value of the second call', m.model.expected_log_likelihood(stats), [m.ellh(x) for x in X])
    r = [m.resps(x) for x in X]
    acc = m.model.accumulate(stats)
    st = [F.data_stats(ctx, fam, x) for x in X]
    ctx.check_all_eq('component statistics', acc[m.params[1]],
                     [[ctx.sum([r[n][k] * st[n][i] for n in range(N)]) for i in range(len(st[0]))] for k in range(K)])
    ctx.check_all_eq('weight statistics', acc[m.params[0]], [ctx.sum(c) for c in zip(*[F.data_stats(ctx, 'dirichlet', x) for x in r])])


def create(ctx, K):
    from beer.models import Mixture as M, NormalSet, Categorical
    p, _, q = conj(ctx, 'isonormalgamma', 1, K, 'c')
    s = ctx.pos('strength')
    model = M.create(NormalSet(p), prior_strength=s)
    for d in (model.categorical.weights.prior, model.categorical.weights.posterior):
        ctx.check_all_eq('uniform weights', d.params.concentrations, [s / K] * K)
    ctx.check_all_eq('mean weights', model.categorical.mean, [ctx.frac(1, K)] * K)
    w, _, wq = conj(ctx, 'dirichlet', K, 0, 'w')
    model = M.create(NormalSet(p), Categorical(w))
    ctx.check_all_eq('given weights', model.categorical.weights.posterior.params.concentrations, wq[0]['concentrations'])
    ctx.check('given parameter', model.categorical.weights is w)


HARNESSES = [
    Harness('values', values, about='responsibilities, value, statistics, posteriors',
            quick=[dict(fam=f, dim=d, K=K, N=N) for f in ('isonormalgamma', 'normalgamma') for d, K, N in ((1, 2, 2), (2, 2, 1), (1, 3, 1), (1, 4, 1), (3, 2, 1))] +
                  [dict(fam='normalwishart', dim=1, K=2, N=1), dict(fam='isonormalgamma', dim=1, K=2, N=1, sb=True),
                   dict(fam='isonormalgamma', dim=1, K=3, N=1, sb=True)],
            thorough=[dict(fam='normalwishart', dim=2, K=2, N=1), dict(fam='normalgamma', dim=2, K=3, N=2),
                      dict(fam='isonormalgamma', dim=1, K=4, N=2), dict(fam='isonormalgamma', dim=1, K=3, N=2, sb=True)]),
    Harness('labels', labels, about='given labels',
            quick=[dict(fam='isonormalgamma', dim=1, K=2, N=2), dict(fam='normalgamma', dim=1, K=3, N=2), dict(fam='normalgamma', dim=1, K=4, N=2), dict(fam='isonormalgamma', dim=1, K=3, N=2, sb=True)],
            thorough=[dict(fam='normalgamma', dim=2, K=3, N=3)]),
    Harness('again', again, quick=[dict(fam='isonormalgamma', dim=1, K=2, N=1), dict(fam='isonormalgamma', dim=1, K=2, N=2)], thorough=[dict(fam='normalgamma', dim=2, K=3, N=1)],
            about='a second call before the statistics are accumulated'),
    Harness('create', create, quick=[dict(K=2), dict(K=3), dict(K=5)], about='default weights'),
]
