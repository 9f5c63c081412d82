from .common import *
from . import families as F
from .models import MODELS, Mixture

BOUNDS = ('Bounds: 1-3 data points of dimension 1-2; categorical models with 2-3 categories; mixtures of two one-dimensional Normals with '
          'one or two data points; priors, posteriors and data are arbitrary.')
ASSUMPTIONS = ['a divergence between two members of one family, or between two discrete distributions, is not negative (Gibbs)']


def log_evidence(ctx, fam, p, X):
    """log marginal likelihood, textbook"""
    q = F.posterior(ctx, fam, p, X)
    lg, lo, S, half = ctx.lgamma, ctx.log, ctx.sum, ctx.frac(1, 2)
    n, dim = len(X), len(X[0])
    if fam == 'dirichlet':
        a, b = p['concentrations'], q['concentrations']
        return lg(S(a)) - S([lg(x) for x in a]) - lg(S(b)) + S([lg(x) for x in b])
    r = F.lognormal_const(ctx, n * dim) + half * dim * (lo(p['scale'][0]) - lo(q['scale'][0]))
    a, an = p['shape'][0], q['shape'][0]
    b, bn = (p['rate'], q['rate']) if fam == 'isonormalgamma' else (p['rates'], q['rates'])
    return r + S([lg(an) - lg(a) + a * lo(x) - an * lo(y) for x, y in zip(b, bn)])


def evidence(ctx, kind, N):
    from beer import evidence_lower_bound
    from beer.dists import kl_div
    m = MODELS[kind](ctx)
    if m.fam == 'dirichlet':            # points fixed by forking, so that the posterior counts are concrete offsets
        lab = [ctx.choice('label%d' % n, m.dim) for n in range(N)]
        X = [[ctx.frac(int(i == l)) for i in range(m.dim)] for l in lab]
    else:
        X = [m.point('x%d' % n) for n in range(N)]
    exact = F.build(ctx, m.fam, [F.posterior(ctx, m.fam, m.ps[0], X)], batch=False)
    ev = log_evidence(ctx, m.fam, m.ps[0], X)
    e = evidence_lower_bound(m.model, ctx.make(X))
    ctx.check_eq('objective + divergence to the exact posterior = log evidence',
                 ctx.scalar(e.value) + ctx.scalar(kl_div(m.params[0].posterior, exact)), ev)
    # a full update attains the evidence
    e.backward()
    m.params[0].natural_grad_update(1.)
    ctx.check_all_eq('a full update gives the exact posterior', m.params[0].posterior.natural_parameters(), exact.natural_parameters())
    e2 = evidence_lower_bound(m.model, ctx.make(X))
    ctx.check_eq('the evidence is attained', ctx.scalar(e2.value), ev)


def wishart(ctx, dim, N):
    """full covariance: one update gives the exact posterior, and the gap closes"""
    from beer import evidence_lower_bound
    from beer.dists import NormalWishart, kl_div
    m = MODELS['full' if dim == 2 else 'full1'](ctx)
    X = [m.point('x%d' % n) for n in range(N)]
    prior = F.nat(ctx, m.fam, m.ps[0])
    st = [ctx.sum(c) for c in zip(*[F.data_stats(ctx, m.fam, x) for x in X])]
    e = evidence_lower_bound(m.model, ctx.make(X))
    exact = F.build(ctx, m.fam, [dict(m.ps[0])], batch=False)
    exact.update_from_natural_parameters(ctx.make([a + b for a, b in zip(prior, st)]))
    ev = exact.log_norm() - m.params[0].prior.log_norm() + F.lognormal_const(ctx, N * dim)
    ctx.check_eq('objective + divergence to the exact posterior = log evidence',
                 ctx.scalar(e.value) + ctx.scalar(kl_div(m.params[0].posterior, exact)), ctx.scalar(ev))


def bound(ctx, m, X, r):
    """the objective with responsibilities r"""
    return ctx.sum([ctx.sum([r[n][k] * (j - ctx.log(r[n][k])) for k, j in enumerate(m.joint(x))]) for n, x in enumerate(X)]) - m.kl()


def responsibilities(ctx, fam, N):
    """the objective is the bound at the exact responsibilities, and these weight the statistics"""
    from beer import evidence_lower_bound
    m = Mixture(ctx, fam=fam)
    X = [m.point('x%d' % n) for n in range(N)]
    e = evidence_lower_bound(m.model, ctx.make(X))
    r = [m.resps(x) for x in X]
    e.backward()
    # L(q, r) with log r = joint - logsumexp
    ctx.check_eq('objective', ctx.scalar(e.value), ctx.sum([ctx.logsumexp(m.joint(x)) for x in X]) - m.kl())
    for i, p in enumerate(m.params):
        ctx.check_all_eq('statistics %d' % i, p.stats, by_hand(ctx, m, X, r)[i])


def by_hand(ctx, m, X, r):
    st = [F.data_stats(ctx, m.fam, x) for x in X]
    return [[ctx.sum(c) for c in zip(*[F.data_stats(ctx, 'dirichlet', rn) for rn in r])],
            [[ctx.sum([rn[k] * v[i] for rn, v in zip(r, st)]) for i in range(len(st[0]))] for k in range(m.K)]]


def ascent(ctx, fam, N):
    """parameters updated with any responsibilities r: the new objective exceeds the bound at (q, r) by divergences"""
    from beer import evidence_lower_bound
    m = Mixture(ctx, fam=fam)
    X = [m.point('x%d' % n) for n in range(N)]
    which = ctx.choice('updated', 3)
    r = [[ctx.prob('r%d' % n)] for n in range(N)]
    r = [x + [1 - x[0]] for x in r]
    wq, cq = m.wq, m.cq
    if which != 1:
        wq = [F.posterior(ctx, 'dirichlet', m.wp[0], r)]
    if which != 0:
        cq = [F.posterior(ctx, fam, m.cp[k], X, [rn[k] for rn in r]) for k in range(m.K)]
        for c in cq:
            for v in c.get('rates', c.get('rate')):
                ctx.assume(ctx.lt(ctx.frac(0), v))      # consequence of convexity
    start = bound(ctx, m, X, r)
    hand = by_hand(ctx, m, X, r)
    for i, p in enumerate(m.params):
        if which == 2 or which == i:
            p.store_stats(ctx.make(hand[i]))
            p.natural_grad_update(1.)
    e2 = evidence_lower_bound(m.model, ctx.make(X))
    gain = ctx.scalar(e2.value) - start
    old_w, old_c = m.wq, m.cq
    m.wq, m.cq = wq, cq
    div = 0
    for n, x in enumerate(X):
        after = m.joint(x)
        la = ctx.logsumexp(after)
        div = div + ctx.sum([r[n][k] * (ctx.log(r[n][k]) - after[k] + la) for k in range(m.K)])
    if which != 1:
        div = div + F.kl(ctx, 'dirichlet', old_w[0], wq[0])
    if which != 0:
        div = div + ctx.sum([F.kl(ctx, fam, a, b) for a, b in zip(old_c, cq)])
    ctx.check_eq('gain = sum of divergences (hence not negative)', gain, div)


HARNESSES = [
    Harness('evidence', evidence, about='gap to the log evidence',
            quick=[dict(kind=k, N=n) for k in ('isotropic', 'diagonal', 'categorical') for n in (1, 2)],
            thorough=[dict(kind=k, N=3) for k in ('isotropic', 'diagonal', 'categorical')]),
    Harness('wishart', wishart, quick=[dict(dim=1, N=2), dict(dim=2, N=1)], thorough=[dict(dim=2, N=2)], about='gap, full covariance'),
    Harness('responsibilities', responsibilities, quick=[dict(fam=f, N=n) for f in ('isonormalgamma', 'normalgamma') for n in (1, 2)],
            about='objective and statistics at the exact responsibilities'),
    Harness('ascent', ascent, quick=[dict(fam=f, N=1) for f in ('isonormalgamma', 'normalgamma')],
            thorough=[dict(fam=f, N=2) for f in ('isonormalgamma', 'normalgamma')], about='coordinate ascent of mixtures'),
]
