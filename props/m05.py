from .common import *
from . import families as F
from .models import conj

BOUNDS = ('Bounds: truncations of 2-4 sticks, sets of 1-3, histories of up to 3 updates with arbitrary counts (every resulting order), '
          'arbitrary learning rates; concentrations at least 1/1000 where the mean is compared (the code adds a machine epsilon).')
FLOOR = (1, 1000)


def log_prob(ctx, conc, order):
    """expected log weight of every category, in category order"""
    K = len(conc)
    out, rest = [None] * K, 0
    for k in order:
        a, b = conc[k]
        d = ctx.digamma(a + b)
        out[k] = rest + ctx.digamma(a) - d
        rest = rest + ctx.digamma(b) - d
    return out


def mean(ctx, conc, order):
    out, rest = [None] * len(conc), 1
    for k in order:
        a, b = conc[k]
        out[k] = rest * a / (a + b)
        rest = rest * b / (a + b)
    return out


def tails(ctx, counts, order):
    return {k: ctx.sum([counts[j] for j in order[i + 1:]]) for i, k in enumerate(order)}


def natural(rows):
    return [[a - 1, a + b - 2] for a, b in rows]


def check_order(ctx, label, order, counts):
    ctx.check(label + ': a permutation', sorted(order) == list(range(len(counts))))
    for a, b in zip(order, order[1:]):
        ctx.check_le(label + ': decreasing counts', counts[b], counts[a])


def same_mean(ctx, label, got, want):
    got = got if isinstance(got, list) else ctx.scalars(got)
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, list):
            same_mean(ctx, '%s %d' % (label, i), g, w)
        else:
            ctx.check_eq('%s %d' % (label, i), drop_eps(ctx, g), w)


def drop_eps(ctx, t):
    """the code keeps divisions defined with a machine epsilon next to the concentrations: compare without it"""
    from symx import terms
    return terms.drop_eps(terms.lift(t)) if ctx.symbolic else t


def setup(ctx, K, cls=None):
    from beer.models import SBCategorical
    p, ps, qs = conj(ctx, 'dirichlet', 2, K, 's')
    rows = lambda l: [x['concentrations'] for x in l]
    return SBCategorical(p), p, rows(ps), rows(qs)


def values(ctx, m, conc, order, tag):
    K = len(conc)
    ctx.check(tag + 'order', [int(i) for i in m.ordering] == list(order))
    X = [[ctx.real('%sx%d_%d' % (tag, n, k)) for k in range(K)] for n in range(2)]
    lp = log_prob(ctx, conc, order)
    ctx.check_all_eq(tag + 'expected log-likelihood', m.expected_log_likelihood(m.sufficient_statistics(ctx.make(X))),
                     [ctx.sum([a * b for a, b in zip(x, lp)]) for x in X])
    same_mean(ctx, tag + 'mean weights', m.mean, mean(ctx, conc, order))


def first(ctx, K):
    m, p, pr, qs = setup(ctx, K)
    values(ctx, m, qs, range(K), '')
    X = [[ctx.real('d%d_%d' % (n, k), 0) for k in range(K)] for n in range(2)]
    acc = m.accumulate(m.sufficient_statistics(ctx.make(X)))
    ctx.check_all_eq('accumulated counts', acc[p], [ctx.sum(c) for c in zip(*X)])


def update(ctx, m, p, pr, conc, K, tag, lrate=1, alpha=None):
    """one update with arbitrary counts -> new concentrations, order"""
    counts = [ctx.real('%sn%d' % (tag, k), 0) for k in range(K)]
    p.store_stats(ctx.make(counts))
    p.natural_grad_update(lrate)
    order = [int(i) for i in m.ordering]
    check_order(ctx, tag + 'order', order, counts)
    t = tails(ctx, counts, order)
    new = []
    for k in range(K):
        a, b = pr[k]
        new.append([(1 - lrate) * conc[k][0] + lrate * (a + counts[k]), (1 - lrate) * conc[k][1] + lrate * (b + t[k])])
    ctx.check_all_eq(tag + 'posterior', p.posterior.natural_parameters(), natural(new))
    return new, order


def history(ctx, K, n, free_rate):
    m, p, pr, conc = setup(ctx, K)
    for t in range(n):
        rate = ctx.real('rate%d' % t, 0, 1) if free_rate and t == n - 1 else 1
        conc, order = update(ctx, m, p, pr, conc, K, 'u%d ' % t, rate)
        ctx.check_all_eq('prior %d' % t, p.prior.natural_parameters(), natural(pr))
    values(ctx, m, conc, order, 'after ')


def hyper(ctx, K, n):
    """prior over the concentration"""
    from beer.models import SBCategoricalHyperPrior
    p, ps, qs = conj(ctx, 'dirichlet', 2, K, 's')
    g, gp, gq = conj(ctx, 'gamma', 1, 0, 'g')
    pr = [x['concentrations'] for x in ps]
    conc = [x['concentrations'] for x in qs]
    m = SBCategoricalHyperPrior(p, g)
    alpha = gq[0]['shape'][0] / gq[0]['rate'][0]
    pr = [[a, alpha] for a, _ in pr]
    ctx.check_all_eq('prior sticks follow the concentration', p.prior.params.concentrations, pr)
    for t in range(n):
        conc, order = update(ctx, m, p, pr, conc, K, 'u%d ' % t)
        rest = ctx.sum([ctx.digamma(b) - ctx.digamma(a + b) for a, b in conc])
        gam = dict(shape=[gp[0]['shape'][0] + K], rate=[gp[0]['rate'][0] - rest])
        ctx.check_all_eq('posterior of the concentration %d' % t, g.posterior.natural_parameters(), F.nat(ctx, 'gamma', gam))
        alpha = gam['shape'][0] / gam['rate'][0]
        pr = [[a, alpha] for a, _ in pr]
        ctx.check_all_eq('prior sticks after the update %d' % t, p.prior.params.concentrations, pr)
    values(ctx, m, conc, order, 'after ')


def create(ctx, K):
    from beer.models import SBCategorical, SBCategoricalHyperPrior
    s, h = ctx.pos('strength'), ctx.pos('hyper')
    m = SBCategorical.create(K, prior_strength=s)
    for d in (m.stickbreaking.prior, m.stickbreaking.posterior):
        ctx.check_all_eq('Beta(1, strength) sticks', d.params.concentrations, [[1, s]] * K)
    m = SBCategoricalHyperPrior.create(K, prior_strength=s, hyper_prior_strength=h)
    for d in (m.stickbreaking.prior, m.stickbreaking.posterior):
        ctx.check_all_eq('Beta(1, strength) sticks with hyper-prior', d.params.concentrations, [[1, s]] * K)
    ctx.check_all_eq('mean concentration', m.concentration.value(), [s])
    ctx.check_all_eq('strength of the hyper-prior', m.concentration.prior.params.shape, [h])


def several(ctx, K, S, reorder):
    """sets share the order of their root"""
    from beer.models import SBCategorical, SBCategoricalSet
    root, p, pr, conc = setup(ctx, K)
    order = list(range(K))
    if reorder:
        conc, order = update(ctx, root, p, pr, conc, K, 'root ')
    s = ctx.pos('strength')
    m = SBCategoricalSet.create(S, root, prior_strength=s)
    q = m.stickbreaking
    rows = q.prior.params.concentrations.reshape(S, K, 2)
    rm = ctx.scalars(root.mean)
    R = ctx.scalars(rows)
    for i in range(S):
        if ctx.symbolic:
            R[i] = [[drop_eps(ctx, v) for v in r] for r in R[i]]
        ctx.check_all_eq('prior mean of set member %d is the mean of the root' % i, mean(ctx, R[i], order), [drop_eps(ctx, v) for v in rm])
        for k in range(K):
            ctx.check_eq('strength %d %d' % (i, k), R[i][k][0], s * drop_eps(ctx, rm[k]))
    ctx.check_all_eq('posterior starts at the posterior of the root', q.posterior.params.concentrations.reshape(S, K, 2), [conc] * S)


def set_update(ctx, K, S, reorder):
    from beer.models import SBCategoricalSet
    root, p, pr, conc = setup(ctx, K)
    order = list(range(K))
    if reorder:
        conc, order = update(ctx, root, p, pr, conc, K, 'root ')
    q, ps, qs = conj(ctx, 'dirichlet', 2, S * K, 'set')
    m = SBCategoricalSet(S, q, root, 1., None, None, 0)
    g = lambda l: [[l[i * K + k]['concentrations'] for k in range(K)] for i in range(S)]
    prior, post = g(ps), g(qs)

    def vals(tag):
        X = [[ctx.real('%sx%d_%d' % (tag, n, k)) for k in range(K)] for n in range(2)]
        lp = [log_prob(ctx, c, order) for c in post]
        ctx.check_all_eq(tag + 'expected log-likelihood', m.expected_log_likelihood(m.sufficient_statistics(ctx.make(X))),
                         [[ctx.sum([a * b for a, b in zip(x, l)]) for l in lp] for x in X])
        same_mean(ctx, tag + 'mean weights', m.mean, [mean(ctx, c, order) for c in post])
    vals('')
    J = [[[ctx.real('j%d_%d_%d' % (n, i, k), 0) for k in range(K)] for i in range(S)] for n in range(2)]
    acc = m.accumulate_from_jointresps(m.sufficient_statistics(ctx.make(J)))
    counts = [[J[0][i][k] + J[1][i][k] for k in range(K)] for i in range(S)]
    ctx.check_all_eq('accumulated counts', acc[q], counts)
    q.store_stats(acc[q])
    q.natural_grad_update(1.)
    for i in range(S):
        t = tails(ctx, counts[i], order)
        post[i] = [[prior[i][k][0] + counts[i][k], prior[i][k][1] + t[k]] for k in range(K)]
    ctx.check_all_eq('posterior', q.posterior.natural_parameters().reshape(S, K, 2), [natural(c) for c in post])
    vals('after ')
    ctx.check_all_eq('the root keeps its sticks', p.posterior.natural_parameters(), natural(conc))


HARNESSES = [
    Harness('first', first, quick=[dict(K=k) for k in (2, 3, 4)], thorough=[dict(K=4), dict(K=5)], opts=dict(symbolic_eps=True), about='new stick-breaking weights'),
    Harness('history', history, quick=[dict(K=2, n=1, free_rate=False), dict(K=3, n=1, free_rate=True), dict(K=3, n=2, free_rate=False), dict(K=2, n=2, free_rate=True), dict(K=4, n=1, free_rate=False)],
            thorough=[dict(K=4, n=1, free_rate=True), dict(K=2, n=3, free_rate=True), dict(K=3, n=3, free_rate=False)], opts=dict(symbolic_eps=True), about='updates'),
    Harness('hyper', hyper, quick=[dict(K=2, n=1), dict(K=3, n=1), dict(K=2, n=2), dict(K=4, n=1)], thorough=[dict(K=3, n=2), dict(K=5, n=1)], opts=dict(symbolic_eps=True), about='prior over the concentration'),
    Harness('create', create, quick=[dict(K=2), dict(K=3)], opts=dict(symbolic_eps=True), about='defaults'),
    Harness('several', several, quick=[dict(K=2, S=2, reorder=False), dict(K=3, S=2, reorder=True), dict(K=2, S=3, reorder=True)],
            thorough=[dict(K=4, S=2, reorder=True)], opts=dict(symbolic_eps=True), about='new sets'),
    Harness('set_update', set_update, quick=[dict(K=2, S=2, reorder=False), dict(K=3, S=2, reorder=True), dict(K=2, S=3, reorder=True), dict(K=3, S=1, reorder=False), dict(K=4, S=2, reorder=False)],
            thorough=[dict(K=4, S=2, reorder=True)], opts=dict(symbolic_eps=True), about='sets: values and updates'),
]
