from .common import *
from . import families as F
from .models import conj, any_set
from .m03 import graph, posteriors, pool
from .m04 import Loop, ASSUMPTIONS
from .m05 import log_prob, natural, tails, update

BOUNDS = ('Bounds: loops of 2-3 units of 2-3 states (interleaved state orders included), 1-3 frames (5 without self-loops), histories of up to 2 updates with '
          'arbitrary counts and learning rate; Dirichlet and stick-breaking (shared order) successor weights.')


def weights(ctx, kind, U, reorder):
    """-> model, parameter, state"""
    from beer.models import CategoricalSet, SBCategorical, SBCategoricalSet
    if kind == 'dirichlet':
        p, ps, qs = conj(ctx, 'dirichlet', U, U, 'w')
        return CategoricalSet(p), p, [[x['concentrations'] for x in l] for l in (ps, qs)]
    r, rp, rq = conj(ctx, 'dirichlet', 2, U, 'root')
    root, order = SBCategorical(r), list(range(U))
    if reorder:
        _, order = update(ctx, root, r, [x['concentrations'] for x in rp], [x['concentrations'] for x in rq], U, 'root ')
    p, ps, qs = conj(ctx, 'dirichlet', 2, U * U, 'w')
    g = lambda l: [[l[i * U + k]['concentrations'] for k in range(U)] for i in range(U)]
    return SBCategoricalSet(U, p, root, 1., None, None, 0), p, [g(ps), g(qs), order]


def logw(ctx, kind, state):
    if kind == 'dirichlet':
        return [[ctx.digamma(x) - ctx.digamma(ctx.sum(a)) for x in a] for a in state[1]]
    return [log_prob(ctx, c, state[2]) for c in state[1]]


def as_stats(ctx, kind, n):
    return [F.data_stats(ctx, 'dirichlet', r) for r in n] if kind == 'dirichlet' else n


def change(ctx, kind, p, state, tag, lrate):
    pr, q = state[:2]
    U = len(q)
    n = [[ctx.real('%sn%d_%d' % (tag, i, k), 0) for k in range(U)] for i in range(U)]
    p.store_stats(ctx.make(as_stats(ctx, kind, n)))
    p.natural_grad_update(lrate)
    mix = lambda a, b, c: (1 - lrate) * b + lrate * (a + c)
    if kind == 'dirichlet':
        return [pr, [[mix(*x) for x in zip(*r)] for r in zip(pr, q, n)]]
    new = []
    for i in range(U):
        t = tails(ctx, n[i], state[2])
        new.append([[mix(pr[i][k][0], q[i][k][0], n[i][k]), mix(pr[i][k][1], q[i][k][1], t[k])] for k in range(U)])
    return [pr, new, state[2]]


def steps(ctx, loop, kind, n, rate, reorder=False, noloop=False):
    from beer.models import BigramPhoneLoop
    L = Loop(ctx, loop, 2, noloop)
    em = any_set(ctx, 2)
    cats, p, state = weights(ctx, kind, L.U, reorder)
    m = BigramPhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, em, cats)
    L.check('', logw(ctx, kind, state))
    for t in range(n):
        state = change(ctx, kind, p, state, 'u%d ' % t, ctx.real('rate%d' % t, 0, 1) if rate else 1)
        L.check('after update %d: ' % t, logw(ctx, kind, state))
    groups = [q for g in m.mean_field_factorization() for q in g]
    ctx.check('every parameter is trained once', len(groups) == 2 and all(any(q is w for q in groups) for w in (em.param, p)))


def default(ctx, loop):
    from beer.models import BigramPhoneLoop
    L = Loop(ctx, loop, 2)
    s = ctx.pos('strength')
    BigramPhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, any_set(ctx, 2), prior_strength=s)
    L.check('', [[ctx.digamma(s / ctx.frac(L.U)) - ctx.digamma(s)] * L.U] * L.U)


def train(ctx, loop, N, kind, mode, twice=False, noloop=False):
    from beer.models import BigramPhoneLoop
    n = 2
    L = Loop(ctx, loop, n, noloop, ends=N > 1)
    em = any_set(ctx, n)
    cats, p, state = weights(ctx, kind, L.U, False)
    m = BigramPhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, em, cats)
    if twice:
        state = change(ctx, kind, p, state, 'u', 1)
    wt = L.weights(logw(ctx, kind, state))
    data = [[ctx.real('llh%d_%d' % (i, k)) for k in range(n)] for i in range(N)]
    scale = ctx.pos('scale')
    stats = m.sufficient_statistics(ctx.make(data))
    score = [[scale * data[i][k] for k in L.pdfs] for i in range(N)]

    def ali(tag):
        pdfs = [0, 1]
        g2, vi, vf, vt = graph(ctx, 2, pdfs, tag='ali_')
        m.expected_log_likelihood(stats, scale=scale, inference_graph=g2)
        acc = m.accumulate(stats)
        resp, _ = posteriors(ctx, 2, N, vi, vf, vt, [[scale * data[i][k] for k in pdfs] for i in range(N)])
        ctx.check_all_eq(tag + 'alignment: counts', acc[p], [[0] * L.U] * L.U)
        ctx.check_all_eq(tag + 'alignment: emission statistics', acc[em.param], pool(ctx, pdfs, [[scale * v for v in r] for r in resp], n))

    def want(tr):
        return as_stats(ctx, kind, [[ctx.sum([x[e][s] for x in tr]) for s in L.starts] for e in L.ends])
    if mode == 'path':
        path = [ctx.choice('state%d' % i, L.S) for i in range(N)]
        m.expected_log_likelihood(stats, state_path=torch.tensor(path), scale=scale)
        acc = m.accumulate(stats)
        ctx.check_all_eq('counts', acc[p], want([[[int(a == i and b == j) for j in range(L.S)] for i in range(L.S)] for a, b in zip(path, path[1:])]))
        return
    resp, tr = posteriors(ctx, L.S, N, L.wi, L.wf, wt, score)
    if mode == 'ali first':
        ali('')
    m.expected_log_likelihood(stats, scale=scale)
    acc = m.accumulate(stats)
    ctx.check('parameters', len(acc) == 2 and em.param in acc and p in acc)
    ctx.check_all_eq('counts', acc[p], want(tr))
    ctx.check_all_eq('emission statistics', acc[em.param], pool(ctx, L.pdfs, [[scale * v for v in r] for r in resp], n))
    if mode == 'ali after':
        ali('then ')


HARNESSES = [
    Harness('steps', steps, about='transitions after creation and updates',
            quick=[dict(loop='2x2', kind='dirichlet', n=2, rate=True), dict(loop='mixed', kind='dirichlet', n=1, rate=True, noloop=True),
                   dict(loop='3x2', kind='dirichlet', n=1, rate=False), dict(loop='2x2', kind='sb', n=1, rate=True), dict(loop='3x2', kind='sb', n=1, rate=False, reorder=True),
                   dict(loop='2+3', kind='sb', n=2, rate=False, reorder=True)],
            thorough=[dict(loop='3x2', kind='dirichlet', n=3, rate=True), dict(loop='3x2', kind='sb', n=2, rate=True, reorder=True)]),
    Harness('default', default, quick=[dict(loop='2x2'), dict(loop='3x2')], about='default weights'),
    Harness('train', train, about='training counts',
            quick=[dict(loop='2x2', N=2, kind='dirichlet', mode='ali after'), dict(loop='mixed', N=2, kind='dirichlet', mode='ali first'),
                   dict(loop='2x2', N=1, kind='dirichlet', mode='own'), dict(loop='mixed', N=2, kind='sb', mode='ali after', twice=True), dict(loop='2x2', N=3, kind='dirichlet', mode='own'),
                   dict(loop='mixed', N=2, kind='dirichlet', mode='path'), dict(loop='single', N=2, kind='dirichlet', mode='own', noloop=True),
                   dict(loop='single', N=3, kind='dirichlet', mode='path'), dict(loop='2x2', N=5, kind='dirichlet', mode='own', noloop=True),
                   dict(loop='single', N=4, kind='dirichlet', mode='own', noloop=True),
                   dict(loop='singles', N=3, kind='dirichlet', mode='own', noloop=True), dict(loop='singles', N=3, kind='dirichlet', mode='path', noloop=True)],
            thorough=[dict(loop='3x2', N=2, kind='dirichlet', mode='ali after'), dict(loop='mixed', N=3, kind='dirichlet', mode='own', twice=True),
                      dict(loop='2x2', N=4, kind='dirichlet', mode='own'), dict(loop='2x2', N=3, kind='dirichlet', mode='path')]),
]
