from .common import *
from . import families as F
from .models import conj, any_set

BOUNDS = ('Bounds: graphs of 1-3 states with arbitrary positive weights and the listed zero patterns, 1-3 frames (4 and 7 left-to-right, 9 on a given path), every '
          'sharing of 1-3 densities chosen symbolically; emission scores of an arbitrary emission set are arbitrary reals, scale arbitrary.')


def graph(ctx, S, pdfs, init=None, final=None, trans=None, tag=''):
    g, wi, wf, wt = compiled_graph(ctx, S, init, final, trans, tag)
    g.pdf_id_mapping = list(pdfs)
    return g, wi, wf, wt


def posteriors(ctx, S, N, wi, wf, wt, score):
    """score[n][s]; -> state posteriors and transition posteriors by enumeration of the paths"""
    E = [[ctx.exp(score[n][s]) for s in range(S)] for n in range(N)]
    Z, gam = 0, [[0] * S for _ in range(N)]
    tr = [[[0] * S for _ in range(S)] for _ in range(N - 1)]
    for p in paths(S, N):
        if valid(p, wi, wf, wt):
            w = path_weight(p, wi, wf, wt, E)
            Z = Z + w
            for n, s in enumerate(p):
                gam[n][s] = gam[n][s] + w
                if n:
                    tr[n - 1][p[n - 1]][s] = tr[n - 1][p[n - 1]][s] + w
    return [[x / Z for x in r] for r in gam], [[[x / Z for x in r] for r in m] for m in tr]


def pool(ctx, pdfs, resp, n):
    return [[ctx.sum([r[s] for s, p in enumerate(pdfs) if p == k]) for k in range(n)] for r in resp]


def mapping(ctx, S, n, tag=''):
    return [ctx.choice('%spdf%d' % (tag, s), n) for s in range(S)]


def setup(ctx, S, N, n, **pat):
    from beer.models import HMM
    pdfs = mapping(ctx, S, n)
    g, wi, wf, wt = graph(ctx, S, pdfs, **pat)
    em = any_set(ctx, n)
    m = HMM.create(g, em)
    data = [[ctx.real('llh%d_%d' % (i, k)) for k in range(n)] for i in range(N)]
    return m, em, pdfs, wi, wf, wt, data


def check_pass(ctx, m, em, data, pdfs, resp, scale, tag, **kw):
    """one training pass: values, statistics"""
    n, N = len(data[0]), len(data)
    stats = m.sufficient_statistics(ctx.make(data))
    val = m.expected_log_likelihood(stats, scale=scale, **kw)
    score = [[scale * data[i][p] for p in pdfs] for i in range(N)]
    ctx.check_all_eq(tag + 'per-frame values', val, [ctx.sum([r * s for r, s in zip(resp[i], score[i])]) for i in range(N)])
    acc = m.accumulate(stats)
    ctx.check(tag + 'emission parameters only', list(acc) == [em.param])
    ctx.check_all_eq(tag + 'emission statistics', acc[em.param], pool(ctx, pdfs, [[scale * v for v in r] for r in resp], n))


def train(ctx, S, N, n, scaled=True, **pat):
    m, em, pdfs, wi, wf, wt, data = setup(ctx, S, N, n, **pat)
    scale = ctx.pos('scale') if scaled else 1
    score = [[scale * data[i][p] for p in pdfs] for i in range(N)]
    resp, _ = posteriors(ctx, S, N, wi, wf, wt, score)
    check_pass(ctx, m, em, data, pdfs, resp, scale, '')
    ctx.check_all_eq('stand-alone posteriors', m.posteriors(ctx.make(data), scale=scale), resp)


def alignment(ctx, S, N, n, S2, use):
    """a graph supplied for one utterance is used for that call and only for that call"""
    m, em, pdfs, wi, wf, wt, data = setup(ctx, S, N, n)
    pdfs2 = mapping(ctx, S2, n, 'ali_')
    pat = dict(init=[1] + [0] * (S2 - 1), final=[0] * (S2 - 1) + [1], trans=[[int(j in (i, i + 1)) for j in range(S2)] for i in range(S2)])
    g2, vi, vf, vt = graph(ctx, S2, pdfs2, tag='ali_', **pat)
    score2 = [[data[i][p] for p in pdfs2] for i in range(N)]
    resp2, _ = posteriors(ctx, S2, N, vi, vf, vt, score2)
    score = [[data[i][p] for p in pdfs] for i in range(N)]
    resp, _ = posteriors(ctx, S, N, wi, wf, wt, score)
    if use == 'train':
        check_pass(ctx, m, em, data, pdfs2, resp2, 1, 'alignment: ', inference_graph=g2)
        check_pass(ctx, m, em, data, pdfs, resp, 1, 'afterwards: ')
    elif use == 'around':
        check_pass(ctx, m, em, data, pdfs, resp, 1, 'before: ')
        check_pass(ctx, m, em, data, pdfs2, resp2, 1, 'alignment: ', inference_graph=g2)
    else:
        ctx.check_all_eq('posteriors on the alignment graph', m.posteriors(ctx.make(data), inference_graph=g2), resp2)
        ctx.check_all_eq('posteriors on the graph of the model', m.posteriors(ctx.make(data)), resp)


def given_path(ctx, S, N, n):
    m, em, pdfs, wi, wf, wt, data = setup(ctx, S, N, n)
    path = [ctx.choice('state%d' % i, S) for i in range(N)]
    resp = [[int(s == p) for s in range(S)] for p in path]
    check_pass(ctx, m, em, data, pdfs, resp, ctx.pos('scale'), '', state_path=torch.tensor(path))


def weight_of(ctx, p, wi, wf, wt, score):
    r = ctx.log(wi[p[0]]) + ctx.log(wf[p[-1]])
    for i, s in enumerate(p):
        r = r + score[i][s]
        if i:
            r = r + ctx.log(wt[p[i - 1]][s])
    return r


def viterbi(ctx, S, N, n, other=False, **pat):
    """training on the best path and decoding follow a path that no path of the graph in use beats"""
    m, em, pdfs, wi, wf, wt, data = setup(ctx, S, N, n, **pat)
    kw = {}
    if other:       # decode on a graph supplied for the call
        pdfs = mapping(ctx, S, n, 'ali_')
        g, wi, wf, wt = graph(ctx, S, pdfs, tag='ali_')
        kw = dict(inference_graph=g)
    scale = ctx.pos('scale')
    score = [[scale * data[i][p] for p in pdfs] for i in range(N)]
    eps = 0 if ctx.symbolic else 1e-9
    ok = [p for p in paths(S, N) if valid(p, wi, wf, wt)]
    w = {p: weight_of(ctx, p, wi, wf, wt, score) for p in ok}
    dec = [ctx.scalar(v) for v in m.decode(ctx.make(data), scale=scale, **kw)]
    ctx.check('one density per frame', len(dec) == N)

    def optimal(p):
        return ctx.and_(*[ctx.le(w[q], w[p] + eps) for q in ok if q != p])
    ctx.check('densities along a best path', ctx.or_(*[ctx.and_(optimal(p), *[ctx.equal(dec[i], pdfs[s]) for i, s in enumerate(p)]) for p in ok]))
    stats = m.sufficient_statistics(ctx.make(data))
    val = ctx.scalars(m.expected_log_likelihood(stats, viterbi=True, scale=scale, **kw))
    acc = ctx.scalars(m.accumulate(stats)[em.param])
    best = []
    for p in ok:
        resp = [[int(s == q) for s in range(S)] for q in p]
        want = pool(ctx, pdfs, [[scale * v for v in r] for r in resp], n)
        eq = [close(ctx, acc[i][k], want[i][k]) for i in range(N) for k in range(n)]
        eq += [close(ctx, val[i], score[i][p[i]]) for i in range(N)]
        best.append(ctx.and_(optimal(p), *eq))
    ctx.check('values and statistics along a best path', ctx.or_(*best))


def close(ctx, a, b):
    return ctx.equal(a, b) if ctx.symbolic else abs(a - b) <= 1e-6 * max(1, abs(b))


def normals(ctx, S, N):
    """with Normal emissions"""
    from beer.models import HMM, NormalSet
    fam = 'isonormalgamma'
    p, _, qs = conj(ctx, fam, 1, 2, 'e')
    pdfs = ([0, 1, 1] * 2)[:S]
    g, wi, wf, wt = graph(ctx, S, pdfs)
    m = HMM.create(g, NormalSet(p))
    X = [[ctx.real('x%d' % i)] for i in range(N)]
    scale = ctx.pos('scale')
    score = [[scale * F.exp_density(ctx, fam, qs[k], x) for k in pdfs] for x in X]
    resp, _ = posteriors(ctx, S, N, wi, wf, wt, score)
    stats = m.sufficient_statistics(ctx.make(X))
    ctx.check_all_eq('values', m.expected_log_likelihood(stats, scale=scale), [ctx.sum([a * b for a, b in zip(r, s)]) for r, s in zip(resp, score)])
    st = [F.data_stats(ctx, fam, x) for x in X]
    po = pool(ctx, pdfs, resp, 2)
    ctx.check_all_eq('statistics', m.accumulate(stats)[p],
                     [[ctx.sum([scale * po[i][k] * st[i][d] for i in range(N)]) for d in range(len(st[0]))] for k in range(2)])


LR = dict(S=3, init=[1, 0, 0], final=[0, 0, 1], trans=[[1, 1, 0], [0, 1, 1], [0, 0, 1]])
LR2 = dict(S=2, init=[1, 0], final=[0, 1], trans=[[1, 1], [0, 1]])
HARNESSES = [
    Harness('train', train, about='values, statistics and stand-alone posteriors',
            quick=[dict(S=2, N=2, n=2), dict(S=2, N=3, n=2), dict(S=2, N=1, n=3), dict(N=3, n=2, **LR), dict(S=1, N=2, n=1), dict(N=7, n=2, **LR2)],
            thorough=[dict(S=3, N=2, n=3), dict(N=4, n=3, **LR), dict(S=2, N=4, n=2, scaled=False)]),
    Harness('alignment', alignment, about='alignment graphs',
            quick=[dict(S=2, N=2, n=2, S2=2, use=u) for u in ('train', 'around', 'post')],
            thorough=[dict(S=2, N=3, n=2, S2=3, use=u) for u in ('train', 'around', 'post')]),
    Harness('given_path', given_path, quick=[dict(S=2, N=2, n=2), dict(S=3, N=1, n=2), dict(S=2, N=3, n=3), dict(S=1, N=9, n=2)], about='training on a given path',
            thorough=[dict(S=3, N=3, n=3)]),
    Harness('viterbi', viterbi, quick=[dict(S=2, N=2, n=2), dict(S=2, N=1, n=2), dict(N=3, n=3, **LR), dict(S=2, N=2, n=2, other=True), dict(N=7, n=2, **LR2)],
            thorough=[dict(S=2, N=3, n=2), dict(S=3, N=2, n=2)], about='best path: training and decoding'),
    Harness('normals', normals, quick=[dict(S=2, N=2), dict(S=3, N=1)], thorough=[dict(S=2, N=3)], about='with Normal emissions'),
]
