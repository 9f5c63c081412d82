from .common import *
from . import families as F
from .models import conj, any_set
from .m03 import graph, posteriors, pool
from .m05 import log_prob, update

BOUNDS = ('Bounds: loops of 2-3 units of 1-2 states (interleaved state orders included), 1-3 frames (5 without self-loops), histories of up to 2 weight updates with '
          'arbitrary counts and learning rate; Dirichlet, stick-breaking and stick-breaking with hyper-prior weights.')
ASSUMPTIONS = ['the self-loop of the last state of a unit is strictly between 0 and 1 (or absent)', 'start and end states are listed in the same unit order']

# unit -> states in order; the states of the units may be interleaved
LOOPS = {
    '2x2': [[0, 1], [2, 3]],
    'mixed': [[3, 1], [2, 0]],
    '2+3': [[0, 1], [2, 3, 4]],
    '3x2': [[0, 1], [2, 3], [4, 5]],
    'single': [[0], [1, 2]],
    'singles': [[0], [1], [2]],
}


class Loop:
    def __init__(self, ctx, name, n, noloop=False, ends=True):
        """graph of the loop; self.w* are the weights of its arcs (transitions between units not yet set)"""
        self.ctx = ctx
        self.units = LOOPS[name]
        self.U, self.S = len(self.units), sum(len(u) for u in self.units)
        self.starts, self.ends = [u[0] for u in self.units], [u[-1] for u in self.units]
        S = self.S
        pat = [[0] * S for _ in range(S)]
        for u in self.units:
            for a, b in zip(u, u[1:]):
                pat[a][b] = 1
            for a in u:
                pat[a][a] = 1
        self.pdfs = [s % n for s in range(S)]
        self.graph, self.wi, self.wf, self.wt = graph(ctx, S, self.pdfs, init=[int(s in self.starts) for s in range(S)],
                                                      final=[int(not ends or s in self.ends) for s in range(S)], trans=pat)
        for i, e in enumerate(self.ends):
            q = 0 if noloop and (i == 0 or name == 'singles') else ctx.prob('selfloop%d' % i)
            self.wt[e][e] = q
            self.graph.trans_log_probs[e, e] = ctx.make([q]).log()[0]
        # what the entries are before creation is irrelevant
        for e in self.ends:
            for s in self.starts:
                if e != s:
                    self.graph.trans_log_probs[e, s] = ctx.real('junk%d_%d' % (e, s))
        self.start_pdf = {'u%d' % i: s for i, s in enumerate(self.starts)}
        self.end_pdf = {'u%d' % i: s for i, s in enumerate(self.ends)}

    def weights(self, logw):
        """arc weights given the expected log weights logw[i][j] of unit j after unit i"""
        wt = [list(r) for r in self.wt]
        for i, e in enumerate(self.ends):
            for j, s in enumerate(self.starts):
                v = (1 - self.wt[e][e]) * self.ctx.exp(logw[i][j])
                wt[e][s] = self.wt[e][s] + v if e == s else v
        return wt

    def check(self, tag, logw):
        c, g = self.ctx, self.graph
        wt = self.weights(logw)
        c.check_all_eq(tag + 'arcs', g.trans_log_probs.exp(), wt)
        c.check_all_eq(tag + 'initial states', g.init_log_probs.exp(), self.wi)
        c.check_all_eq(tag + 'final states', g.final_log_probs.exp(), self.wf)
        return wt


def weights(ctx, kind, U):
    """-> model, parameter, state"""
    from beer.models import Categorical, SBCategorical, SBCategoricalHyperPrior
    from beer.models.parameters import ConjugateBayesianParameter
    if kind == 'dirichlet':
        p, ps, qs = conj(ctx, 'dirichlet', U, 0, 'w')
        return Categorical(p), p, [ps[0]['concentrations'], qs[0]['concentrations']]
    p, ps, qs = conj(ctx, 'dirichlet', 2, U, 'w')
    pr, conc = ([x['concentrations'] for x in l] for l in (ps, qs))
    if kind == 'sb':
        return SBCategorical(p), p, [pr, conc, list(range(U))]
    g, gp, gq = conj(ctx, 'gamma', 1, 0, 'g')
    alpha = gq[0]['shape'][0] / gq[0]['rate'][0]
    return SBCategoricalHyperPrior(p, g), p, [[[a, alpha] for a, _ in pr], conc, list(range(U)), None]


def logw(ctx, kind, state):
    if kind == 'dirichlet':
        a = state[1]
        return [ctx.digamma(x) - ctx.digamma(ctx.sum(a)) for x in a]
    return log_prob(ctx, state[1], state[2])


def change(ctx, kind, m, p, state, tag, lrate, stats=None):
    """one update of the weights -> new state"""
    if kind == 'dirichlet':
        pr, q = state
        n = [ctx.real('%sn%d' % (tag, k), 0) for k in range(len(q))]
        p.store_stats(ctx.make(F.data_stats(ctx, 'dirichlet', n)))
        p.natural_grad_update(lrate)
        return [pr, [(1 - lrate) * b + lrate * (a + c) for a, b, c in zip(pr, q, n)]]
    pr, conc, _ = state[:3]
    new, order = update(ctx, m, p, pr, conc, len(conc), tag, lrate)
    if kind == 'hyper':
        alpha = ctx.scalars(m.concentration.value())[0]
        pr = [[a, alpha] for a, _ in pr]
    return [pr, new, order] + state[3:]


def steps(ctx, loop, kind, n, rate, noloop=False):
    """transitions after creation and after every update"""
    from beer.models import PhoneLoop
    L = Loop(ctx, loop, 2, noloop)
    em = any_set(ctx, 2)
    cat, p, state = weights(ctx, kind, L.U)
    m = PhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, em, cat)
    L.check('', [logw(ctx, kind, state)] * L.U)
    for t in range(n):
        state = change(ctx, kind, cat, p, state, 'u%d ' % t, ctx.real('rate%d' % t, 0, 1) if rate else 1)
        L.check('after update %d: ' % t, [logw(ctx, kind, state)] * L.U)
    groups = [q for g in m.mean_field_factorization() for q in g]
    want = [em.param] + [q for g in cat.mean_field_factorization() for q in g]
    ctx.check('every parameter is trained once', len(groups) == len(want) and all(any(q is w for q in groups) for w in want))


def default(ctx, loop):
    """the default weights"""
    from beer.models import PhoneLoop
    L = Loop(ctx, loop, 2)
    s = ctx.pos('strength')
    m = PhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, any_set(ctx, 2), prior_strength=s)
    a = s / ctx.frac(L.U)
    L.check('', [[ctx.digamma(a) - ctx.digamma(s)] * L.U] * L.U)


def counts(ctx, L, resp, tr):
    """expected number of times each unit is entered"""
    return [ctx.sum([resp[0][s]] + [x[e][s] for x in tr for e in L.ends]) for s in L.starts]


def as_stats(ctx, kind, n):
    return F.data_stats(ctx, 'dirichlet', n) if kind == 'dirichlet' else n


def entered(ctx, L, wi, wf, wt, score):
    """expected number of entries by enumeration of the paths"""
    return counts(ctx, L, *posteriors(ctx, L.S, len(score), wi, wf, wt, score))


def train(ctx, loop, N, kind, mode, twice=False, noloop=False):
    from beer.models import PhoneLoop
    n = 2
    L = Loop(ctx, loop, n, noloop, ends=N > 1)
    em = any_set(ctx, n)
    cat, p, state = weights(ctx, kind, L.U)
    m = PhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, em, cat)
    if twice:
        state = change(ctx, kind, cat, p, state, 'u', 1)
    wt = L.weights([logw(ctx, kind, state)] * L.U)
    data = [[ctx.real('llh%d_%d' % (i, k)) for k in range(n)] for i in range(N)]
    scale = ctx.pos('scale')
    stats = m.sufficient_statistics(ctx.make(data))
    score = [[scale * data[i][k] for k in L.pdfs] for i in range(N)]

    def own(tag):
        m.expected_log_likelihood(stats, scale=scale)
        acc = m.accumulate(stats)
        ctx.check(tag + 'parameters', len(acc) == 2 and em.param in acc and p in acc)
        return acc

    def ali(tag):
        S2 = 2
        pdfs = [0, 1]
        g2, vi, vf, vt = graph(ctx, S2, pdfs, tag='ali_')
        m.expected_log_likelihood(stats, scale=scale, inference_graph=g2)
        acc = m.accumulate(stats)
        resp, _ = posteriors(ctx, S2, N, vi, vf, vt, [[scale * data[i][k] for k in pdfs] for i in range(N)])
        ctx.check_all_eq(tag + 'alignment: counts', acc[p], [0] * L.U)
        ctx.check_all_eq(tag + 'alignment: emission statistics', acc[em.param], pool(ctx, pdfs, [[scale * v for v in r] for r in resp], n))
    if mode == 'path':
        path = [ctx.choice('state%d' % i, L.S) for i in range(N)]
        m.expected_log_likelihood(stats, state_path=torch.tensor(path), scale=scale)
        acc = m.accumulate(stats)
        resp = [[int(s == q) for s in range(L.S)] for q in path]
        tr = [[[int(a == i and b == j) for j in range(L.S)] for i in range(L.S)] for a, b in zip(path, path[1:])]
        ctx.check_all_eq('counts', acc[p], as_stats(ctx, kind, counts(ctx, L, resp, tr)))
        return
    resp, tr = posteriors(ctx, L.S, N, L.wi, L.wf, wt, score)
    want = counts(ctx, L, resp, tr)
    if mode == 'ali first':
        ali('')
    acc = own('')
    ctx.check_all_eq('counts', acc[p], as_stats(ctx, kind, want))
    ctx.check_all_eq('emission statistics', acc[em.param], pool(ctx, L.pdfs, [[scale * v for v in r] for r in resp], n))
    if mode == 'ali after':
        ali('then ')


def single(ctx):
    """a unit of one state: its self-loop and the arc back to itself share one entry (KF-1)"""
    from beer.models import PhoneLoop
    L = Loop(ctx, 'single', 2)
    cat, p, state = weights(ctx, 'dirichlet', L.U)
    PhoneLoop.create(L.graph, L.start_pdf, L.end_pdf, any_set(ctx, 2), cat)
    state = change(ctx, 'dirichlet', cat, p, state, 'u', 1)
    wt = L.weights([logw(ctx, 'dirichlet', state)] * L.U)
    ctx.check_eq('arc from the unit of one state to the other unit', L.graph.trans_log_probs[0, 1].exp(), wt[0][1])


HARNESSES = [
    Harness('single', single, quick=[dict()], known='KF-1', known_label='arc from the unit of one state', about='units of one state'),
    Harness('steps', steps, about='transitions after creation and updates',
            quick=[dict(loop='2x2', kind='dirichlet', n=2, rate=True), dict(loop='mixed', kind='dirichlet', n=1, rate=True, noloop=True),
                   dict(loop='2x2', kind='sb', n=2, rate=False), dict(loop='3x2', kind='sb', n=1, rate=True), dict(loop='2+3', kind='hyper', n=2, rate=False)],
            thorough=[dict(loop='3x2', kind='dirichlet', n=3, rate=True), dict(loop='3x2', kind='sb', n=2, rate=False), dict(loop='3x2', kind='hyper', n=2, rate=False)]),
    Harness('default', default, quick=[dict(loop='2x2'), dict(loop='3x2')], about='default weights'),
    Harness('train', train, about='training counts',
            quick=[dict(loop='2x2', N=2, kind='dirichlet', mode='ali after'), dict(loop='mixed', N=2, kind='dirichlet', mode='ali first'),
                   dict(loop='2x2', N=1, kind='dirichlet', mode='own'), dict(loop='mixed', N=2, kind='sb', mode='own', twice=True), dict(loop='2x2', N=3, kind='dirichlet', mode='own'),
                   dict(loop='mixed', N=2, kind='dirichlet', mode='path'), dict(loop='single', N=2, kind='dirichlet', mode='own', noloop=True),
                   dict(loop='single', N=3, kind='dirichlet', mode='path'), dict(loop='2x2', N=5, kind='dirichlet', mode='own', noloop=True),
                   dict(loop='singles', N=2, kind='dirichlet', mode='own', noloop=True), dict(loop='singles', N=3, kind='dirichlet', mode='path', noloop=True)],
            thorough=[dict(loop='3x2', N=2, kind='dirichlet', mode='ali after'), dict(loop='mixed', N=3, kind='dirichlet', mode='own', twice=True),
                      dict(loop='2x2', N=4, kind='dirichlet', mode='own'), dict(loop='2x2', N=3, kind='dirichlet', mode='path')]),
]
