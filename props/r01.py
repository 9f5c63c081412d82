import math
from fractions import Fraction

from .common import *
from . import families as F
from .models import conj, any_set

BOUNDS = ('Bounds: 2-4 components, 1-3 states (every sharing of densities over 2), 1-4 frames; scores anywhere in +-100000, weights of arcs in [1e-6, 1] with the listed zero patterns, '
          'concentrations in [1e-2, 100]; range of double precision (an exponential above exp(709) overflows, below exp(-708) vanishes).')
ASSUMPTIONS = ['rounding errors other than overflow and underflow are out of scope', 'the primitives logsumexp, softmax, softplus and sigmoid of torch are within range']
FAR = 100000


def score(ctx, name):
    return ctx.real(name, -FAR, FAR)


def sums(ctx, label, rows):
    for i, r in enumerate(ctx.scalars(rows)):
        ctx.check_eq('%s %d sums to one' % (label, i), ctx.sum(r), 1)


def lse(ctx, n, m, dim, holes=()):
    from beer.utils import logsumexp
    X = [[-math.inf if (i, j) in holes else score(ctx, 'x%d_%d' % (i, j)) for j in range(m)] for i in range(n)]
    with ctx.in_range('logsumexp'):
        out = logsumexp(ctx.make(X), dim=dim)
    ctx.finite('logsumexp', out)
    rows = X if dim else list(zip(*X))
    for i, (v, r) in enumerate(zip(ctx.scalars(out), rows)):
        r = [x for x in r if x != -math.inf] if holes else list(r)
        ctx.check_eq('value %d' % i, ctx.sum([ctx.exp(x - v) for x in r]), 1)


def weights(ctx, S, init=None, final=None, trans=None, tag=''):
    from beer.graph import CompiledGraph
    w = lambda n: ctx.real(tag + n, Fraction(1, 1000000), 1)
    init, final, trans = init or [1] * S, final or [1] * S, trans or [[1] * S for _ in range(S)]
    return CompiledGraph(ctx.make([w('i%d' % s) if init[s] else 0 for s in range(S)]).log(), ctx.make([w('f%d' % s) if final[s] else 0 for s in range(S)]).log(),
                         ctx.make([[w('t%d_%d' % (a, b)) if trans[a][b] else 0 for b in range(S)] for a in range(S)]).log())


def graph(ctx, S, N, **pat):
    g = weights(ctx, S, **pat)
    X = ctx.make([[score(ctx, 'x%d_%d' % (n, s)) for s in range(S)] for n in range(N)])
    with ctx.in_range('posteriors'):
        post, llh = g.posteriors(X)
    with ctx.in_range('posteriors and transitions'):
        (post2, trans), llh2 = g.posteriors(X, trans_posteriors=True)
    ctx.finite('posteriors', post, post2, trans, llh, llh2)
    sums(ctx, 'posteriors of frame', post)
    sums(ctx, 'posteriors of frame (again)', post2)
    sums(ctx, 'transitions after frame', trans.reshape(N - 1, -1) if N > 1 else trans.reshape(0, S * S))


def hmm(ctx, S, N, pdfs, ali=False):
    from beer.models import HMM
    n = max(pdfs) + 1
    g = weights(ctx, S)
    g.pdf_id_mapping = list(pdfs)
    em = any_set(ctx, n)
    m = HMM.create(g, em)
    kw = {}
    if ali:
        kw['inference_graph'] = weights(ctx, 2, init=[1, 0], final=[0, 1], trans=[[1, 1], [0, 1]], tag='ali_')
        kw['inference_graph'].pdf_id_mapping = [0, 1]
    data = ctx.make([[score(ctx, 'x%d_%d' % (i, k)) for k in range(n)] for i in range(N)])
    with ctx.in_range('training'):
        v = m.expected_log_likelihood(m.sufficient_statistics(data), **kw)
        acc = m.accumulate(data)[em.param]
    with ctx.in_range('posteriors'):
        post = m.posteriors(data, **kw)
    ctx.finite('training', v, acc, post)
    sums(ctx, 'responsibilities of frame', acc)
    sums(ctx, 'posteriors of frame', post)


def conc(ctx, K, tag):
    from beer.dists import Dirichlet
    from beer.models.parameters import ConjugateBayesianParameter
    lo = Fraction(1, 100)
    make = lambda t: Dirichlet.from_std_parameters(ctx.make([[ctx.real('%s%s%d' % (tag, t, k), lo, 100) for k in range(K)]])[0])
    return ConjugateBayesianParameter(make('p'), make('q'))


def mixture(ctx, K, N):
    from beer.models import Mixture, Categorical
    em = any_set(ctx, K)
    m = Mixture(Categorical(conc(ctx, K, 'w')), em)
    data = ctx.make([[score(ctx, 'x%d_%d' % (i, k)) for k in range(K)] for i in range(N)])
    with ctx.in_range('training'):
        v = m.expected_log_likelihood(m.sufficient_statistics(data))
        acc = m.accumulate(data)[em.param]
    with ctx.in_range('posteriors'):
        post = m.posteriors(data.clone())
    ctx.finite('training', v, acc, post)
    sums(ctx, 'responsibilities of point', acc)
    sums(ctx, 'posteriors of point', post)


def mixtures(ctx, M, K, N):
    """mixtures within an HMM: responsibilities of the components"""
    from beer.models import MixtureSet, CategoricalSet
    from beer.dists import Dirichlet
    from beer.models.parameters import ConjugateBayesianParameter
    em = any_set(ctx, M * K)
    lo = Fraction(1, 100)
    make = lambda t: Dirichlet.from_std_parameters(ctx.make([[ctx.real('%s%d_%d' % (t, i, k), lo, 100) for k in range(K)] for i in range(M)]))
    m = MixtureSet(CategoricalSet(ConjugateBayesianParameter(make('p'), make('q'))), em)
    data = ctx.make([[score(ctx, 'x%d_%d' % (i, k)) for k in range(M * K)] for i in range(N)])
    with ctx.in_range('training'):
        v = m.expected_log_likelihood(m.sufficient_statistics(data))
    resps = m.cache['resps']
    ctx.finite('training', v, resps)
    sums(ctx, 'responsibilities', resps.reshape(-1, K))


def categorical(ctx, K, N):
    """natural parameters far from zero: the log-normaliser, and the probabilities they stand for"""
    from beer.dists import Dirichlet
    lik = conc(ctx, K, 'c').likelihood_fn
    X = ctx.make([[score(ctx, 'x%d_%d' % (i, k)) for k in range(K - 1)] for i in range(N)])
    with ctx.in_range('log-normaliser'):
        vec = lik.pdfvectors_from_rvectors(X)
    ctx.finite('log-normaliser', vec)
    with ctx.in_range('probabilities'):
        p = lik.parameters_from_pdfvector(vec)
    ctx.finite('probabilities', p)
    sums(ctx, 'probabilities', p)


def bernoulli(ctx, D, N):
    """saturated outputs of a Bernoulli layer"""
    from beer import nnet
    l = nnet.BernoulliLayer(D, D)
    l.mean.weight, l.mean.bias = (torch.nn.Parameter(ctx.make(v)) for v in ([[int(i == j) for j in range(D)] for i in range(D)], [0] * D))
    X = ctx.make([[score(ctx, 'x%d_%d' % (n, i)) for i in range(D)] for n in range(N)])
    Y = ctx.make([[ctx.real('y%d_%d' % (n, i), 0, 1) for i in range(D)] for n in range(N)])
    with ctx.in_range('log-likelihood'):
        p = l(X)
        llh = l.log_likelihood(Y, p)
    ctx.finite('log-likelihood', p, llh)
    for i, v in enumerate(x for r in ctx.scalars(p) for x in r):
        ctx.check_le('mean %d at least zero' % i, 0, v)
        ctx.check_le('mean %d at most one' % i, v, 1)


LR = dict(init=[1, 0, 0], final=[0, 0, 1], trans=[[1, 1, 0], [0, 1, 1], [0, 0, 1]])
HARNESSES = [
    Harness('lse', lse, about='log of a sum of exponentials', quick=[dict(n=1, m=2, dim=1), dict(n=2, m=3, dim=1), dict(n=3, m=1, dim=0), dict(n=2, m=3, dim=1, holes=[(0, 0), (1, 2)])],
            thorough=[dict(n=2, m=4, dim=1), dict(n=4, m=2, dim=0)]),
    Harness('graph', graph, about='forward-backward far from the densities',
            quick=[dict(S=2, N=1), dict(S=2, N=2), dict(S=2, N=3), dict(S=3, N=2), dict(S=1, N=3), dict(S=3, N=4, **LR)], thorough=[dict(S=2, N=4), dict(S=3, N=3), dict(S=3, N=5, **LR)]),
    Harness('hmm', hmm, about='training of an HMM far from the densities', quick=[dict(S=2, N=2, pdfs=[0, 1]), dict(S=3, N=2, pdfs=[0, 1, 0]), dict(S=2, N=3, pdfs=[1, 0], ali=True)],
            thorough=[dict(S=2, N=3, pdfs=[0, 1]), dict(S=3, N=2, pdfs=[0, 1, 2])]),
    Harness('mixture', mixture, about='points far from every component', quick=[dict(K=2, N=2), dict(K=3, N=1)], thorough=[dict(K=4, N=2)]),
    Harness('mixtures', mixtures, about='points far from every component of every mixture', quick=[dict(M=2, K=2, N=1), dict(M=1, K=3, N=2)], thorough=[dict(M=3, K=3, N=2)]),
    Harness('bernoulli', bernoulli, about='saturated Bernoulli outputs', quick=[dict(D=1, N=1), dict(D=2, N=2)]),
    Harness('categorical', categorical, about='natural parameters of categorical distributions', quick=[dict(K=2, N=1), dict(K=3, N=2)], thorough=[dict(K=4, N=2)]),
]
