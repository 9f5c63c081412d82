"""models with arbitrary parameters and their quantities by hand"""
import torch

from . import families as F


def conj(ctx, fam, dim, K, tag):
    """-> (parameter, prior std parameters, posterior std parameters); K = 0: a single distribution"""
    from beer.models.parameters import ConjugateBayesianParameter
    ps = [F.params(ctx, fam, dim, '%sp%d' % (tag, k)) for k in range(K or 1)]
    qs = [F.params(ctx, fam, dim, '%sq%d' % (tag, k)) for k in range(K or 1)]
    return ConjugateBayesianParameter(F.build(ctx, fam, ps, K > 0), F.build(ctx, fam, qs, K > 0)), ps, qs


class Base:
    def nats(self):
        return [self.ctx.scalars(p.posterior.natural_parameters()) for p in self.params]

    def shape(self, k, rows):
        return rows if self.sizes[k] else rows[0]

    def klsum(self, *items):
        return self.ctx.sum([F.kl(self.ctx, f, q, p) for f, ps, qs in items for p, q in zip(ps, qs)])


class Simple(Base):
    def __init__(self, ctx, tag='', fam=None, dim=1):
        from beer.models import Normal, Categorical
        self.ctx, self.fam, self.dim, self.tag = ctx, fam, dim, tag
        p, self.ps, self.qs = conj(ctx, fam, dim, 0, tag + 'm')
        self.model = (Categorical if fam == 'dirichlet' else Normal)(p)
        self.params, self.sizes = [p], [0]

    def point(self, name):
        c = self.ctx
        if self.fam == 'dirichlet':
            lab = c.integer(self.tag + name, 0, self.dim - 1)
            return [c.ite(c.equal(lab, i), c.frac(1), c.frac(0)) for i in range(self.dim)]
        return [c.real('%s_%d' % (name, i)) for i in range(self.dim)]

    def ellh(self, x):
        return F.exp_density(self.ctx, self.fam, self.qs[0], x)

    def kl(self):
        return self.klsum((self.fam, self.ps, self.qs))

    def stats(self, x):
        return [[F.data_stats(self.ctx, self.fam, x)]]


class Mixture(Base):
    def __init__(self, ctx, tag='', fam='isonormalgamma', dim=1, K=2):
        from beer.models import Mixture as M, NormalSet, Categorical
        self.ctx, self.fam, self.dim, self.K = ctx, fam, dim, K
        pw, self.wp, self.wq = conj(ctx, 'dirichlet', K, 0, tag + 'w')
        pc, self.cp, self.cq = conj(ctx, fam, dim, K, tag + 'c')
        self.model = M(Categorical(pw), NormalSet(pc))
        self.params, self.sizes = [pw, pc], [0, K]

    def point(self, name):
        return [self.ctx.real('%s_%d' % (name, i)) for i in range(self.dim)]

    def joint(self, x):
        c, a = self.ctx, self.wq[0]['concentrations']
        return [c.digamma(a[k]) - c.digamma(c.sum(a)) + F.exp_density(c, self.fam, self.cq[k], x) for k in range(self.K)]

    def resps(self, x):
        e = [self.ctx.exp(v) for v in self.joint(x)]
        s = self.ctx.sum(e)
        return [v / s for v in e]

    def ellh(self, x):
        return self.ctx.logsumexp(self.joint(x))

    def kl(self):
        return self.klsum(('dirichlet', self.wp, self.wq), (self.fam, self.cp, self.cq))

    def stats(self, x):
        r = self.resps(x)
        st = F.data_stats(self.ctx, self.fam, x)
        return [[F.data_stats(self.ctx, 'dirichlet', r)], [[rk * v for v in st] for rk in r]]


def maker(cls, **kw):
    return lambda ctx, tag='': cls(ctx, tag, **kw)


MODELS = dict(
    isotropic=maker(Simple, fam='isonormalgamma', dim=2),
    diagonal=maker(Simple, fam='normalgamma', dim=2),
    full=maker(Simple, fam='normalwishart', dim=2),
    full1=maker(Simple, fam='normalwishart', dim=1),
    categorical=maker(Simple, fam='dirichlet', dim=3),
    mixture=maker(Mixture, dim=1, K=2),
)


def any_set(ctx, n, name='emission'):
    """an emission set with arbitrary values: the data are the values of the n models, and the statistics handed back are the
    responsibilities themselves, so that what a user of the set does can be observed for every possible set"""
    from beer.models import ModelSet

    class AnySet(ModelSet):
        def __init__(self):
            super().__init__()
            self.param, _, _ = conj(ctx, 'isonormalgamma', 1, 0, name)

        def __len__(self):
            return n

        def __getitem__(self, k):
            raise NotImplementedError

        def mean_field_factorization(self):
            return [[self.param]]

        def sufficient_statistics(self, data):
            return data

        def expected_log_likelihood(self, stats):
            return stats

        def accumulate(self, stats, resps):
            return {self.param: resps}
    return AnySet()
