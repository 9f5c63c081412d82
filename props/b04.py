import copy

from .common import *
from . import nets
from .v01 import Setup, Target, weigh, latent, points, ISO, DIAG, FULL
from .v02 import PRIORS
from .models import Simple, conj

BOUNDS = ('Bounds: 1-2 data points or models of dimension 1-2, latent dimension 1-2, 1-2 samples, networks of one hidden layer of 1-2 units, 1-2 languages or classes; all data, statistics, '
          'parameters, priors and noise values arbitrary; every entry of every trained tensor.')
ASSUMPTIONS = ['noise is fixed (the gradient is that of the reparameterised estimate of the bound)', 'PyTorch\'s derivative formulas of single operations are executed symbolically, those of the operations without a formula there are modelled',
               'conjugate parameters are updated by natural gradient (B01, B03) and are held fixed here']


def check(ctx, objective, named, k=None, exact=lambda e: e.value):
    """objective() -> bound; after backward() every gradient is minus the derivative of the bound; exact: from what is
    reported to what is optimised"""
    k = ctx.nrand if k is None else k

    def evaluate():
        ctx.nrand = k
        return objective()
    for _, p in named:
        p.grad = None
    e = evaluate()
    e.backward()
    value = exact(e)
    value = ctx.scalar(value) if hasattr(value, 'dim') else value
    end = ctx.nrand
    for name, p in named:
        ctx.check('%s is trained' % name, p.grad is not None and tuple(p.grad.shape) == tuple(p.shape) or not p.numel())
    grads = [flat(ctx.scalars(p.grad)) if p.numel() and p.grad is not None else [] for _, p in named]
    if ctx.symbolic:
        from symx.diff import gradient
        xs = [flat(ctx.scalars(p.detach())) for _, p in named]
        ds = gradient(value, [x for v in xs for x in v])
        it = iter(ds)
        want = [[next(it) for _ in v] for v in xs]
    else:
        want = []
        for _, p in named:
            d = p.data.reshape(-1)
            w = []
            for i in range(len(d)):
                x, h = float(d[i]), 1e-3
                f = {}
                for s in (1, -1, 2, -2):
                    p.data.view(-1)[i] = x + s * h
                    f[s] = float(exact(evaluate()))
                p.data.view(-1)[i] = x
                if max(map(abs, f.values())) > 1e4:
                    w.append(None)      # too large for differences
                    continue
                w.append((8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h))
            want.append(w)
    ctx.nrand = end
    for (name, p), g, w in zip(named, grads, want):
        for i, (a, b) in enumerate(zip(g, w)):
            if b is not None:
                ctx.check_eq('derivative: %s[%d]' % (name, i), a, -b)
    return e


def flat(x):
    return [v for y in x for v in flat(y)] if isinstance(x, list) else [x]


class Any(torch.nn.Module):
    """an encoder whose output is arbitrary for every data point"""

    def __init__(self, ctx, N, D, H):
        super().__init__()
        self.dim_in, self.dim_out = D, H
        self.out = torch.nn.Parameter(ctx.tensor('e', (N, H)))

    def forward(self, x):
        return self.out


class Linear(torch.nn.Module):
    def __init__(self, ctx, dim_in, dim_out):
        super().__init__()
        self.dim_in, self.dim_out = dim_in, dim_out
        self.lin = nets.weigh(ctx, torch.nn.Linear(dim_in, dim_out), 'd')

    def forward(self, z):
        return self.lin(z)


def vae(ctx, prior, N, D, L, S, H=1, factor=1, weights=False):
    import beer
    from beer.models import VAE
    m = PRIORS[prior](ctx, L)
    v = VAE(m.model, Any(ctx, N, D, H), Linear(ctx, L, H))
    for n in ('enc_mean_layer', 'enc_var_layer', 'dec_mean_layer', 'dec_var_layer'):
        setattr(v, n, nets.weigh(ctx, getattr(v, n), n))
    X = points(ctx, N, D)
    kw = dict(llh_weight=ctx.make(ctx.real('llh_weight')), kl_weight=ctx.make(ctx.real('kl_weight'))) if weights else {}
    check(ctx, lambda: beer.evidence_lower_bound(v, ctx.make(X), datasize=factor * N, nsamples=S, **kw), list(v.named_parameters()))


def sequence(ctx, N, S, L=1, K=2, weights=False, init=None, final=None, trans=None):
    """the prior is a hidden Markov model: the gradient is that of the exact likelihood, all state sequences summed"""
    import beer
    from beer.models import VAE, HMM, NormalSet
    g, wi, wf, wt = compiled_graph(ctx, K, init, final, trans)
    g.pdf_id_mapping = list(range(K))
    param, _, _ = conj(ctx, 'isonormalgamma', L, K, 'c')
    prior = HMM.create(g, NormalSet(param))
    v = VAE(prior, Any(ctx, N, 1, 1), Linear(ctx, L, 1))
    for n in ('enc_mean_layer', 'enc_var_layer', 'dec_mean_layer', 'dec_var_layer'):
        setattr(v, n, nets.weigh(ctx, getattr(v, n), n))
    X = points(ctx, N, 1)
    wl, wk = (ctx.real('llh_weight'), ctx.real('kl_weight')) if weights else (1, 1)
    seen = {}
    run = prior.expected_log_likelihood

    def spy(stats, **kw):
        seen['stats'], seen['value'] = stats, run(stats, **kw)
        return seen['value']
    prior.expected_log_likelihood = spy

    def exact(e):
        sc = ctx.scalars(prior.modelset.expected_log_likelihood(seen['stats']))
        E = [[ctx.exp(sc[n][k]) for k in range(K)] for n in range(N)]
        Z = ctx.sum([path_weight(p, wi, wf, wt, E) for p in paths(K, N) if valid(p, wi, wf, wt)])
        return ctx.scalar(e.value) + wk * (ctx.log(Z) - ctx.sum(ctx.scalars(seen['value'])))
    check(ctx, lambda: beer.evidence_lower_bound(v, ctx.make(X), nsamples=S, llh_weight=ctx.make(wl), kl_weight=ctx.make(wk)), list(v.named_parameters()), exact=exact)


def gsm(ctx, kind, L, M, S, P, prior=ISO, cov='diagonal', factor=1):
    import beer
    c = Setup(ctx, kind, L, prior, M, cov)
    for d in (c.posts, c.tr.weights.posterior, c.tr.bias.posterior):
        del d.sample
    models = [copy.deepcopy(c.t.model) for _ in range(M)]
    for i, m in enumerate(models):
        c.t.random_stats(m, 'm%d' % i)
    ps = [('latent ' + n, p) for n, p in c.posts.named_parameters()] + [('map ' + n, p) for n, p in c.tr.named_parameters()]
    check(ctx, lambda: beer.evidence_lower_bound(c.gsm, models, datasize=factor * M, latent_posts=c.posts, latent_nsamples=S, params_nsamples=P), ps)


def classes(ctx, kind, L, E, K, M, S, P, labels=False):
    """mixture of subspaces"""
    import beer
    from beer.models import GSMSet, Mixture
    lat, dlat = latent(ctx, ISO, L), Simple(ctx, 'e', ISO, E)
    t = Target(ctx, kind, lat.model)
    g = GSMSet.create(t.model, K, L, E, lat.model, dlat.model)
    for n in ('transform', 'disc_transform'):
        weigh(ctx, getattr(g, n), n)
    weigh(ctx, g.means.posterior, 'mu')
    posts = weigh(ctx, g.new_latent_posteriors(M), 'q')
    mix = Mixture.create(g)
    models = [copy.deepcopy(t.model) for _ in range(M)]
    for i, m in enumerate(models):
        t.random_stats(m, 'm%d' % i)
    ps = [('latent ' + n, p) for n, p in posts.named_parameters()] + [('map ' + n, p) for n, p in g.named_parameters() if p.requires_grad]
    kw = dict(labels=torch.tensor([m % K for m in range(M)])) if labels else {}
    check(ctx, lambda: beer.evidence_lower_bound(mix, models, latent_posts=posts, latent_nsamples=S, params_nsamples=P, **kw), ps)


def languages(ctx, L, H, n, counts=(1, 1, 1)):
    import beer
    from beer.models import GSM, HierarchicalGSM
    from beer.models.gsm import AffineTransform, HierarchicalAffineTransform
    lat, univ = latent(ctx, ISO, L), Simple(ctx, 'u', ISO, H)
    t = Target(ctx, ('normal', ISO, 1, 1), lat.model)
    root = weigh(ctx, AffineTransform.create(H, (L + 1) * t.size()), 'r')
    hg = HierarchicalGSM(root, univ.model)
    subs, posts = [], []
    for i in range(n):
        tr = HierarchicalAffineTransform.create(univ.model, L, t.size(), root)
        weigh(ctx, tr.latent_posterior, 'lang%d' % i)
        g = GSM(t.model, tr, lat.model)
        posts.append(weigh(ctx, g.new_latent_posteriors(1), 'q%d' % i))
        m = copy.deepcopy(t.model)
        t.random_stats(m, 'm%d' % i)
        subs.append([g, [m]])
    ps = [('shared ' + k, p) for k, p in root.named_parameters()]
    for i in range(n):
        ps += [('language %d %s' % (i, k), p) for k, p in subs[i][0].transform.latent_posterior.named_parameters()] + [('position %d %s' % (i, k), p) for k, p in posts[i].named_parameters()]
    check(ctx, lambda: beer.evidence_lower_bound(hg, subs, latent_posts=posts, univ_latent_nsamples=counts[0], latent_nsamples=counts[1], params_nsamples=counts[2]), ps)


O = dict(tol=1e-4)
HARNESSES = [
    Harness('vae', vae, about='variational auto-encoder', opts=O, quick=[dict(prior='isotropic', N=2, D=1, L=1, S=1), dict(prior='diagonal', N=1, D=2, L=1, S=2, H=2), dict(prior='mixture', N=2, D=1, L=1, S=1, factor=3), dict(prior='full', N=1, D=1, L=2, S=1, weights=True)],
            thorough=[dict(prior='mixture', N=2, D=1, L=1, S=2)]),
    Harness('sequence', sequence, about='variational auto-encoder with a hidden Markov model as prior', opts=O, quick=[dict(N=2, S=1), dict(N=2, S=2, weights=True), dict(N=3, S=1, init=[1, 0], final=[0, 1], trans=[[1, 1], [0, 1]])]),
    Harness('gsm', gsm, about='subspace model', opts=O, quick=[dict(kind=('set', DIAG, 1, 1), L=1, M=2, S=1, P=1, factor=3), dict(kind=('set', ISO, 1, 2), L=1, M=1, S=2, P=1), dict(kind=('normal', ISO, 1, 1), L=2, M=1, S=1, P=1, cov='full'),
                                                              dict(kind=('mixture', ISO, 1, 2), L=1, M=1, S=1, P=1, prior='mixture'), dict(kind=('normal', FULL, 2, 1), L=1, M=1, S=1, P=1)]),
    Harness('classes', classes, about='mixture of subspaces', opts=O, quick=[dict(kind=('normal', ISO, 1, 1), L=1, E=1, K=2, M=1, S=1, P=1), dict(kind=('normal', ISO, 1, 1), L=1, E=1, K=2, M=2, S=1, P=1, labels=True)]),
    Harness('languages', languages, about='subspaces drawn from a space of subspaces', opts=O, quick=[dict(L=1, H=1, n=1), dict(L=1, H=1, n=2), dict(L=1, H=1, n=1, counts=(2, 1, 1))]),
]
