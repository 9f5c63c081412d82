from .common import *
from . import families as F
from . import nets
from .models import Simple, Mixture
from .n02 import gauss

BOUNDS = ('Bounds: 1-3 data points of dimension 1-2, latent dimension 1-2, 1-3 samples, encoders and decoders of one hidden layer of 1-2 units; normal and mixture priors; all data, '
          'weights, noise values, prior parameters and weights of the two terms arbitrary.')
ASSUMPTIONS = ['variances have a floor of 1e-5', 'the prior is evaluated at the statistics averaged over the samples of a data point',
               'the prior treats data points independently (a sequence model as prior couples them by design)']
PRIORS = dict(isotropic=lambda c, d: Simple(c, 'z', 'isonormalgamma', d), diagonal=lambda c, d: Simple(c, 'z', 'normalgamma', d), full=lambda c, d: Simple(c, 'z', 'normalwishart', d),
              mixture=lambda c, d: Mixture(c, 'z', 'isonormalgamma', d, 2), mixture_diag=lambda c, d: Mixture(c, 'z', 'normalgamma', d, 2))


class Net(torch.nn.Module):
    """any network with one hidden layer"""

    def __init__(self, ctx, tag, dim_in, dim_out):
        super().__init__()
        self.dim_in, self.dim_out = dim_in, dim_out
        self.lin = nets.weigh(ctx, torch.nn.Linear(dim_in, dim_out), tag)

    def forward(self, x):
        return torch.sigmoid(self.lin(x))

    def by_hand(self, ctx, x):
        return [nets.sigmoid(ctx, v) for v in nets.linear(ctx, self.lin, x)]


def average(ctx, rows):
    return ctx.sum(rows) / len(rows)


def prior_value(ctx, m, zs):
    """value of the prior at the averaged statistics"""
    if isinstance(m, Mixture):
        return ctx.logsumexp([average(ctx, list(v)) for v in zip(*[m.joint(z) for z in zs])])
    return average(ctx, [m.ellh(z) for z in zs])


def prior_stats(ctx, m, zs):
    if isinstance(m, Mixture):
        e = [ctx.exp(average(ctx, list(v))) for v in zip(*[m.joint(z) for z in zs])]
        r = [v / ctx.sum(e) for v in e]
        st = [average(ctx, list(v)) for v in zip(*[F.data_stats(ctx, m.fam, z) for z in zs])]
        return [[F.data_stats(ctx, 'dirichlet', r)], [[rk * v for v in st] for rk in r]]
    return [[[average(ctx, list(v)) for v in zip(*[F.data_stats(ctx, m.fam, z) for z in zs])]]]


def build(ctx, prior, D, L, H):
    from beer.models import VAE
    m = PRIORS[prior](ctx, L)
    vae = VAE(m.model, Net(ctx, 'e', D, H), Net(ctx, 'd', L, H))
    for n in ('enc_mean_layer', 'enc_var_layer', 'dec_mean_layer', 'dec_var_layer'):
        setattr(vae, n, nets.weigh(ctx, getattr(vae, n), n))
    return m, vae


def by_hand(ctx, m, vae, x, z):
    """terms of one data point given the noise of its samples"""
    fl = ctx.frac(1, 100000)
    h = vae.encoder.by_hand(ctx, x)
    mean = nets.linear(ctx, vae.enc_mean_layer, h)
    var = [fl + ctx.exp(v) for v in nets.linear(ctx, vae.enc_var_layer, h)]
    zs = [[a + ctx.sqrt(b) * c for a, b, c in zip(mean, var, r)] for r in z]
    q = average(ctx, [gauss(ctx, s, mean, var) for s in zs])
    llh = []
    for s in zs:
        g = vae.decoder.by_hand(ctx, s)
        llh.append(gauss(ctx, x, nets.linear(ctx, vae.dec_mean_layer, g), [fl + ctx.exp(v) for v in nets.linear(ctx, vae.dec_var_layer, g)]))
    return average(ctx, llh), q - prior_value(ctx, m, zs), zs


def noise(ctx, N, S, L, k):
    return [[[ctx.real('rnd%d' % (k + (n * S + s) * L + l)) for l in range(L)] for s in range(S)] for n in range(N)]


def value(ctx, prior, N, D, L, S, H=1, weights=True, again=False):
    m, vae = build(ctx, prior, D, L, H)
    if again:       # after other data
        vae.expected_log_likelihood(ctx.make([[ctx.real('o%d' % i) for i in range(D)]]), nsamples=2)
    X = [[ctx.real('x%d_%d' % (n, i)) for i in range(D)] for n in range(N)]
    a, b = (ctx.real('llh_weight'), ctx.real('kl_weight')) if weights else (ctx.frac(1), ctx.frac(1))
    kw = dict(llh_weight=ctx.make(a), kl_weight=ctx.make(b)) if weights else {}
    if S > 1 or not weights:
        kw['nsamples'] = S
    x = ctx.make(X)
    k = ctx.nrand
    out = vae.expected_log_likelihood(vae.sufficient_statistics(x), **kw)
    ctx.check('one value per data point', out.numel() == N and out.shape[0] == N)
    z = noise(ctx, N, S, L, k)
    terms = [by_hand(ctx, m, vae, X[n], z[n]) for n in range(N)]
    ctx.check_all_eq('value', out.reshape(-1), [a * t[0] - b * t[1] for t in terms])
    got = vae.accumulate(x)
    want = [prior_stats(ctx, m, t[2]) for t in terms]
    ctx.check('statistics of the prior only', len(got) == len(m.params) and all(p in got for p in m.params))
    for i, p in enumerate(m.params):
        tot = [[ctx.sum([w[i][r][j] for w in want]) for j in range(len(want[0][i][0]))] for r in range(len(want[0][i]))]
        ctx.check_all_eq('statistics %d' % i, got[p], m.shape(i, tot))
    ctx.check_all_eq('data untouched', x, X)


def objective(ctx, prior, N, D, L, S):
    import beer
    m, vae = build(ctx, prior, D, L, 1)
    X = [[ctx.real('x%d_%d' % (n, i)) for i in range(D)] for n in range(N)]
    k = ctx.nrand
    elbo = beer.evidence_lower_bound(vae, ctx.make(X), nsamples=S)
    ctx.nrand = k                # same noise again
    vals = ctx.scalars(vae.expected_log_likelihood(ctx.make(X), nsamples=S).reshape(-1))
    ctx.check_eq('objective', ctx.scalar(elbo.value), ctx.sum(vals) - m.kl())
    groups = vae.mean_field_factorization()
    ctx.check('the prior is what is trained', {p for g in groups for p in g} == set(m.params))
    own = m.model.mean_field_factorization()
    ctx.check('in the groups of the prior', len(groups) == len(own) and all(list(a) == list(b) for a, b in zip(groups, own)))
    p, q, r = (Simple(ctx, 'g%d' % i, 'isonormalgamma', L) for i in range(3))

    class Several(type(m.model)):
        def mean_field_factorization(self):
            return [[p.params[0]], [q.params[0], r.params[0]]]
    m.model.__class__ = Several
    groups = vae.mean_field_factorization()
    ctx.check('several groups stay apart', [list(g) for g in groups] == [[p.params[0]], [q.params[0], r.params[0]]])


def gradient(ctx, prior, S):
    """the objective is differentiable with respect to every layer"""
    m, vae = build(ctx, prior, 1, 1, 1)
    X = [[ctx.real('x0_0')]]
    k = ctx.nrand
    out = vae.expected_log_likelihood(ctx.make(X), nsamples=S)
    layers = (vae.enc_mean_layer, vae.enc_var_layer, vae.dec_mean_layer, vae.dec_var_layer, vae.encoder.lin, vae.decoder.lin)
    for layer in layers:
        g = torch.autograd.grad(out.sum(), [layer.weight, layer.bias], retain_graph=True, allow_unused=True)
        ctx.check('every layer is reached', all(v is not None for v in g))
    # the same value by plain operations; the prior's density of the averaged statistics is that of properties M01 and M08
    x, e = ctx.make(X), ctx.make(noise(ctx, 1, S, 1, k)[0])
    h = torch.sigmoid(nets.plain(vae.encoder.lin, x))
    mean, var = nets.plain(vae.enc_mean_layer, h), 1e-5 + nets.plain(vae.enc_var_layer, h).exp()
    z = mean + var ** .5 * e
    q = (-(z - mean) ** 2 / (2 * var) - var.log() / 2).sum() / S
    g = torch.sigmoid(nets.plain(vae.decoder.lin, z))
    mu, v = nets.plain(vae.dec_mean_layer, g), 1e-5 + nets.plain(vae.dec_var_layer, g).exp()
    llh = (-(x - mu) ** 2 / (2 * v) - v.log() / 2).sum() / S
    prior = m.model.expected_log_likelihood(m.model.sufficient_statistics(z).sum(dim=0, keepdim=True) / S).sum()
    nets.same_gradients(ctx, 'gradient', [out], [(llh - q + prior).reshape(1)], [w for l in layers for w in (l.weight, l.bias)])


Q = [dict(prior='isotropic', N=2, D=1, L=1, S=1, again=True), dict(prior='mixture', N=1, D=1, L=1, S=1, again=True), dict(prior='isotropic', N=2, D=1, L=1, S=2), dict(prior='diagonal', N=2, D=2, L=1, S=1), dict(prior='diagonal', N=1, D=1, L=2, S=2), dict(prior='mixture', N=2, D=1, L=1, S=1),
     dict(prior='mixture', N=1, D=1, L=1, S=2), dict(prior='full', N=2, D=1, L=2, S=1), dict(prior='isotropic', N=3, D=1, L=1, S=1, weights=False), dict(prior='mixture_diag', N=1, D=2, L=1, S=1, H=2), dict(prior='mixture_diag', N=2, D=1, L=1, S=2)]
HARNESSES = [
    Harness('value', value, about='value per data point and statistics of the prior', quick=Q,
            thorough=[dict(prior='diagonal', N=3, D=2, L=2, S=3), dict(prior='mixture', N=3, D=1, L=1, S=2), dict(prior='full', N=2, D=2, L=2, S=2), dict(prior='isotropic', N=4, D=2, L=2, S=2, H=2)]),
    Harness('objective', objective, about='bound of a data set', quick=[dict(prior=p, N=2, D=1, L=1, S=2) for p in ('isotropic', 'diagonal', 'mixture')],
            thorough=[dict(prior='full', N=3, D=1, L=2, S=2)]),
    Harness('gradient', gradient, about='derivatives with respect to all layers', quick=[dict(prior='isotropic', S=2), dict(prior='diagonal', S=1), dict(prior='mixture', S=1)],
            thorough=[dict(prior='mixture', S=2)]),
]
