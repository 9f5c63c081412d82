import copy
import math

from .common import *
from . import families as F
from . import nets
from .d03 import density, coords
from .models import Simple, Mixture, conj
from .n02 import gauss
from .v02 import average, prior_value, prior_stats

BOUNDS = ('Bounds: 1-3 models, latent dimension 1-2, 1-2 samples of latent positions and of subspace parameters, target models of 1-2 normal densities (dimension 1-2) or of mixtures of two; '
          'all data, statistics, drawn positions and transformations, latent posteriors and priors arbitrary.')
ASSUMPTIONS = ['latent and subspace variances have the floor of the library (1e-4; 1e-3 on the diagonal of the factor of a full covariance)',
               'the latent prior is evaluated at the statistics averaged over the samples of a model',
               'the constant of the base measure is not part of the data term',
               'draws are arbitrary values (how they are drawn is D02)']
LIK = dict(isonormalgamma='isotropic', normalgamma='diagonal', normalwishart='full', dirichlet='categorical')


# ----------------------------------------------------------------------
# arbitrary distributions and draws
def weigh(ctx, mod, tag):
    """replace parameters and buffers (priors) by arbitrary values"""
    nets.weigh(ctx, mod, tag)
    for i, (name, b) in enumerate(list(mod.named_buffers())):
        owner = mod
        *path, last = name.split('.')
        for a in path:
            owner = getattr(owner, a)
        setattr(owner, last, ctx.tensor('%sb%d' % (tag, i), tuple(b.shape)))
    return mod


def fix(ctx, dist, tag):
    """draws become arbitrary values; -> list with the values of each call"""
    calls = []
    shape = tuple(dist.params.mean.shape)

    def sample(n):
        c = len(calls)
        K = shape[0] if len(shape) > 1 else 1
        v = [[[ctx.real('%s%d_%d_%d_%d' % (tag, c, k, s, i)) for i in range(shape[-1])] for s in range(n)] for k in range(K)]
        if len(shape) == 1:
            v = v[0]
        calls.append(v)
        return ctx.make(v)
    dist.sample = sample
    return calls


def moments(ctx, d):
    """mean and variances of a distribution with mean and log-variances"""
    fl = ctx.frac(1, 10000)
    m, l = ctx.scalars(d.params.mean), ctx.scalars(d.params.log_diag_cov)
    f = lambda r: [fl + ctx.exp(v) for v in r]
    return (m, [f(r) for r in l]) if isinstance(m[0], list) else (m, f(l))


def kl_diag(ctx, p):
    half = ctx.frac(1, 2)
    (mq, vq), (mp, vp) = moments(ctx, p.posterior), moments(ctx, p.prior)
    return ctx.sum([half * (ctx.log(b) - ctx.log(a) + (a + (x - y) * (x - y)) / b - 1) for x, a, y, b in zip(mq, vq, mp, vp)])


def kl(ctx, p):
    """divergence of a parameter as computed by its distributions (decided by D02 and the harness 'transform')"""
    return ctx.scalar(p.kl_div_posterior_prior().sum())


def kl_model(ctx, m):
    return ctx.sum([kl(ctx, p) for p in m.params])


def factor(ctx, d, k):
    """mean and triangular factor of the covariance"""
    m = ctx.scalars(d.params.mean)[k]
    n = len(m)
    dg, off = ctx.scalars(d.params.log_diag_L)[k], ctx.scalars(d.params.L_offdiag)[k] if n > 1 else []
    L, j = [[0] * n for _ in range(n)], 0
    for a in range(n):
        L[a][a] = ctx.frac(1, 1000) + ctx.exp(dg[a])
        for b in range(a):
            L[a][b] = off[j]
            j += 1
    return m, L


def latent_density(ctx, posts, cov, k, h):
    if cov == 'diagonal':
        m, v = moments(ctx, posts)
        return gauss(ctx, h, m[k], v[k])
    m, L = factor(ctx, posts, k)
    y = []
    for a in range(len(m)):
        y.append((h[a] - m[a] - ctx.sum([L[a][b] * y[b] for b in range(a)])) / L[a][a])
    return ctx.frac(-1, 2) * (ctx.sum([v * v for v in y]) + F.tri_logdet(ctx, L)) + F.lognormal_const(ctx, len(m))


# ----------------------------------------------------------------------
# target models
class Target:
    """a model whose parameters live in a subspace"""

    def __init__(self, ctx, kind, lat, tag=''):
        """kind: (what, family, dimension, number) or ('mixtures', family, dimension, number, components)"""
        from beer.models import NormalSet, MixtureSet, CategoricalSet, Normal, Mixture as M, Categorical
        from beer.models.gsm import SubspaceBayesianParameter as SBP
        self.ctx, self.kind = ctx, kind
        what, fam, dim, n = kind[:4]
        self.what, self.fam, self.dim, self.n = what, fam, dim, n
        self.G = kind[4] if len(kind) > 4 else 1
        cp = conj(ctx, fam, dim, 0 if what == 'normal' else n * self.G, tag + 'c')[0]
        if what == 'normal':
            self.model = Normal(cp)
        elif what == 'set':
            self.model = NormalSet(cp)
        elif what == 'mixture':
            self.G, self.n = n, 1
            self.model = M(Categorical(conj(ctx, 'dirichlet', n, 0, tag + 'w')[0]), NormalSet(cp))
        else:
            self.model = MixtureSet(CategoricalSet(conj(ctx, 'dirichlet', self.G, n, tag + 'w')[0]), NormalSet(cp))
        rep = {p: SBP.from_parameter(p, lat) for p in self.model.bayesian_parameters()}
        self.model.replace_parameters(rep)

    def layout(self, n=None):
        """(likelihood, dimension, number of densities) of each parameter, in the order of the model"""
        n = n or self.n
        out = []
        for p in self.model.bayesian_parameters():
            if 'Categorical' in type(p.likelihood_fn).__name__:
                out.append(('categorical', self.G, n))
            else:
                out.append((LIK[self.fam], self.dim, n * self.G))
        return out

    def size(self, n=None):
        return sum(coords(self.ctx, l, d) * m for l, d, m in self.layout(n))

    def split(self, r, n=None):
        """coordinates -> {likelihood: rows}"""
        out, i = {}, 0
        for l, d, m in self.layout(n):
            c = coords(self.ctx, l, d)
            out['w' if l == 'categorical' else 'c'] = [r[i + k * c:i + (k + 1) * c] for k in range(m)]
            i += c * m
        return out

    def values(self, rs, x, n=None):
        """value of each model at a data point, at positions averaged over the coordinates rs"""
        ctx = self.ctx
        n = n or self.n
        rs = [self.split(r, n) for r in rs]
        comp = [average(ctx, [density(ctx, LIK[self.fam], self.dim, r['c'][k], x)[0] for r in rs]) for k in range(n * self.G)]
        if 'w' not in rs[0]:
            return comp
        out = []
        for u in range(n):
            lw = [average(ctx, [self.logw(r['w'][u])[g] for r in rs]) for g in range(self.G)]
            out.append(ctx.logsumexp([a + b for a, b in zip(lw, comp[u * self.G:(u + 1) * self.G])]))
        return out

    def logw(self, r):
        z = self.ctx.log(1 + self.ctx.sum([self.ctx.exp(v) for v in r]))
        return [v - z for v in r] + [-z]

    def check_values(self, label, model, rs, xs, n=None):
        st = model.sufficient_statistics(self.ctx.make(xs))
        got = model.expected_log_likelihood(st).reshape(len(xs), -1)
        self.ctx.check_all_eq(label, got, [self.values(rs, x, n) for x in xs])

    # --- statistics
    def random_stats(self, model, tag, n=None):
        """statistics of arbitrary weighted data; -> function coordinates -> data term (without base measure)"""
        ctx = self.ctx
        n = n or self.n
        terms = []
        for p, (l, d, m) in zip(model.bayesian_parameters(), self.layout(n)):
            rows, mine = [], []
            for k in range(m):
                if l == 'categorical':
                    w = [ctx.real('%sw%d_%d' % (tag, k, i)) for i in range(d)]
                    rows.append(F.data_stats(ctx, 'dirichlet', w))
                    mine.append(w)
                else:
                    w, x = ctx.real('%so%d' % (tag, k)), [ctx.real('%sx%d_%d' % (tag, k, i)) for i in range(d)]
                    rows.append([w * v for v in F.data_stats(ctx, self.fam, x)])
                    mine.append((w, x))
            p.stats = ctx.make(rows if len(p.stats.shape) > 1 else rows[0])
            terms.append((l, mine))

        def term(r):
            r, out = self.split(r, n), []
            for l, mine in terms:
                for k, v in enumerate(mine):
                    if l == 'categorical':
                        out += [a * b for a, b in zip(v, self.logw(r['w'][k]))]
                    else:
                        out.append(v[0] * (density(ctx, l, self.dim, r['c'][k], v[1])[0] - F.lognormal_const(ctx, self.dim)))
            return ctx.sum(out)
        return term


def affine(ctx, h, W, b, O):
    return [ctx.sum([h[i] * W[i * O + o] for i in range(len(h))]) + (b[o] if b else 0) for o in range(O)]


def latent(ctx, kind, L):
    return Mixture(ctx, 'l', 'isonormalgamma', L, 2) if kind == 'mixture' else Simple(ctx, 'l', kind, L)


def points(ctx, N, D, tag='x'):
    return [[ctx.real('%s%d_%d' % (tag, n, i)) for i in range(D)] for n in range(N)]


class Setup:
    def __init__(self, ctx, kind, L, prior='isonormalgamma', M=1, cov='diagonal'):
        from beer.models import GSM
        self.ctx, self.cov = ctx, cov
        self.lat = latent(ctx, prior, L)
        self.t = Target(ctx, kind, self.lat.model)
        self.gsm = GSM.create(self.t.model, L, self.lat.model)
        self.O = self.t.size()
        self.tr = weigh(ctx, self.gsm.transform, 't')
        self.Ws, self.bs = fix(ctx, self.tr.weights.posterior, 'W'), fix(ctx, self.tr.bias.posterior, 'b')
        self.posts = weigh(ctx, self.gsm.new_latent_posteriors(M, cov), 'q')
        self.hs = fix(ctx, self.posts, 'h')

    def coords(self, k, call=-1):
        """coordinates of model k for all pairs of draws"""
        return [affine(self.ctx, h, W, b, self.O) for h in self.hs[call][k] for W, b in zip(self.Ws[call], self.bs[call])]


# ----------------------------------------------------------------------
def transform(ctx, kind, I, O, N, S):
    from beer.models.gsm import AffineTransform, LinearTransform
    t = (AffineTransform if kind == 'affine' else LinearTransform).create(I, O)
    ctx.check('dimensions', (t.in_dim, t.out_dim) == (I, O))
    W = fix(ctx, t.weights.posterior, 'W')
    b = fix(ctx, t.bias.posterior, 'b') if kind == 'affine' else None
    X = points(ctx, N, I)
    out = t(ctx.make(X), S)
    ctx.check_all_eq('image', out, [[affine(ctx, x, W[0][s], b and b[0][s], O) for s in range(S)] for x in X])
    weigh(ctx, t, 't')
    ps = [t.weights, t.bias] if b else [t.weights]
    if I * O <= 3:
        for p in ps:
            ctx.check_eq('divergence of one parameter', kl(ctx, p), kl_diag(ctx, p))
    ctx.check_eq('divergence', ctx.scalar(t.kl_div_posterior_prior().sum()), ctx.sum([kl(ctx, p) for p in ps]))


def strength(ctx, kind, s):
    """the prior has precision s, up to the floor of the variances"""
    from beer.models.gsm import AffineTransform, LinearTransform, GSM, GSMSet
    if kind in ('model', 'set'):
        lat, dlat = latent(ctx, 'isonormalgamma', 2), Simple(ctx, 'e', 'isonormalgamma', 3)
        target = Target(ctx, ('set', 'isonormalgamma', 1, 1), lat.model).model
        g = GSM.create(target, 2, lat.model, prior_strength=s) if kind == 'model' else GSMSet.create(target, 2, 2, 3, lat.model, dlat.model, prior_strength=s)
        ps = [p for n in ('transform', 'disc_transform') if hasattr(g, n) for p in getattr(g, n).bayesian_parameters()]
        ctx.check('maps', len(ps) == (2 if kind == 'model' else 3))
        if kind == 'set':
            initial(ctx, g.means.posterior, 'diagonal', 3)
    else:
        ps = (AffineTransform if kind == 'affine' else LinearTransform).create(2, 3, prior_strength=s).bayesian_parameters()
    for p in ps:
        v = p.prior.params.diag_cov.reshape(-1).tolist()
        m = p.prior.params.mean.reshape(-1).tolist()
        ctx.check('prior', all(a == 0 for a in m) and all(abs(a - 1e-4 - 1. / s) < 1e-5 for a in v))


def hierarchical(ctx, I, O, L, N, S, P):
    from beer.models.gsm import AffineTransform, HierarchicalAffineTransform
    root = AffineTransform.create(L, (I + 1) * O)
    lat = latent(ctx, 'isonormalgamma', L)
    t = HierarchicalAffineTransform.create(lat.model, I, O, root)
    ctx.check('dimensions', (t.in_dim, t.out_dim) == (I, O))
    initial(ctx, t.latent_posterior, 'diagonal', L)
    W, b, H = fix(ctx, root.weights.posterior, 'W'), fix(ctx, root.bias.posterior, 'b'), fix(ctx, t.latent_posterior, 'h')
    X = points(ctx, N, I)
    out = t(ctx.make(X), S, P)
    ctx.check('shape', tuple(out.shape) == (N, S * P, O))
    r = [affine(ctx, h, W[0][p], b[0][p], (I + 1) * O) for h in H[0][0] for p in range(P)]
    ctx.check_all_eq('image', out, [[affine(ctx, x, v[:I * O], v[I * O:], O) for v in r] for x in X])


def initial(ctx, d, cov, L):
    mean = d.params.mean.reshape(-1).tolist()
    ld = (d.params.log_diag_cov if cov == 'diagonal' else d.params.log_diag_L).reshape(-1).tolist()
    ctx.check('initial posteriors', all(v == 0 for v in mean) and all(abs(v + math.log(L)) < 1e-6 for v in ld))


def positions(ctx, cov, L, K):
    """densities and draws of latent posteriors; initial values"""
    from beer.models.gsm import GSM
    lat = latent(ctx, 'isonormalgamma', L)
    gsm = GSM.create(Target(ctx, ('set', 'isonormalgamma', 1, 1), lat.model).model, L, lat.model)
    d = gsm.new_latent_posteriors(K, cov)
    ctx.check('one posterior per model', len(d) == K and d.dim == L)
    initial(ctx, d, cov, L)
    weigh(ctx, d, 'q')
    X = points(ctx, K, L)
    ctx.check_all_eq('density', d(d.sufficient_statistics(ctx.make(X)), pdfwise=True), [latent_density(ctx, d, cov, k, X[k]) for k in range(K)])
    k0 = ctx.nrand
    got = ctx.scalars(d.sample(2))
    for k in range(K):
        for s in range(2):
            z = [ctx.real('rnd%d' % (k0 + (k * 2 + s) * L + i)) for i in range(L)]
            if cov == 'diagonal':
                m, v = moments(ctx, d)
                want = [a + ctx.sqrt(b) * c for a, b, c in zip(m[k], v[k], z)]
            else:
                m, F_ = factor(ctx, d, k)
                want = [m[i] + ctx.sum([F_[i][j] * z[j] for j in range(i + 1)]) for i in range(L)]
            ctx.check_all_eq('draw %d %d' % (k, s), got[k][s], want)


def placed(ctx, kind, L, M, S, P, N=1):
    """models placed at latent positions"""
    c = Setup(ctx, kind, L, M=M)
    ctx.check('dimension of the space', c.gsm.transform.out_dim == c.O)
    models = [copy.deepcopy(c.t.model) for _ in range(M)]
    other = copy.deepcopy(c.t.model)
    zero = [ctx.scalars(p.pdfvec) for p in other.bayesian_parameters()]
    pv = c.gsm.expected_pdfvecs(c.posts, latent_nsamples=S, params_nsamples=P)
    c.gsm.update_models(models, pv)
    X = points(ctx, N, kind[2])
    for m in range(M):
        c.t.check_values('model %d' % m, models[m], c.coords(m), X)
    for p, z in zip(other.bayesian_parameters(), zero):
        ctx.check_all_eq('other models are left alone', p.pdfvec, z)


def fresh(ctx, kind, L, M, S, P):
    """new models are placed at draws of their new posteriors"""
    c = Setup(ctx, kind, L)
    k0 = ctx.nrand
    models, posts = c.gsm.new_models(M, latent_nsamples=S, params_nsamples=P)
    ctx.check('number of models', len(models) == M and len(posts) == M)
    v = ctx.scalars(posts.params.mean), ctx.scalars(posts.params.diag_cov)
    z = [[[ctx.real('rnd%d' % (k0 + (m * S + s) * L + i)) for i in range(L)] for s in range(S)] for m in range(M)]
    c.hs.append([[[v[0][m][i] + ctx.sqrt(v[1][m][i]) * z[m][s][i] for i in range(L)] for s in range(S)] for m in range(M)])
    X = points(ctx, 1, kind[2])
    for m in range(M):
        c.t.check_values('model %d' % m, models[m], c.coords(m), X)
        ctx.check('posterior of the models', all(p.posterior is posts for p in models[m].bayesian_parameters()))


def views(ctx, kind, L, per, nested=False):
    """groups of a set of models, placed at their own positions, are parts of the set"""
    from beer.models import GSM
    lat = latent(ctx, 'isonormalgamma', L)
    t = Target(ctx, kind, lat.model)
    M = kind[3] // per
    units = [t.model[m * per:(m + 1) * per] for m in range(M)]
    if nested:         # parts of parts
        units = [t.model[min(m, 1) * per:kind[3]][max(m - 1, 0) * per:max(m, 1) * per] for m in range(M)]
    gsm = GSM.create(copy.deepcopy(units[0]), L, lat.model)
    O = t.size(per)
    ctx.check('dimension of the space', gsm.transform.out_dim == O)
    Ws, bs = fix(ctx, gsm.transform.weights.posterior, 'W'), fix(ctx, gsm.transform.bias.posterior, 'b')
    posts = weigh(ctx, gsm.new_latent_posteriors(M), 'q')
    hs = fix(ctx, posts, 'h')
    stats = [t.random_stats(u, 's%d' % m, per) for m, u in enumerate(units)]
    got = gsm.sufficient_statistics(units)
    ctx.check('one row of statistics per group', len(got) == M)
    # the statistics of the groups are those of the set
    for p in t.model.bayesian_parameters():
        whole = ctx.scalars(p.stats)
        k = len(whole) // M
        parts = [q for u in units for q in u.bayesian_parameters() if type(q.likelihood_fn) is type(p.likelihood_fn)]
        for m, q in enumerate(parts):
            ctx.check_all_eq('statistics of group %d' % m, q.stats, whole[m * k:(m + 1) * k])
            ctx.check('size of group', len(q) == k)
    val = gsm.expected_log_likelihood(got, latent_posts=posts)
    coords_ = [[affine(ctx, h, Ws[0][0], bs[0][0], O) for h in hs[0][m]] for m in range(M)]
    for m in range(M):
        lkl = average(ctx, [latent_density(ctx, posts, 'diagonal', m, h) for h in hs[0][m]]) - prior_value(ctx, lat, hs[0][m])
        ctx.check_eq('value of group %d' % m, ctx.scalars(val)[m], average(ctx, [stats[m](r) for r in coords_[m]]) - lkl)
    X = points(ctx, 1, kind[2])
    for m in range(M):
        t.check_values('group %d' % m, units[m], coords_[m], X, per)
    want = [[v for m in range(M) for v in t.values(coords_[m], x, per)] for x in X]
    got = t.model.expected_log_likelihood(t.model.sufficient_statistics(ctx.make(X)))
    ctx.check_all_eq('the set', got, want)
    e = t.model[kind[3] - 1]
    ctx.check_all_eq('element of the set', e.expected_log_likelihood(e.sufficient_statistics(ctx.make(X))).reshape(-1), [w[-1] for w in want])


def parameters(ctx, fam, dim, K):
    """the value of a placed parameter: mean and precision of the mapped density"""
    c = Setup(ctx, ('set', fam, dim, K), 1)
    pv = c.gsm.expected_pdfvecs(c.posts)
    c.gsm.update_models([c.t.model], pv)
    p = c.t.model.means_precisions
    rows = c.t.split(c.coords(0)[0])['c']
    std = [density(ctx, LIK[fam], dim, r, [ctx.frac(0)] * dim)[1] for r in rows]
    for i, v in enumerate(p.value()):
        ctx.check_all_eq('parameter %d' % i, v, [s[i] for s in std])
    for k in range(K):
        for i, v in enumerate(p[k].value()):
            ctx.check_all_eq('parameter %d of element %d' % (i, k), v.reshape(-1), flat(std[k][i]))
    ctx.check('no divergence of its own', float(p.kl_div_posterior_prior()) == 0)


def flat(x):
    return [y for v in x for y in flat(v)] if isinstance(x, list) else [x]


def value(ctx, kind, L, M, S, P, prior='isonormalgamma', cov='diagonal', update=True):
    c = Setup(ctx, kind, L, prior, M, cov)
    models = [copy.deepcopy(c.t.model) for _ in range(M)]
    before = [[ctx.scalars(p.pdfvec) for p in m.bayesian_parameters()] for m in models]
    terms = [c.t.random_stats(m, 'm%d' % i) for i, m in enumerate(models)]
    st = c.gsm.sufficient_statistics(models)
    kw = {} if update else dict(update_models=False)
    out = c.gsm.expected_log_likelihood(st, latent_posts=c.posts, latent_nsamples=S, params_nsamples=P, **kw)
    ctx.check('one value per model', tuple(out.shape) == (M,))
    want = []
    for m in range(M):
        hs = c.hs[0][m]
        lkl = average(ctx, [latent_density(ctx, c.posts, cov, m, h) for h in hs]) - prior_value(ctx, c.lat, hs)
        want.append(average(ctx, [terms[m](r) for r in c.coords(m)]) - lkl)
    ctx.check_all_eq('value', out, want)
    X = points(ctx, 1, kind[2])
    for m in range(M):
        if update:
            c.t.check_values('model %d is placed' % m, models[m], c.coords(m), X)
        else:
            ctx.check_all_eq('model %d is left alone' % m, [p.pdfvec for p in models[m].bayesian_parameters()], before[m])
    got = c.gsm.accumulate(st)
    w = [prior_stats(ctx, c.lat, c.hs[0][m]) for m in range(M)]
    ctx.check('statistics of the latent prior only', len(got) == len(c.lat.params) and all(p in got for p in c.lat.params))
    for i, p in enumerate(c.lat.params):
        tot = [[ctx.sum([v[i][r][j] for v in w]) for j in range(len(w[0][i][0]))] for r in range(len(w[0][i]))]
        ctx.check_all_eq('statistics %d' % i, got[p], c.lat.shape(i, tot))


def objective(ctx, kind, L, M, S, P, prior='isonormalgamma', factor=1):
    import beer
    c = Setup(ctx, kind, L, prior, M)
    models = [copy.deepcopy(c.t.model) for _ in range(M)]
    for i, m in enumerate(models):
        c.t.random_stats(m, 'm%d' % i)
    elbo = beer.evidence_lower_bound(c.gsm, models, datasize=factor * M, latent_posts=c.posts, latent_nsamples=S, params_nsamples=P)
    again = iter([(c.hs[0], c.posts), (c.Ws[0], c.tr.weights.posterior), (c.bs[0], c.tr.bias.posterior)])
    for v, d in again:
        d.sample = lambda n, v=v: ctx.make(v)
    vals = ctx.scalars(c.gsm.expected_log_likelihood(c.gsm.sufficient_statistics(models), latent_posts=c.posts, latent_nsamples=S, params_nsamples=P))
    want = factor * ctx.sum(vals) - kl(ctx, c.tr.weights) - kl(ctx, c.tr.bias) - kl_model(ctx, c.lat)
    ctx.check_eq('objective', ctx.scalar(elbo.value), want)
    params = {p for g in c.gsm.mean_field_factorization() for p in g}
    ctx.check('what is trained', params == {*c.lat.params, c.tr.weights, c.tr.bias})


def gradient(ctx, cov, prior):
    """the objective depends on every parameter of the posteriors and of the transformation, and on nothing stored in the models"""
    c = Setup(ctx, ('set', 'normalgamma', 1, 1), 2 if cov == 'full' else 1, prior, 1, cov)
    for d in (c.posts, c.tr.weights.posterior, c.tr.bias.posterior):
        del d.sample
    models = [copy.deepcopy(c.t.model)]
    c.t.random_stats(models[0], 'm')
    out = c.gsm.expected_log_likelihood(c.gsm.sufficient_statistics(models), latent_posts=c.posts)
    ps = list(c.posts.parameters()) + list(c.tr.parameters())
    ctx.check('number of parameters', len(ps) == (3 if cov == 'full' else 2) + 4)
    g = torch.autograd.grad(out.sum(), ps, allow_unused=True)
    ctx.check('everything is reached', all(v is not None for v in g))
    ctx.check('models do not hold on to the graph', all(not p.pdfvec.requires_grad for p in models[0].bayesian_parameters()))


class SetSetup:
    def __init__(self, ctx, kind, L, E, K, M):
        from beer.models import GSMSet
        self.lat, self.dlat = latent(ctx, 'isonormalgamma', L), Simple(ctx, 'e', 'isonormalgamma', E)
        self.t = Target(ctx, kind, self.lat.model)
        self.gsm = g = GSMSet.create(self.t.model, K, L, E, self.lat.model, self.dlat.model)
        self.O = self.t.size()
        for n in ('transform', 'disc_transform'):
            weigh(ctx, getattr(g, n), n)
        weigh(ctx, g.means.posterior, 'mu')
        self.W, self.b = fix(ctx, g.transform.weights.posterior, 'W'), fix(ctx, g.transform.bias.posterior, 'b')
        self.V, self.m = fix(ctx, g.disc_transform.weights.posterior, 'V'), fix(ctx, g.means.posterior, 'm')
        self.posts = weigh(ctx, g.new_latent_posteriors(M), 'q')
        self.h = fix(ctx, self.posts, 'h')
        self.models = [copy.deepcopy(self.t.model) for _ in range(M)]


def classes(ctx, kind, L, E, K, M, S, P):
    """several subspaces sharing one: value per model and class, and placement by responsibilities"""
    c = SetSetup(ctx, kind, L, E, K, M)
    g, O = c.gsm, c.O
    ctx.check('size', len(g) == K)
    terms = [c.t.random_stats(m, 'm%d' % i) for i, m in enumerate(c.models)]
    st = g.sufficient_statistics(c.models)
    out = g.expected_log_likelihood(st, latent_posts=c.posts, latent_nsamples=S, params_nsamples=P)
    H, MU = c.h[0], c.m[0]

    def rs(k, m):
        a = [affine(ctx, h, W, b, O) for h in H[m] for W, b in zip(c.W[0], c.b[0])]
        d = [affine(ctx, u, V, None, O) for u in MU[k] for V in c.V[0]]
        return [[x + y for x, y in zip(p, q)] for p, q in zip(a, d)]
    want = []
    for m in range(M):
        lkl = average(ctx, [latent_density(ctx, c.posts, 'diagonal', m, h) for h in H[m]]) - prior_value(ctx, c.lat, H[m])
        want.append([average(ctx, [terms[m](r) for r in rs(k, m)]) - lkl for k in range(K)])
    ctx.check_all_eq('value', out, want)
    mkl = ctx.sum([average(ctx, [latent_density(ctx, g.means.posterior, 'diagonal', k, u) for u in MU[k]]) - prior_value(ctx, c.dlat, MU[k]) for k in range(K)])
    ctx.check_eq('divergence of the class positions', ctx.scalar(g.means.kl_div_posterior_prior()), mkl)
    tot = ctx.scalar(g.means.kl_div_posterior_prior()) + ctx.sum([kl(ctx, p) for p in (g.transform.weights, g.transform.bias, g.disc_transform.weights)]) + kl_model(ctx, c.lat) + kl_model(ctx, c.dlat)
    ctx.check_eq('divergence', ctx.scalar(g.kl_div_posterior_prior().sum()), tot)
    R = [[ctx.prob('resp%d_%d' % (m, k)) for k in range(K)] for m in range(M)]
    got = g.accumulate(st, ctx.make(R))
    for src, hs in ((c.lat, H), (c.dlat, MU)):
        w = [prior_stats(ctx, src, h)[0][0] for h in hs]
        ctx.check_all_eq('statistics', got[src.params[0]], [ctx.sum(list(v)) for v in zip(*w)])
    ctx.check('nothing else', len(got) == 2)
    X = points(ctx, 1, kind[2])
    for m in range(M):
        vals = [c.t.values(rs(k, m), X[0]) for k in range(K)]
        # per-class values are affine in the parameter vector, up to the constant of the base measure
        base = F.lognormal_const(ctx, kind[2])
        mix = [ctx.sum([R[m][k] * (vals[k][j] - base) for k in range(K)]) + base for j in range(len(vals[0]))]
        e = c.models[m]
        ctx.check_all_eq('model %d' % m, e.expected_log_likelihood(e.sufficient_statistics(ctx.make(X))).reshape(-1), mix)


def languages(ctx, L, H, n):
    """several subspaces drawn from one space of subspaces"""
    import beer
    from beer.models import GSM, HierarchicalGSM
    from beer.models.gsm import AffineTransform, HierarchicalAffineTransform
    lat, univ = latent(ctx, 'isonormalgamma', L), Simple(ctx, 'u', 'isonormalgamma', H)
    t = Target(ctx, ('set', 'isonormalgamma', 1, 1), lat.model)
    O = t.size()
    root = weigh(ctx, AffineTransform.create(H, (L + 1) * O), 'r')
    Wr, br = fix(ctx, root.weights.posterior, 'W'), fix(ctx, root.bias.posterior, 'b')
    hg = HierarchicalGSM(root, univ.model)
    subs, posts, models, draws = [], [], [], []
    for i in range(n):
        tr = HierarchicalAffineTransform.create(univ.model, L, O, root)
        weigh(ctx, tr.latent_posterior, 'lang%d' % i)
        g = GSM(t.model, tr, lat.model)
        p = weigh(ctx, g.new_latent_posteriors(1), 'q%d' % i)
        m = copy.deepcopy(t.model)
        term = t.random_stats(m, 'm%d' % i)
        draws.append((fix(ctx, tr.latent_posterior, 'u%d' % i), fix(ctx, p, 'h%d' % i), term))
        subs.append((g, [m]))
        posts.append(p)
    st = hg.sufficient_statistics(subs)
    out = hg.expected_log_likelihood(st, latent_posts=posts, univ_latent_nsamples=2)
    want = []
    for i, (U, h, term) in enumerate(draws):
        post = subs[i][0].transform.latent_posterior
        r = [affine(ctx, u, W, b, (L + 1) * O) for u in U[0][0] for W, b in zip(Wr[i], br[i])]
        data = average(ctx, [term(affine(ctx, x, v[:L * O], v[L * O:], O)) for x in h[0][0] for v in r])
        lkl = average(ctx, [latent_density(ctx, posts[i], 'diagonal', 0, x) for x in h[0][0]]) - prior_value(ctx, lat, h[0][0])
        ukl = average(ctx, [latent_density(ctx, post, 'diagonal', 0, x) for x in U[1][0]]) - prior_value(ctx, univ, U[1][0])
        want.append(data - lkl - ukl - kl_model(ctx, lat))
    ctx.check_all_eq('value', out.reshape(-1), want)
    got = hg.accumulate(st)
    w = [prior_stats(ctx, univ, d[0][1][0])[0][0] for d in draws]
    ctx.check_all_eq('statistics', got[univ.params[0]], [ctx.sum(list(v)) for v in zip(*w)])
    ctx.check_eq('divergence', ctx.scalar(hg.kl_div_posterior_prior().sum()), kl_model(ctx, univ) + kl(ctx, root.weights) + kl(ctx, root.bias))


ISO, DIAG, FULL = 'isonormalgamma', 'normalgamma', 'normalwishart'
SETS = [('set', ISO, 2, 2), ('set', DIAG, 2, 2), ('set', FULL, 2, 1), ('normal', DIAG, 2, 1), ('normal', ISO, 1, 1), ('mixture', ISO, 1, 2), ('mixtures', DIAG, 1, 2, 2)]
HARNESSES = [
    Harness('transform', transform, about='affine and linear maps of latent positions and their divergence',
            quick=[dict(kind=k, I=i, O=o, N=n, S=s) for k in ('affine', 'linear') for i, o, n, s in ((1, 1, 1, 1), (2, 3, 2, 2), (3, 2, 1, 2), (2, 1, 3, 1))]),
    Harness('strength', strength, about='prior of the transformation', quick=[dict(kind=k, s=s) for k in ('affine', 'linear', 'model', 'set') for s in (1., 4., .5)]),
    Harness('hierarchical', hierarchical, about='maps drawn from a space of maps', quick=[dict(I=2, O=2, L=1, N=2, S=1, P=2), dict(I=1, O=3, L=2, N=1, S=2, P=2)],
            thorough=[dict(I=3, O=2, L=2, N=2, S=2, P=3)]),
    Harness('positions', positions, about='latent posteriors', quick=[dict(cov=c, L=l, K=k) for c in ('diagonal', 'full') for l, k in ((1, 1), (2, 1), (2, 2), (1, 3))],
            thorough=[dict(cov='full', L=3, K=1), dict(cov='diagonal', L=3, K=2)]),
    Harness('placed', placed, about='models placed at latent positions', quick=[dict(kind=k, L=1, M=1, S=1, P=1) for k in SETS] +
            [dict(kind=('set', DIAG, 1, 2), L=2, M=2, S=2, P=1), dict(kind=('set', ISO, 1, 1), L=1, M=2, S=2, P=2), dict(kind=('mixtures', ISO, 1, 2, 2), L=1, M=2, S=1, P=1), dict(kind=('normal', FULL, 1, 1), L=1, M=1, S=1, P=2)],
            thorough=[dict(kind=k, L=2, M=2, S=2, P=2, N=2) for k in SETS[:4]] + [dict(kind=('mixtures', DIAG, 2, 2, 2), L=1, M=2, S=1, P=2)]),
    Harness('fresh', fresh, about='new models', quick=[dict(kind=('set', DIAG, 1, 1), L=1, M=2, S=1, P=1), dict(kind=('mixtures', ISO, 1, 1, 2), L=1, M=1, S=2, P=1), dict(kind=('set', ISO, 1, 2), L=2, M=2, S=1, P=2)]),
    Harness('views', views, about='groups of a set placed in the subspace', quick=[dict(kind=('set', DIAG, 1, 4), L=1, per=2), dict(kind=('mixtures', ISO, 1, 4, 2), L=1, per=2), dict(kind=('mixtures', ISO, 1, 2, 2), L=1, per=1),
            dict(kind=('set', ISO, 1, 2), L=2, per=1), dict(kind=('mixtures', DIAG, 1, 2, 2), L=1, per=1, nested=True), dict(kind=('set', ISO, 1, 4), L=1, per=2, nested=True)],
            thorough=[dict(kind=('mixtures', DIAG, 1, 6, 2), L=1, per=3), dict(kind=('mixtures', DIAG, 2, 4, 2), L=2, per=2)]),
    Harness('parameters', parameters, about='standard parameters of placed densities', quick=[dict(fam=f, dim=d, K=k) for f in (ISO, DIAG, FULL) for d, k in ((1, 2), (2, 1), (2, 2))]),
    Harness('value', value, about='value per model, placement and statistics of the latent prior',
            quick=[dict(kind=('set', DIAG, 1, 2), L=1, M=2, S=2, P=1), dict(kind=('mixtures', ISO, 1, 2, 2), L=1, M=2, S=1, P=1), dict(kind=('normal', ISO, 2, 1), L=2, M=1, S=1, P=2),
                   dict(kind=('set', ISO, 1, 1), L=2, M=2, S=2, P=1, cov='full'), dict(kind=('set', ISO, 1, 1), L=1, M=2, S=1, P=1, prior='mixture'), dict(kind=('set', ISO, 1, 2), L=1, M=2, S=1, P=1, update=False),
                   dict(kind=('mixture', DIAG, 1, 2), L=1, M=1, S=2, P=2, prior=DIAG), dict(kind=('set', FULL, 2, 1), L=2, M=1, S=1, P=1, prior=FULL)],
            thorough=[dict(kind=('mixtures', DIAG, 1, 2, 2), L=2, M=3, S=2, P=2, prior=DIAG), dict(kind=('set', DIAG, 2, 2), L=2, M=2, S=2, P=2, cov='full', prior=FULL)]),
    Harness('objective', objective, about='bound', quick=[dict(kind=('set', ISO, 1, 1), L=1, M=2, S=2, P=1), dict(kind=('set', DIAG, 1, 1), L=1, M=2, S=1, P=2, prior='mixture', factor=3), dict(kind=('mixtures', ISO, 1, 1, 2), L=1, M=1, S=1, P=1, prior=FULL)]),
    Harness('gradient', gradient, about='everything takes part', quick=[dict(cov=c, prior=p) for c in ('diagonal', 'full') for p in (ISO, 'mixture')]),
    Harness('classes', classes, about='subspaces of several classes', quick=[dict(kind=('set', ISO, 1, 1), L=1, E=1, K=2, M=2, S=1, P=1), dict(kind=('set', DIAG, 1, 2), L=1, E=2, K=2, M=1, S=2, P=1), dict(kind=('set', ISO, 1, 1), L=2, E=1, K=3, M=2, S=1, P=2)]),
    Harness('languages', languages, about='spaces of subspaces', quick=[dict(L=1, H=1, n=2), dict(L=2, H=1, n=1)]),
]
