from .common import *
from . import families as F
from .d01 import SCAL, cfgs


BOUNDS = ('Bounds: support dimension 1 to 3 (matrices up to 2x2 quick, 3x3 thorough), one distribution or a batch of 2 (3 thorough); '
          'two draws.')


def gradient(ctx, fam, dim, K):
    """d log-normaliser = E[statistics] . d natural parameters"""
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    args = {}
    for n in F.ORDER[fam]:
        args[n] = ctx.make([p[n] for p in ps] if K else ps[0][n]).requires_grad_(True)
    d = F.CLS[fam].from_std_parameters(**args)
    leaves = [args[n] for n in F.ORDER[fam]]
    A = d.log_norm()
    E = d.expected_sufficient_statistics().detach()
    eta = d.natural_parameters()
    ctx.check('one set of statistics per distribution', tuple(E.shape) == tuple(eta.shape))
    lhs = torch.autograd.grad(A.sum(), leaves, allow_unused=True)
    rhs = torch.autograd.grad((E * eta).sum(), leaves, allow_unused=True)
    for n, a, b, leaf in zip(F.ORDER[fam], lhs, rhs, leaves):
        a = torch.zeros_like(leaf) if a is None else a
        b = torch.zeros_like(leaf) if b is None else b
        if n in ('cov', 'scale_matrix'):      # derivative along symmetric directions
            a, b = a + a.transpose(-1, -2), b + b.transpose(-1, -2)
        ctx.check_all_eq('d/d' + n, a, b)


def divergence(ctx, fam, dim, K):
    from beer.dists import kl_div
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    qs = [F.params(ctx, fam, dim, 'q%d' % k) for k in range(K or 1)]
    p, q = F.build(ctx, fam, ps, batch=K > 0), F.build(ctx, fam, qs, batch=K > 0)
    ctx.check_all_eq('KL', kl_div(p, q).reshape(-1), [F.kl(ctx, fam, a, b) for a, b in zip(ps, qs)])
    ctx.check_all_eq('KL(p, p)', kl_div(p, p).reshape(-1), [0] * (K or 1))


def mean_entropy(ctx, fam, dim):
    """expected value and entropy against the textbook"""
    from beer.dists import entropy
    p = F.params(ctx, fam, dim, 'p')
    d = F.build(ctx, fam, [p])
    h = ctx.scalar(entropy(d))
    S, lo, lg, ps = ctx.sum, ctx.log, ctx.lgamma, ctx.digamma
    half = ctx.frac(1, 2)
    v = d.expected_value()
    if fam == 'dirichlet':
        a = p['concentrations']
        ctx.check_all_eq('mean', v, [x / S(a) for x in a])
        ctx.check_eq('entropy', h, S([lg(x) for x in a]) - lg(S(a)) - S([(x - 1) * (ps(x) - ps(S(a))) for x in a]))
    elif fam == 'gamma':
        ctx.check_all_eq('mean', v, [a / b for a, b in zip(p['shape'], p['rate'])])
        ctx.check_eq('entropy', h, S([a - lo(b) + lg(a) + (1 - a) * ps(a) for a, b in zip(p['shape'], p['rate'])]))
    elif fam == 'normaldiag':
        ctx.check_all_eq('mean', v, p['mean'])
        ctx.check_eq('entropy', h, S([half * (1 + lo(2 * ctx.pi) + lo(s)) for s in p['diag_cov']]))
    elif fam == 'normalfull':
        ctx.check_all_eq('mean', v, p['mean'])
        ctx.check_eq('entropy', h, half * (dim * (1 + lo(2 * ctx.pi)) + F.tri_logdet(ctx, p['_L'])))
    elif fam in ('isonormalgamma', 'normalgamma'):
        b = p['rate'] if fam == 'isonormalgamma' else p['rates']
        ctx.check_all_eq('mean', v[0], p['mean'])
        ctx.check_all_eq('precision', v[1], [p['shape'][0] / x for x in b])
    elif fam == 'normalwishart':
        ctx.check_all_eq('mean', v[0], p['mean'])
        ctx.check_all_eq('precision', v[1], [[p['dof'][0] * x for x in r] for r in p['scale_matrix']])


def samples(ctx, fam, dim, K, N):
    """draws are an affine image of the noise: mean + C noise with C C^T the covariance"""
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    d = F.build(ctx, fam, ps, batch=K > 0)
    x = ctx.scalars(d.sample(N))
    X = x if K else [x]
    i = 0
    for k in range(K or 1):
        for n in range(N):
            z = [ctx.real('rnd%d' % (i + j)) for j in range(dim)]
            i += dim
            L = ps[k]['_L'] if fam == 'normalfull' else [
                [ctx.sqrt(ps[k]['diag_cov'][a]) if a == b else 0 for b in range(dim)] for a in range(dim)]
            want = [ps[k]['mean'][a] + ctx.sum([L[a][b] * z[b] for b in range(a + 1)]) for a in range(dim)]
            ctx.check_all_eq('draw %d %d' % (k, n), X[k][n], want)


def mismatch(ctx):
    """members of different families, or of different dimensions, have no divergence"""
    from beer.dists import kl_div
    one = lambda f, d, n: F.build(ctx, f, [F.params(ctx, f, d, n)])
    for i, (a, b) in enumerate([('dirichlet', 'gamma'), ('gamma', 'dirichlet'), ('normalgamma', 'isonormalgamma'),
                                ('normaldiag', 'normalfull'), ('normaldiag', 'gamma')]):
        for da, db in ((2, 2), (4, 2), (1, 1)):
            try:
                kl_div(one(a, da, 'a%d' % i), one(b, db, 'b%d' % i))
                ok = False
            except Exception as e:
                ok = type(e).__name__ == 'DistributionTypeMismatch'
            ctx.check('%s and %s refused' % (a, b), ok)
    for f in F.ALL:
        for da, db in ((1, 2), (2, 1)):
            try:
                kl_div(one(f, da, 'a'), one(f, db, 'b'))
                ok = False
            except Exception as e:
                ok = type(e).__name__ == 'SupportDimensionMismatch'
            ctx.check('%s of dimensions %d and %d refused' % (f, da, db), ok)


HARNESSES = [
    Harness('mismatch', mismatch, about='divergence of incompatible members', quick=[{}]),
    Harness('gradient', gradient, about='expected statistics are the gradient of the log-normaliser',
            quick=cfgs(F.ALL, [1, 2], [0, 2]) + cfgs(SCAL, [3], [1]),
            thorough=cfgs(SCAL, [4], [3]) + cfgs(['normalfull', 'normalwishart'], [3], [0])),
    Harness('divergence', divergence, about='KL divergence vs closed forms',
            quick=cfgs(F.ALL, [1, 2], [0, 2]) + cfgs(SCAL, [3], [1]),
            thorough=cfgs(SCAL, [4], [3]) + cfgs(['normalfull', 'normalwishart'], [3], [0])),
    Harness('moments', mean_entropy, about='expected value and entropy',
            quick=[dict(fam=f, dim=d) for f in F.ALL for d in (1, 2)]),
    Harness('draws', samples, about='reparameterised draws',
            quick=[dict(fam=f, dim=d, K=K, N=N) for f in ('normaldiag', 'normalfull')
                   for d, K, N in ((2, 0, 2), (1, 2, 1), (2, 2, 2))]),
]
for h in HARNESSES:
    for c in (h.quick + (h.thorough or [])):
        if c.get('fam') == 'dirichlet':
            c['dim'] += 1
