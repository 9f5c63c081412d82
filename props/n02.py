import math

from .common import *
from . import nets

BOUNDS = ('Bounds: 1-3 inputs, 1-3 outputs, 1-3 data points, 0-3 steps of the flow; all inputs, weights, noise values and data arbitrary; flow steps are autoregressive networks '
          'with arbitrary weights, and arbitrary affine maps.')
ASSUMPTIONS = ['base distributions of a flow have a variance (diagonal or isotropic layers)', 'the Bernoulli log-likelihood is smoothed by 1e-6', 'finite weights']


def gauss(ctx, x, m, v):
    h = ctx.frac(-1, 2)
    return ctx.sum([h * (ctx.log(2 * ctx.pi) + ctx.log(b) + (a - c) * (a - c) / b) for a, c, b in zip(x, m, v)])


def layer(ctx, kind, nin, nout, act):
    from beer import nnet
    a = [torch.nn.Softplus(), Exp()][act] if act is not None else None
    if kind == 'identity':
        l = nnet.NormalIdentityCovarianceLayer(nin, nout)
    else:
        l = {'diagonal': nnet.NormalDiagonalCovarianceLayer, 'isotropic': nnet.NormalIsotropicCovarianceLayer}[kind](nin, nout, *([a] if a is not None else []))
    return nets.weigh(ctx, l)


class Exp(torch.nn.Module):
    def forward(self, x):
        return x.exp()


def reference(ctx, l, kind, x, act):
    """mean and variances given one input"""
    lin = nets.linears(l)
    m = nets.linear(ctx, lin[0], x)
    if kind == 'identity':
        return m, [ctx.frac(1)] * len(m)
    f = (lambda v: ctx.exp(v)) if act == 1 else (lambda v: nets.softplus(ctx, v))
    v = [f(a) for a in nets.linear(ctx, lin[1], x)]
    return m, v * len(m) if kind == 'isotropic' else v


def normal(ctx, kind, nin, nout, N, act=None, mean=False, grad=False, evaluation=False):
    l = layer(ctx, kind, nin, nout, act)
    if evaluation:
        l.eval()    # samples are drawn all the same
    X = [[ctx.real('x%d_%d' % (n, i)) for i in range(nin)] for n in range(N)]
    params = l(ctx.make(X))
    ref = [reference(ctx, l, kind, x, act) for x in X]
    m, v = (params, None) if kind == 'identity' else params
    ctx.check_all_eq('mean of the layer', m, [r[0] for r in ref])
    if v is not None:
        ctx.check_all_eq('variance of the layer', v, [r[1] for r in ref])
    before, k = ctx.scalars(m), ctx.nrand
    s, llh = l.samples_and_llh(params, use_mean=mean)
    ctx.check('one value per sample', tuple(s.shape) == (N, nout) and tuple(llh.shape) == (N,))
    want = []
    for n, (a, b) in enumerate(ref):
        if mean:
            want.append(list(a))
        else:
            z = [ctx.real('rnd%d' % (k + j)) for j in range(nout)]
            want.append([p + ctx.sqrt(q) * r for p, q, r in zip(a, b, z)])
        k += nout
    ctx.check_all_eq('samples', s, want)
    ctx.check_all_eq('log density of the samples', llh, [gauss(ctx, x, *r) for x, r in zip(want, ref)])
    D = [[ctx.real('d%d_%d' % (n, i)) for i in range(nout)] for n in range(N)]
    ctx.check_all_eq('log density of data', l.log_likelihood(ctx.make(D), params), [gauss(ctx, x, *r) for x, r in zip(D, ref)])
    ctx.check_all_eq('parameters untouched', m, before)
    if grad:
        gradients(ctx, l, kind, X, D, act, mean)


def gradients(ctx, l, kind, X, D, act, mean):
    """derivatives of the parameters, the samples, their log density and that of data, with respect to weights, inputs and data"""
    lin = nets.linears(l)
    x, d = ctx.make(X).requires_grad_(True), ctx.make(D).requires_grad_(True)

    def ref(noise):
        m = nets.plain(lin[0], x)
        v = torch.ones_like(m)
        if kind != 'identity':
            h = nets.plain(lin[1], x)
            v = (h.exp() if act == 1 else torch.log(1 + h.exp())) * v
        dens = lambda y: -.5 * (math.log(2 * math.pi) + v.log() + (y - m) ** 2 / v).sum(dim=-1)
        s = m if mean else m + v.sqrt() * noise
        return [m, s, dens(s), dens(d)] + ([] if kind == 'identity' else [v])

    p = l(x)
    k = ctx.nrand
    s, llh = l.samples_and_llh(p, use_mean=mean)
    n, o = len(X), len(D[0])
    noise = None if mean else ctx.make([[ctx.real('rnd%d' % (k + i * o + j)) for j in range(o)] for i in range(n)])
    got = [p if kind == 'identity' else p[0], s, llh, l.log_likelihood(d, p)] + ([] if kind == 'identity' else [p[1]])
    nets.same_gradients(ctx, 'gradient', got, ref(noise), [w for a in lin for w in (a.weight, a.bias)] + [x, d])


def repeated(ctx, kind, N, K):
    """several samples per point: parameters and data with a leading axis"""
    l = layer(ctx, kind, 1, 2, None)
    X = [[[ctx.real('x%d_%d' % (k, n))] for n in range(N)] for k in range(K)]
    params = l(ctx.make(X))
    i, want, val = ctx.nrand, [], []
    s, llh = l.samples_and_llh(params)
    for k in range(K):
        want.append([])
        val.append([])
        for n in range(N):
            m, v = reference(ctx, l, kind, X[k][n], None)
            x = [a + ctx.sqrt(b) * ctx.real('rnd%d' % (i + j)) for j, (a, b) in enumerate(zip(m, v))]
            i += 2
            want[-1].append(x)
            val[-1].append(gauss(ctx, x, m, v))
    ctx.check_all_eq('samples', s, want)
    ctx.check_all_eq('log density', llh, val)
    D = [[ctx.real('d%d_%d' % (n, i)) for i in range(2)] for n in range(N)]
    ctx.check_all_eq('same data under all', l.log_likelihood(ctx.make(D), params),
                     [[gauss(ctx, D[n], *reference(ctx, l, kind, X[k][n], None)) for n in range(N)] for k in range(K)])


def bernoulli(ctx, nin, nout, N):
    from beer.nnet import BernoulliLayer
    l = nets.weigh(ctx, BernoulliLayer(nin, nout))
    X = [[ctx.real('x%d_%d' % (n, i)) for i in range(nin)] for n in range(N)]
    p = l(ctx.make(X))
    P = [[nets.sigmoid(ctx, v) for v in nets.linear(ctx, nets.linears(l)[0], x)] for x in X]
    ctx.check_all_eq('probabilities', p, P)
    D = [[ctx.real('d%d_%d' % (n, i), 0, 1) for i in range(nout)] for n in range(N)]
    e = ctx.frac(1, 1000000)
    llh = l.log_likelihood(ctx.make(D), p)
    ctx.check_all_eq('log-likelihood', llh,
                     [ctx.sum([d * ctx.log(e + a) + (1 - d) * ctx.log(e + 1 - a) for d, a in zip(r, q)]) for r, q in zip(D, P)])
    try:
        l.samples_and_llh(p)
        refused = False
    except NotImplementedError:
        refused = True
    ctx.check('sampling is refused', refused)


class Affine(torch.nn.Module):
    """any map of the flow and its parameters to means and positive variances such that output d depends on the inputs before d"""

    def __init__(self, ctx, k, D, P):
        super().__init__()
        self.ctx, self.D = ctx, D
        self.A = [[ctx.real('a%d_%d_%d' % (k, i, j)) for j in range(D + P)] for i in range(D)]
        self.B = [[ctx.real('b%d_%d_%d' % (k, i, j)) for j in range(D + P)] for i in range(D)]

    def rows(self, z, f):
        u = lambda M, i: self.ctx.sum([M[i][j] * z[j] for j in range(i)] + [M[i][self.D + j] * f[j] for j in range(len(f))])
        return [u(self.A, i) for i in range(self.D)], [self.ctx.exp(u(self.B, i)) for i in range(self.D)]

    def forward(self, z, f):
        r = [self.rows(a, b) for a, b in zip(self.ctx.scalars(z), self.ctx.scalars(f))]
        return self.ctx.make([m for m, _ in r]), self.ctx.make([v for _, v in r])


def flow(ctx, kind, D, P, N, steps, mean=False, net=None, evaluation=False):
    from beer.nnet import InverseAutoRegressiveFlow, AutoRegressiveNetwork
    from .n01 import draws
    base = layer(ctx, kind, 1, D, None)
    if net:
        with draws(ctx):
            mods = [nets.weigh(ctx, AutoRegressiveNetwork(D, P, 1, net, torch.nn.Tanh()), 'f%d' % k) for k in range(steps)]
    else:
        mods = [Affine(ctx, k, D, P) for k in range(steps)]
    l = InverseAutoRegressiveFlow(1, P, base, torch.nn.Sequential(*mods))
    l.flow_params = nets.weigh(ctx, l.flow_params, 'p')
    if evaluation:
        l.eval()
    X = [[ctx.real('x%d' % n)] for n in range(N)]
    params = l(ctx.make(X))
    ref = [reference(ctx, base, kind, x, None) for x in X]
    ctx.check_all_eq('base mean', params[0][0], [r[0] for r in ref])
    ctx.check_all_eq('base variance', params[0][1], [r[1] for r in ref])
    ctx.check_all_eq('flow parameters', params[1], [nets.linear(ctx, l.flow_params, x) for x in X])
    keep = ctx.scalars(params[0][0]), ctx.scalars(params[0][1]), ctx.scalars(params[1])
    k, want, val = ctx.nrand, [], []
    s, llh = l.samples_and_llh(params, use_mean=mean)
    for n, (m, v) in enumerate(ref):
        z = [ctx.frac(0) if mean else ctx.real('rnd%d' % (k + j)) for j in range(D)]
        k += D
        x = [a + ctx.sqrt(b) * c for a, b, c in zip(m, v, z)]
        r = gauss(ctx, z, [0] * D, [ctx.frac(1)] * D) - ctx.frac(1, 2) * ctx.sum([ctx.log(b) for b in v])
        fp = nets.linear(ctx, l.flow_params, X[n])
        for mod in mods:
            if net:
                a, b = mod(ctx.make([x]), ctx.make([fp]))
                a, b = ctx.scalars(a)[0], ctx.scalars(b)[0]
            else:
                a, b = mod.rows(x, fp)
            x = [p + ctx.sqrt(q) * c for p, q, c in zip(a, b, x)]
            r = r - ctx.frac(1, 2) * ctx.sum([ctx.log(q) for q in b])
        want.append(x)
        val.append(r)
    ctx.check_all_eq('samples', s, want)
    ctx.check_all_eq('log density of the samples', llh, val)
    ctx.check_all_eq('parameters untouched', params[0][0], keep[0])
    ctx.check_all_eq('variances untouched', params[0][1], keep[1])
    ctx.check_all_eq('flow parameters untouched', params[1], keep[2])


def flow_gradients(ctx, D, steps, width, mean):
    """derivatives of the samples and their log density with respect to base, flow parameters and weights of the steps"""
    from beer.nnet import InverseAutoRegressiveFlow, AutoRegressiveNetwork, NormalDiagonalCovarianceLayer
    from .n01 import draws
    with draws(ctx):
        mods = [nets.weigh(ctx, AutoRegressiveNetwork(D, 1, 1, width, torch.nn.Tanh()), 'f%d' % k) for k in range(steps)]
    l = InverseAutoRegressiveFlow(1, 1, NormalDiagonalCovarianceLayer(1, D), torch.nn.Sequential(*mods))
    m, v, fp = (ctx.tensor(n, (1, k), pos=n == 'v').requires_grad_(True) for n, k in (('m', D), ('v', D), ('fp', 1)))
    k = ctx.nrand
    got = l.samples_and_llh(((m, v), fp), use_mean=mean)
    z = torch.zeros_like(m) if mean else ctx.make([[ctx.real('rnd%d' % (k + j)) for j in range(D)]])
    x = m + v.sqrt() * z
    r = -.5 * (math.log(2 * math.pi) + z ** 2 + v.log()).sum(dim=-1)
    for f in mods:
        a, b = f(x, fp)
        x = a + b.sqrt() * x
        r = r - .5 * b.log().sum(dim=-1)
    nets.same_gradients(ctx, 'gradient', got, [x, r], [m, v, fp] + [w for f in mods for w in f.parameters()])


def jacobian(ctx, D, steps, width):
    """the correction is the log determinant of the derivative of the samples with respect to the noise (here: a displacement of the base mean)"""
    from beer.nnet import InverseAutoRegressiveFlow, AutoRegressiveNetwork, NormalDiagonalCovarianceLayer
    from .n01 import draws
    with draws(ctx):
        mods = [nets.weigh(ctx, AutoRegressiveNetwork(D, 1, 1, width, torch.nn.Tanh()), 'f%d' % k) for k in range(steps)]
    l = InverseAutoRegressiveFlow(1, 1, NormalDiagonalCovarianceLayer(1, D), torch.nn.Sequential(*mods))
    m = ctx.tensor('m', (1, D)).requires_grad_(True)
    v = ctx.tensor('v', (1, D), pos=True)
    fp = ctx.tensor('fp', (1, 1))
    k = ctx.nrand
    s, llh = l.samples_and_llh(((m, v), fp))
    J = [torch.autograd.grad(s[0, i], m, retain_graph=True, allow_unused=True)[0] for i in range(D)]
    J = [[ctx.frac(0)] * D if g is None else ctx.scalars(g)[0] for g in J]
    det = J[0][0] if D == 1 else J[0][0] * J[1][1] - J[0][1] * J[1][0]
    z = [ctx.real('rnd%d' % (k + j)) for j in range(D)]
    ctx.check_all_eq('log density', llh.reshape(-1), [gauss(ctx, z, [0] * D, [ctx.frac(1)] * D) - ctx.frac(1, 2) * ctx.sum([ctx.log(x) for x in ctx.scalars(v)[0]]) - ctx.log(det)])


HARNESSES = [
    Harness('normal', normal, about='normal layers: samples and log density',
            quick=[dict(kind=k, nin=2, nout=2, N=2, mean=m) for k in ('diagonal', 'isotropic', 'identity') for m in (False, True)] +
                  [dict(kind=k, nin=1, nout=3, N=1, act=1, evaluation=True) for k in ('diagonal', 'isotropic')] + [dict(kind='diagonal', nin=1, nout=1, N=3, act=0), dict(kind='isotropic', nin=1, nout=1, N=2, act=0)] +
                  [dict(kind=k, nin=1, nout=2, N=1, act=1 if k != 'identity' else None, mean=m, grad=True) for k in ('diagonal', 'isotropic', 'identity') for m in (False, True)],
            thorough=[dict(kind=k, nin=2, nout=2, N=2, mean=m, grad=True) for k in ('diagonal', 'isotropic', 'identity') for m in (False, True)] +
                     [dict(kind=k, nin=3, nout=3, N=3, mean=m) for k in ('diagonal', 'isotropic', 'identity') for m in (False, True)]),
    Harness('repeated', repeated, about='leading sample axis', quick=[dict(kind=k, N=2, K=2) for k in ('diagonal', 'isotropic', 'identity')],
            thorough=[dict(kind=k, N=3, K=3) for k in ('diagonal', 'isotropic', 'identity')]),
    Harness('bernoulli', bernoulli, about='Bernoulli layer', quick=[dict(nin=2, nout=2, N=2), dict(nin=1, nout=1, N=1), dict(nin=2, nout=1, N=1), dict(nin=1, nout=3, N=1)], thorough=[dict(nin=3, nout=3, N=3)]),
    Harness('flow', flow, about='inverse autoregressive flow, arbitrary affine steps',
            quick=[dict(kind=k, D=2, P=1, N=2, steps=s, mean=m) for k, s, m in (('diagonal', 2, False), ('diagonal', 1, True), ('isotropic', 1, False), ('diagonal', 0, False), ('isotropic', 2, True))] +
                  [dict(kind='diagonal', D=1, P=2, N=1, steps=3, evaluation=True), dict(kind='diagonal', D=2, P=1, N=2, steps=1, net=1), dict(kind='diagonal', D=3, P=1, N=1, steps=1, net=1, mean=True)],
            thorough=[dict(kind='diagonal', D=3, P=2, N=2, steps=2), dict(kind='diagonal', D=2, P=1, N=1, steps=2, net=2), dict(kind='isotropic', D=3, P=1, N=2, steps=3)]),
    Harness('gradients', flow_gradients, about='gradients through the flow', quick=[dict(D=1, steps=1, width=1, mean=False), dict(D=2, steps=1, width=1, mean=False), dict(D=2, steps=1, width=1, mean=True)],
            thorough=[dict(D=2, steps=2, width=1, mean=False)], opts=dict(assume_positive=True)),
    Harness('jacobian', jacobian, about='log density against the determinant of the derivative', quick=[dict(D=1, steps=1, width=1), dict(D=2, steps=1, width=1), dict(D=2, steps=2, width=1)],
            thorough=[dict(D=2, steps=2, width=2), dict(D=2, steps=3, width=1)], opts=dict(assume_positive=True)),
]
