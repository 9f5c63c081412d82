import contextlib
import random

from .common import *
from . import nets

BOUNDS = ('Bounds: 1-5 inputs, 1-4 hidden layers of 1-3 units, 0-2 conditioning inputs; every connectivity that may be drawn; all weights, inputs and conditioning inputs '
          'arbitrary; masks for every ordering and connectivity of the listed sizes.')
ASSUMPTIONS = ['at least one hidden layer', 'finite weights']
ACTIVATIONS = dict(tanh=(torch.nn.Tanh, nets.tanh), sigmoid=(torch.nn.Sigmoid, nets.sigmoid), relu=(torch.nn.ReLU, nets.relu), identity=(torch.nn.Identity, nets.identity))


@contextlib.contextmanager
def draws(ctx):
    """every value a draw may take"""
    count = [0]

    def pick(n):
        count[0] += 1
        return ctx.choice('draw%d' % count[0], n) if n > 1 else 0

    def choice(seq):
        return seq[pick(len(seq))]

    def choices(population, weights=None, *, cum_weights=None, k=1):
        if not len(population):
            raise IndexError('Cannot choose from an empty sequence')
        return [choice(population) for _ in range(k)]

    def randrange(start, stop=None, step=1):
        return choice(range(0, start) if stop is None else range(start, stop, step))

    fake = dict(choice=choice, choices=choices, randrange=randrange, randint=lambda a, b: choice(range(a, b + 1)))
    old = {n: getattr(random, n) for n in fake}
    try:
        for n, f in fake.items():
            setattr(random, n, f)
        yield
    finally:
        for n, f in old.items():
            setattr(random, n, f)


def build(ctx, dim, flow, depth, width, act):
    from beer.nnet import AutoRegressiveNetwork
    with draws(ctx):
        net = AutoRegressiveNetwork(dim, flow, depth, width, ACTIVATIONS[act][0]())
    return nets.weigh(ctx, net)


def autoregressive(ctx, dim, flow, depth, width, act):
    """no output depends on an input at or after it; all rows are treated alike"""
    net = build(ctx, dim, flow, depth, width, act)
    x = [ctx.real('x%d' % i) for i in range(dim)]
    y = [ctx.real('y%d' % i) for i in range(dim)]
    rows = [x[:d] + y[d:] for d in range(dim + 1)]
    c = [ctx.real('c%d' % i) for i in range(flow)]
    args = (ctx.make(rows),) + ((ctx.make([c for _ in rows]),) if flow else ())
    mean, var = net(*args)
    ctx.check('shapes', tuple(mean.shape) == tuple(var.shape) == (dim + 1, dim))
    mean, var = ctx.scalars(mean), ctx.scalars(var)
    for d in range(dim):
        for r in range(d + 1, dim + 1):
            ctx.check_eq('mean %d unchanged by later inputs (%d)' % (d, r), mean[d][d], mean[r][d])
            ctx.check_eq('variance %d unchanged by later inputs (%d)' % (d, r), var[d][d], var[r][d])
        ctx.check('variance %d above its floor' % d, ctx.lt(ctx.frac(1, 100), var[dim][d]))
        ctx.check('variance %d bounded' % d, ctx.lt(var[dim][d], ctx.frac(101, 100)))


def composed(ctx, dim, flow, depth, width, act):
    """the whole network: masked layers, conditioning added to the first one, activation after every hidden layer, final affine form.
    The masks are those the network holds."""
    net = build(ctx, dim, flow, depth, width, act)
    lin = nets.linears(net)
    masks = [ctx.scalars(b) for m in net.modules() for b in m._buffers.values()]
    ctx.check('number of layers', len(lin) == depth + 2 + (flow > 0) and len(masks) == depth + 2)
    x = [ctx.real('x%d' % i) for i in range(dim)]
    c = [ctx.real('c%d' % i) for i in range(flow)]
    args = (ctx.make([x]),) + ((ctx.make([c]),) if flow else ())
    mean, var = net(*args)
    M = [[[bool(v == 1) for v in r] for r in m] for m in masks]
    f = ACTIVATIONS[act][1]
    h, i = x, 0
    for k in range(depth):
        z = nets.linear(ctx, lin[i], h, M[k])
        i += 1
        if k == 0 and flow:
            z = [a + b for a, b in zip(z, nets.linear(ctx, lin[i], c))]
            i += 1
        h = [f(ctx, v) for v in z]
    ctx.check('final masks agree', M[depth] == M[depth + 1])
    m = nets.linear(ctx, lin[i], h, M[depth])
    v = [ctx.frac(1, 100) + nets.sigmoid(ctx, a) for a in nets.linear(ctx, lin[i + 1], h, M[depth + 1])]
    ctx.check_all_eq('variance', ctx.scalars(var)[0], v)
    ctx.check_all_eq('mean', ctx.scalars(mean)[0], [(1 - a) * b for a, b in zip(v, m)])


def masks(ctx, nin, nout, hi):
    """masks for every ordering and connectivity"""
    from beer.nnet import arnet
    order = [int(ctx.choice('o%d' % i, hi)) for i in range(nin)]
    conn = [int(ctx.choice('m%d' % i, hi)) for i in range(nout)]
    ctx.check_all_eq('hidden', arnet.create_mask(order, conn), [[1 if m >= o else 0 for o in order] for m in conn])
    ctx.check_all_eq('final', arnet.create_final_mask(order, conn), [[1 if o > m else 0 for m in conn] for o in order])


def masked(ctx, nin, nout, N):
    """a masked layer ignores the weights that are masked out and no others"""
    from beer.nnet import arnet
    mask = [[int(ctx.choice('k%d_%d' % (i, j), 2)) for j in range(nin)] for i in range(nout)]
    lin = nets.weigh(ctx, torch.nn.Linear(nin, nout))
    layer = arnet.MaskedLinear(ctx.make([[float(v) for v in r] for r in mask]), lin)
    x = [[ctx.real('x%d_%d' % (n, i)) for i in range(nin)] for n in range(N)]
    ctx.check_all_eq('output', layer(ctx.make(x)), [nets.linear(ctx, lin, r, mask) for r in x])
    xt = ctx.make(x).requires_grad_(True)
    ref = nets.plain(lin, xt, ctx.make([[float(v) for v in r] for r in mask]))
    nets.same_gradients(ctx, 'gradient', [layer(xt)], [ref], [lin.weight, lin.bias, xt])
    ctx.check_all_eq('output the second time', layer(ctx.make(x)), [nets.linear(ctx, lin, r, mask) for r in x])


TORCH = dict(tanh=torch.tanh, sigmoid=torch.sigmoid, relu=torch.relu, identity=lambda x: x)


def trained(ctx, dim, flow, depth, width, act):
    """derivatives of the outputs with respect to all weights and inputs"""
    net = build(ctx, dim, flow, depth, width, act)
    lin = nets.linears(net)
    M = [b for m in net.modules() for b in m._buffers.values()]
    x = ctx.make([[ctx.real('x%d' % i) for i in range(dim)]]).requires_grad_(True)
    c = ctx.make([[ctx.real('c%d' % i) for i in range(flow)]]).requires_grad_(True)
    mean, var = net(*((x, c) if flow else (x,)))
    h, i = x, 0
    for k in range(depth):
        z = nets.plain(lin[i], h, M[k])
        i += 1
        if k == 0 and flow:
            z = z + nets.plain(lin[i], c)
            i += 1
        h = TORCH[act](z)
    v = torch.sigmoid(nets.plain(lin[i + 1], h, M[depth + 1])) + .01
    nets.same_gradients(ctx, 'gradient', [mean, var], [(1 - v) * nets.plain(lin[i], h, M[depth]), v],
                        [p for l in lin for p in (l.weight, l.bias)] + [x] + ([c] if flow else []))


def C(dim, flow, depth, width, act='tanh'):
    return dict(dim=dim, flow=flow, depth=depth, width=width, act=act)


NETS = [C(1, 0, 1, 1), C(1, 1, 1, 2), C(2, 0, 1, 2), C(2, 1, 2, 2), C(3, 0, 1, 2, 'sigmoid'), C(3, 2, 1, 2), C(3, 1, 2, 2), C(3, 0, 2, 2, 'relu'), C(2, 0, 3, 1), C(3, 1, 3, 1),
        C(4, 1, 1, 2), C(4, 0, 2, 1, 'identity'), C(3, 0, 3, 2, 'identity'),
        C(5, 0, 1, 1), C(3, 0, 4, 1, 'identity')]
DEEP = [C(3, 1, 1, 3), C(3, 1, 3, 2), C(4, 1, 2, 2), C(5, 1, 1, 2), C(5, 2, 2, 1), C(4, 1, 3, 1, 'sigmoid')]
HARNESSES = [
    Harness('autoregressive', autoregressive, about='composed network: non-interference and bounds of the variances', quick=NETS + [C(3, 0, 4, 2, 'identity')], thorough=DEEP),
    Harness('composed', composed, about='composed network by hand', quick=NETS, thorough=DEEP),
    Harness('trained', trained, about='derivatives of the composed network', quick=[C(2, 0, 1, 2), C(2, 1, 2, 1), C(3, 1, 1, 1, 'sigmoid')], thorough=[C(3, 1, 2, 2)]),
    Harness('masks', masks, about='masks from orderings and connectivity', quick=[dict(nin=2, nout=2, hi=3), dict(nin=3, nout=1, hi=3), dict(nin=1, nout=3, hi=3), dict(nin=1, nout=1, hi=9)],
            thorough=[dict(nin=3, nout=2, hi=4)]),
    Harness('masked', masked, about='masked linear layer', quick=[dict(nin=2, nout=2, N=2), dict(nin=3, nout=1, N=1)], thorough=[dict(nin=3, nout=2, N=2)]),
]
