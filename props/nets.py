"""networks with arbitrary weights and their values by hand"""
import torch


def weigh(ctx, net, tag='w'):
    """replace every weight of a network by an arbitrary one"""
    for i, (name, p) in enumerate(list(net.named_parameters())):
        owner = net
        *path, last = name.split('.')
        for a in path:
            owner = getattr(owner, a)
        setattr(owner, last, torch.nn.Parameter(ctx.tensor('%s%d' % (tag, i), tuple(p.shape)), requires_grad=True))
    return net


def linears(net):
    """weights of the linear layers, in order of application"""
    return [m for m in net.modules() if isinstance(m, torch.nn.Linear)]


def linear(ctx, lin, x, mask=None):
    W, b = ctx.scalars(lin.weight), ctx.scalars(lin.bias)
    return [ctx.sum([w * v for j, (w, v) in enumerate(zip(row, x)) if mask is None or mask[i][j]] + [b[i]]) for i, row in enumerate(W)]


def sigmoid(ctx, v):
    return 1 / (1 + ctx.exp(-v))


def tanh(ctx, v):
    return (ctx.exp(2 * v) - 1) / (ctx.exp(2 * v) + 1)


def relu(ctx, v):
    return ctx.ite(ctx.lt(0, v), v, ctx.frac(0))


def identity(ctx, v):
    return v


def softplus(ctx, v):
    return ctx.log(1 + ctx.exp(v))


def same_gradients(ctx, label, got, want, leaves):
    """the derivatives of any combination of the outputs with respect to each leaf, against those of an independent computation"""
    got, want = list(got), list(want)
    loss = lambda outs: sum((o * ctx.make(_combination(ctx, o.shape, k))).sum() for k, o in enumerate(outs))
    a = torch.autograd.grad(loss(got), leaves, allow_unused=True)
    b = torch.autograd.grad(loss(want), leaves, allow_unused=True)
    for i, (x, y, leaf) in enumerate(zip(a, b, leaves)):
        z = torch.zeros_like(leaf)
        ctx.check_all_eq('%s %d' % (label, i), z if x is None else x, z if y is None else y)


def _combination(ctx, shape, k):
    f = lambda p, s: [f(p + '_%d' % i, s[1:]) for i in range(s[0])] if s else ctx.real('g%d%s' % (k, p))
    return f('', tuple(shape))


def plain(lin, x, mask=None):
    """a linear layer from its weights"""
    return x @ (lin.weight if mask is None else lin.weight * mask).t() + lin.bias
