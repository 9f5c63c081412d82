import ast
import contextlib

from .common import *
from . import nets

BOUNDS = ('Bounds: descriptions of 1-3 blocks of 1-3 elements, each element any of the listed ones or up to five merged ones, with or without residual branch; 1-2 data points of dimension '
          '1-2; all parameter values, weights and inputs arbitrary; residual networks of 0-3 blocks of width 1-2.')
ASSUMPTIONS = ['elements do not work in place', 'merged elements get one input each, or share a single one', 'the text of a value denotes an arbitrary value']


class Builder:
    """descriptions with arbitrary values; stands in for the reading of the values and for a torch element with arbitrary parameters"""

    def __init__(self, ctx, D, spaces):
        self.ctx, self.D, self.sp = ctx, D, ' ' if spaces else ''
        self.values, self.n, self.built = {}, 0, {}

    def value(self, name):
        v = self.ctx.real(name)
        if self.ctx.symbolic:
            lit = '%d.25' % (1000 + len(self.values))
            self.values[lit] = v
            return lit, v
        return repr(float(v)), v

    def fmt(self, name, args):
        s = self.sp
        return s + name + (s + ':' + s + (s + ';' + s).join('%s%s=%s%s' % (k, s, s, v) for k, v in args) if args else '') + s

    def element(self, kind):
        """-> text, function of rows"""
        c, i = self.ctx, self.n
        self.n += 1
        if kind == 'probe':
            (a, p), (b, q) = self.value('p%d' % i), self.value('q%d' % i)
            args = [('scale', a), ('shift', b)]
            if i % 2:
                args = args[::-1]
            return self.fmt('VerifProbe', args), lambda X: [[nets.sigmoid(c, x * p + q) for x in r] for r in X]
        if kind == 'linear':
            args = [('in_features', self.D), ('out_features', self.D), ('bias', 1000 + i)]
            W = [[c.real('W%d_%d_%d' % (i, a, b)) for b in range(self.D)] for a in range(self.D)]
            B = [c.real('B%d_%d' % (i, a)) for a in range(self.D)]
            self.built[1000 + i] = W, B
            return self.fmt('Linear', args), lambda X: [[c.sum([w * x for w, x in zip(ws, r)] + [b]) for ws, b in zip(W, B)] for r in X]
        if kind == 'transpose':
            return self.fmt('TransposeLayer', []), lambda X: [list(r) for r in zip(*X)]
        if kind == 'reshape':
            return self.fmt('ReshapeLayer', [('shape', '(-1,%s%d)' % (self.sp, self.D))]), lambda X: X
        if kind == 'flat':
            return self.fmt('ReshapeLayer', [('shape', '(1,%s-1)' % self.sp)]), lambda X: [[x for r in X for x in r]]
        if kind == 'column':
            return self.fmt('ReshapeLayer', [('shape', '(-1,%s1)' % self.sp)]), lambda X: [[x] for r in X for x in r]
        f = {'Tanh': nets.tanh, 'Sigmoid': nets.sigmoid, 'ReLU': nets.relu, 'IdentityLayer': nets.identity, 'Identity': nets.identity}[kind]
        return self.fmt(kind, []), lambda X: [[f(c, x) for x in r] for r in X]

    def merged(self, kinds):
        parts = [self.element(k) for k in kinds.split('+')]
        return '|'.join(t for t, _ in parts), [f for _, f in parts]

    @contextlib.contextmanager
    def install(self):
        builder, ctx = self, self.ctx

        class VerifProbe(torch.nn.Module):
            def __init__(self, scale, shift):
                super().__init__()
                self.scale, self.shift = scale, shift

            def forward(self, x):
                return torch.sigmoid(x * ctx.make(self.scale) + ctx.make(self.shift))

        read, init = ast.literal_eval, torch.nn.Linear.__init__

        def literal_eval(text):
            return builder.values[text] if isinstance(text, str) and text in builder.values else read(text)

        def linit(lin, in_features, out_features, bias=True, **kw):
            init(lin, in_features, out_features, bias=True, **kw)
            W, B = builder.built[bias]
            lin.weight, lin.bias = torch.nn.Parameter(ctx.make(W)), torch.nn.Parameter(ctx.make(B))

        torch.nn.VerifProbe, ast.literal_eval, torch.nn.Linear.__init__ = VerifProbe, literal_eval, linit
        try:
            yield
        finally:
            del torch.nn.VerifProbe
            ast.literal_eval, torch.nn.Linear.__init__ = read, init


def add(*Xs):
    return [[sum(v[1:], v[0]) for v in zip(*rs)] for rs in zip(*Xs)]


def network(ctx, blocks, N=2, D=1, spaces=False):
    """blocks: list of (elements, residual); '+' merges elements"""
    from beer import nnet
    b = Builder(ctx, D, spaces)
    conf, fns = [], []
    for k, (elements, residual) in enumerate(blocks):
        parts = [b.merged(e) for e in elements]
        d = {'block_structure': [t for t, _ in parts]}
        res = None
        if residual:
            t, res = b.merged(residual)
            d['residual'] = t
        elif k % 2:
            d['residual'] = None
        conf.append(d)
        fns.append(([f for _, f in parts], res))
    keep = repr(conf)
    with b.install():
        net = nnet.create({'nnet_structure': conf})
        ctx.check('the description is left alone', repr(conf) == keep)
        X = [[ctx.real('x%d_%d' % (n, i)) for i in range(D)] for n in range(N)]
        x = ctx.make(X)
        out = net(x)
        again = net(x)
    H = X
    for parts, res in fns:
        Z = H
        for fs in parts:
            Z = add(*[f(Z) for f in fs])
        H = add(Z, *[f(H) for f in res]) if res else Z
    ctx.check('shape', tuple(out.shape) == (len(H), len(H[0])))
    ctx.check_all_eq('output', out, H)
    ctx.check_all_eq('input untouched', x, X)
    ctx.check_all_eq('same again', again, H)


def merge(ctx, kinds, shared):
    """merged elements outside a network: one input each, or a common one"""
    from beer import nnet
    b = Builder(ctx, 2, True)
    text, fns = b.merged(kinds)
    with b.install():
        net = nnet.create_nnet_element(text)
        n = 1 if shared else len(fns)
        X = [[[ctx.real('x%d_%d' % (k, i)) for i in range(2)]] for k in range(n)]
        xs = [ctx.make(x) for x in X]
        out = net(*xs)
    ctx.check_all_eq('sum', out, add(*[f(X[0 if shared else k]) for k, f in enumerate(fns)]))
    for k in range(n):
        ctx.check_all_eq('input %d untouched' % k, xs[k], X[k])


def separate(ctx, blocks):
    """elements described by the same text have weights of their own"""
    from beer import nnet
    text = 'Linear:in_features=1;out_features=1'
    conf = []
    for k, (elements, residual) in enumerate(blocks):
        conf.append({'block_structure': ['|'.join([text] * e) for e in elements]})
        if residual:
            conf[-1]['residual'] = '|'.join([text] * residual)
    net = nnet.create({'nnet_structure': conf})
    n = sum(sum(e) + r for e, r in blocks)
    lins = nets.linears(net)
    ctx.check('one element per description', len(lins) == n and len({id(p) for l in lins for p in (l.weight, l.bias)}) == 2 * n)
    if len(lins) != n:
        return
    ws = [(ctx.real('w%d' % i), ctx.real('b%d' % i)) for i in range(n)]
    for l, (w, b) in zip(lins, ws):
        l.weight, l.bias = torch.nn.Parameter(ctx.make([[w]])), torch.nn.Parameter(ctx.make([b]))
    if len(blocks) > 1 or len(blocks[0][0]) > 1:
        return
    # one sum: the order of the elements does not matter
    x = ctx.real('x')
    out, h = net(ctx.make([[x]])), ctx.sum([w * x + b for w, b in ws])
    ctx.check_all_eq('output', out, [[h]])


LITERALS = ['3', '-2', '2.5', '1e-3', 'True', 'False', 'None', "'zeros'", '(1,2)', '[1, 2]', '(3, -1, 4)', '()', '"x_1"', '((1,2),3)']


def values(ctx, n):
    """any combination of literals reaches the element under its own name, and the parsed text gives name and values"""
    from beer.nnet import neuralnetwork as M
    lits = [LITERALS[ctx.choice('lit%d' % i, len(LITERALS))] for i in range(n)]
    sp = ' ' if ctx.flag('spaces') else ''
    got = {}

    class VerifProbe(torch.nn.Module):
        def __init__(self, **kw):
            super().__init__()
            got.update(kw)
    text = 'VerifProbe' + ':' + sp + (';' + sp).join('a%d=%s' % (i, l) for i, l in enumerate(lits))
    torch.nn.VerifProbe = VerifProbe
    try:
        M.create_nnet_element(text)
    finally:
        del torch.nn.VerifProbe
    name, kw = M.parse_nnet_element(text)
    ctx.check('name', name == 'VerifProbe')
    ctx.check('arguments', sorted(kw) == ['a%d' % i for i in range(n)] and sorted(got) == sorted(kw))
    for i, l in enumerate(lits):
        want = ast.literal_eval(l)
        ctx.check('value %d' % i, type(got['a%d' % i]) is type(want) and got['a%d' % i] == want)


def unknown(ctx):
    from beer import nnet
    for t in ('Nothing', 'Nothing:a=1', 'Tanh|Nothing'):
        try:
            nnet.create_nnet_element(t)
            ok = False
        except ValueError:
            ok = True
        ctx.check('%s is refused' % t, ok)


def command(ctx, sets):
    """network from a configuration file with values filled in"""
    import itertools
    from .scripts import Scratch
    dims = [1 + ctx.choice('dim%d' % i, 2) for i in range(3)]
    order = list(itertools.permutations(('dim_in', 'width', 'dim_out')))[ctx.choice('order', 6)]
    vals = dict(zip(('dim_in', 'width', 'dim_out'), dims))
    eq = [' = ', '='][ctx.choice('spaces', 2)]
    conf = ['nnet_structure:', '- block_structure:', '  - Linear:in_features={dim_in};out_features={width}', '  - Tanh', '  - Linear:in_features={width};out_features={dim_out}',
            '  residual: Linear:in_features={dim_in};out_features={dim_out}'] if sets else \
           ['nnet_structure:', '- block_structure:', '  - Linear:in_features=%d;out_features=%d' % tuple(dims[:2]), '- block_structure:', '  - Linear:in_features=%d;out_features=%d' % tuple(dims[1:])]
    with Scratch(ctx) as s:
        s.script('recipes/timit_v2/utils/nnet-create.py', (['--set', ', '.join(k + eq + str(vals[k]) for k in order)] if sets else []) + ['@conf', '@out'], dict(conf=[[l] for l in conf]))
        net = s.unpickle('out')
    net = nets.weigh(ctx, net)
    lin = nets.linears(net)
    a, b, c = dims
    want = [(a, b), (b, c), (a, c)] if sets else [(a, b), (b, c)]
    ctx.check('layers', [(l.in_features, l.out_features) for l in lin] == want)
    X = [[ctx.real('x%d' % i) for i in range(a)]]
    h = nets.linear(ctx, lin[0], X[0])
    if sets:
        out = [p + q for p, q in zip(nets.linear(ctx, lin[1], [nets.tanh(ctx, v) for v in h]), nets.linear(ctx, lin[2], X[0]))]
    else:
        out = nets.linear(ctx, lin[1], h)
    ctx.check_all_eq('output', net(ctx.make(X)), [out])


def residual(ctx, dim, nblocks, width, N):
    from beer.nnet import ResidualFeedForwardNet
    net = nets.weigh(ctx, ResidualFeedForwardNet(dim_in=dim, nblocks=nblocks, block_width=width))
    X = [[ctx.real('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]
    x = ctx.make(X)
    out = net(x)
    lin = nets.linears(net)
    ctx.check('layers', len(lin) == 2 * nblocks and net.dim_in == dim and net.dim_out == dim)
    want = []
    for r in X:
        for k in range(nblocks):
            h = [nets.tanh(ctx, v) for v in nets.linear(ctx, lin[2 * k], r)]
            h = [nets.tanh(ctx, v) for v in nets.linear(ctx, lin[2 * k + 1], h)]
            r = [a + b for a, b in zip(r, h)]
        want.append(r)
    ctx.check_all_eq('output', out, want)
    ctx.check_all_eq('input untouched', x, X)
    xt = ctx.make(X).requires_grad_(True)
    ref = xt
    for k in range(nblocks):
        ref = ref + torch.tanh(nets.plain(lin[2 * k + 1], torch.tanh(nets.plain(lin[2 * k], ref))))
    if nblocks:
        nets.same_gradients(ctx, 'gradient', [net(xt)], [ref], [p for l in lin for p in (l.weight, l.bias)] + [xt])


P = 'probe'
NETWORKS = [
    dict(blocks=[([P], None)]), dict(blocks=[([P, P], None)], spaces=True), dict(blocks=[([P, P, P], P)]), dict(blocks=[([P], 'IdentityLayer'), ([P, P], P)], spaces=True),
    dict(blocks=[([P + '+' + P], None)]), dict(blocks=[([P, P + '+' + P + '+' + P], P + '+' + P)], spaces=True), dict(blocks=[(['IdentityLayer+' + P], 'IdentityLayer'), ([P], None)]),
    dict(blocks=[(['linear', 'Tanh'], 'linear'), (['linear'], None)], D=2, N=1), dict(blocks=[(['linear', 'Sigmoid', 'linear'], 'IdentityLayer')], D=2, N=2, spaces=True),
    dict(blocks=[(['linear', 'ReLU'], None), (['reshape'], None), (['linear+IdentityLayer'], 'linear')], D=2, N=1), dict(blocks=[(['transpose', P], None), (['transpose'], None)], D=2, N=2),
    dict(blocks=[(['transpose', 'linear'], None)], D=2, N=2), dict(blocks=[(['reshape', P], 'reshape')], D=2, N=2, spaces=True), dict(blocks=[(['IdentityLayer'], 'IdentityLayer')], D=2, N=2),
    dict(blocks=[(['Identity+IdentityLayer+IdentityLayer'], None)], D=2, N=2),
    dict(blocks=[(['flat', P], None)], D=2, N=2), dict(blocks=[(['column'], None), ([P], 'IdentityLayer')], D=2, N=2, spaces=True), dict(blocks=[(['flat', 'column'], 'column'), (['flat'], None)], D=2, N=2),
]
DEEP = [dict(blocks=[([P, P, P], P), ([P + '+' + P, P], P), ([P, P], None)], D=2, N=2), dict(blocks=[(['linear', 'Tanh', 'linear'], 'linear'), (['linear', 'Sigmoid'], 'linear')], D=2, N=2)]
HARNESSES = [
    Harness('network', network, about='described networks by hand', quick=NETWORKS, thorough=DEEP),
    Harness('merge', merge, about='merged elements', quick=[dict(kinds=k, shared=s) for k in ('probe+probe', 'IdentityLayer+probe', 'linear+linear+probe', 'IdentityLayer+linear', 'probe+probe+linear+probe', 'linear+IdentityLayer+probe+linear+probe') for s in (False, True)]),
    Harness('separate', separate, about='elements of the same description', quick=[dict(blocks=[((2, 1), 0), ((1,), 1)]), dict(blocks=[((1, 1), 2)]), dict(blocks=[((3,), 0)]), dict(blocks=[((2,), 2)])]),
    Harness('values', values, about='values of the parameters', quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)]),
    Harness('unknown', unknown, about='unknown elements', quick=[dict()]),
    Harness('command', command, about='command of the recipes', quick=[dict(sets=True), dict(sets=False)]),
    Harness('residual', residual, about='residual network', quick=[dict(dim=d, nblocks=b, width=w, N=n) for d, b, w, n in ((1, 0, 1, 1), (1, 1, 2, 2), (2, 1, 1, 1), (1, 2, 1, 1), (2, 2, 2, 1), (1, 3, 1, 1))],
            thorough=[dict(dim=3, nblocks=2, width=2, N=2), dict(dim=2, nblocks=4, width=1, N=1)]),
]
