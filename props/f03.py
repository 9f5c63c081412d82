from .common import *
from .scripts import Scratch, numeric, load, same, tokens, values, vector

BOUNDS = ('Bounds: 1-3 utterances of 1-4 frames of 1-2 coefficients with arbitrary values, contexts of 0-5 frames; alignments of 1-5 frames over 3 densities with every sharing of labels.')
ASSUMPTIONS = ['an utterance has at least one frame', 'the frame in the middle of an even number of frames is either of the two']
DIR = 'recipes/timit_v2/utils/'


def matrix(ctx, tag, T, D):
    return [[ctx.real('%s%d_%d' % (tag, t, d)) for d in range(D)] for t in range(T)]


def stats(ctx, lens, D):
    x = {'utt%d' % i: matrix(ctx, 'x%d_' % i, n, D) for i, n in enumerate(lens)}
    with Scratch(ctx) as s:
        s.archive('fea.npz', x)
        s.script(DIR + 'features-stats.py', ['@fea.npz', '@out.npz'])
        got = s.loaded('out.npz')
        mean, var, n = got['mean'], got['var'], got['nframes']
    rows = [r for v in x.values() for r in v]
    N = len(rows)
    mu = [ctx.sum(c) / N for c in zip(*rows)]
    same(ctx, 'mean', mean, mu)
    same(ctx, 'variance', var, [ctx.sum([(v - m) * (v - m) for v in c]) / N for c, m in zip(zip(*rows), mu)])
    ctx.check('frames', int(n) == N)


def stack(ctx, lens, D, context):
    x = {'utt%d' % i: matrix(ctx, 'x%d_' % i, n, D) for i, n in enumerate(lens)}
    with Scratch(ctx) as s:
        s.archive('fea.npz', x)
        s.script(DIR + 'features-stack-parallel.py', ['--context', str(context), '@fea.npz', '@'], stdin=[[u] for u in reversed(list(x))])
        for u, v in x.items():
            T = len(v)
            same(ctx, u, s.loaded(u + '.npy'), [[c for k in range(-context, context + 1) for c in v[min(max(t + k, 0), T - 1)]] for t in range(T)])


def central(ctx, lens, D=1, densities=3):
    """one frame per run of equal labels, in its middle"""
    import numpy as np
    names = tokens(ctx, 'n', densities, 2)
    ali = {'utt%d' % i: [ctx.choice('a%d_%d' % (i, j), densities) for j in range(n)] for i, n in enumerate(lens)}
    x = {u: matrix(ctx, 'x%d_' % i, len(a), D) for i, (u, a) in enumerate(ali.items())}
    distinct = [t for i, t in enumerate(names) if not any(t == y for y in names[:i])]
    number = lambda t: 5 + [i for i, y in enumerate(distinct) if y == t][0]
    with Scratch(ctx) as s:
        s.archive('ali.npz', ali)
        s.archive('fea.npz', x)
        s.script(DIR + 'features-extract-central-frame.py', ['@phones', '@ali.npz', '@map', '@fea.npz', '@out.npz'],
                 dict(phones=[[t, str(number(t))] for t in distinct], map=[[str(i), t] for i, t in enumerate(names)]), stdin=[[u] for u in ali])
        got = s.loaded('out.npz')
        fea, lab = values(ctx, got['features']), [int(v) for v in got['labels']]
    runs = []
    for u, a in ali.items():
        for t, k in enumerate(a):
            if t and names[a[t - 1]] == names[k]:
                runs[-1][2].append(x[u][t])
            else:
                runs.append([u, names[k], [x[u][t]]])
    ctx.check('one frame per token', len(fea) == len(runs) and len(lab) == len(runs))
    for (u, t, rows), f, l in zip(runs, fea, lab):
        ctx.check('number of the token', l == number(t))
        n = len(rows)
        mid = {(n - 1) // 2, n // 2}
        ctx.check('a frame in the middle of the token', ctx.or_(False, *[ctx.and_(True, *[ctx.equal(p, q) for p, q in zip(f, rows[i])]) for i in sorted(mid)]))


HARNESSES = [
    Harness('stats', stats, about='mean and variance of all frames', quick=[dict(lens=(3,), D=2), dict(lens=(1, 2), D=1), dict(lens=(1,), D=1), dict(lens=(2, 1, 2), D=2)], thorough=[dict(lens=(4, 3, 5), D=3)]),
    Harness('stack', stack, about='stacking of adjacent frames', quick=[dict(lens=(3,), D=2, context=1), dict(lens=(1, 4), D=1, context=2), dict(lens=(2,), D=2, context=0), dict(lens=(2,), D=1, context=3), dict(lens=(3, 9), D=1, context=5)],
            thorough=[dict(lens=(6, 1, 4), D=3, context=3)]),
    Harness('central', central, about='central frames', quick=[dict(lens=(1,)), dict(lens=(3,), D=2), dict(lens=(4,)), dict(lens=(2, 2))], thorough=[dict(lens=(5,)), dict(lens=(3, 3))]),
]
