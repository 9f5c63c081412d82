import copy

from .common import *
from .scripts import Scratch, same
from .c03 import model as phone_loop

BOUNDS = ('Bounds: 1-3 utterances of 1-2 frames with arbitrary features of dimension 1-2, every split of the utterances into up to 2 jobs (3 in the thorough tier) and both '
          'orders inside a job and of the saved files, empty jobs included; phone loops of 2 units and 2-3 states with Normal densities; 1-2 rounds of training.')
ASSUMPTIONS = ['every utterance has at least one frame and all have the same dimension', 'single precision is treated as exact arithmetic',
               'the order drawn by the iterator for random visits is any permutation (checked for the one drawn)',
               'single-machine training with batches: the utterances of an epoch that do not fill a batch are left out of it']
DIR = 'beer/cli/subcommands/hmm/'


def features(ctx, N, D):
    return {u: [[ctx.real('x%s_%d_%d' % (u[0], t, d)) for d in range(D)] for t in range(n)] for u, n in zip(UTTS, N)}


UTTS = ['b.1', 'a-2_x', 'c']


def create(ctx, s, X, inside=False):
    import os
    from beer.cli import dataset as D
    s.proxy(D)
    s.archive('feats.npz', X)
    here = os.getcwd()
    if inside:          # the features are named from the current folder, and read from another one later
        os.chdir(s.dir)
    try:
        s.command('beer/cli/subcommands/dataset/create.py', [s.dir, 'feats.npz' if inside else '@feats.npz', '@data'])
    finally:
        os.chdir(here)
    return s.unpickle('data')


def dataset(ctx, N, D, inside=False):
    """statistics of the data set and visits of the utterances"""
    with Scratch(ctx) as s:
        X = features(ctx, N, D)
        data = create(ctx, s, X, inside)
        F = [f for u in X for f in X[u]]
        n = len(F)
        mean = [ctx.sum([f[d] for f in F]) * ctx.frac(1, n) for d in range(D)]
        ctx.check('number of frames', data.size == n)
        ctx.check('number of utterances', len(data) == len(X))
        ctx.check_all_eq('global mean', data.mean, mean)
        ctx.check_all_eq('global variance', data.var, [ctx.sum([(f[d] - mean[d]) ** 2 for f in F]) * ctx.frac(1, n) for d in range(D)])

        def visit(data, order):
            got = list(data.utterances(random_order=order))
            ids = [u.id for u in got]
            ctx.check('every utterance once', sorted(ids) == sorted(X))
            ctx.check('sorted when asked', order or ids == sorted(X))
            for u in got:
                ctx.check_all_eq('features of %s' % u.id, u.features, X[u.id])
        visit(data, False)
        visit(data, True)
        visit(data, False)
        for u in X:
            g = data[u]
            ctx.check('identifier', g.id == u)
            ctx.check_all_eq('features of %s by name' % u, g.features, X[u])
        try:
            data['nobody']
            ctx.fail('an unknown utterance is refused')
        except KeyError:
            pass
        s.pickle('again', data)
        again = s.unpickle('again')
        ctx.check('stored data set', again.size == n and len(again) == len(X))
        visit(again, False)
        visit(data, False)


def archive(ctx, n, ext):
    """features of a folder in one archive, under the names of the utterances"""
    import os
    import numpy as np
    ids = ['u%d' % i for i in range(n - 4)] + ['v.1', 'w-2_b', 'npz', 'x.y.z']
    X = {u: [[i + .5 * d - 3. for d in range(2)] for _ in range(1 + i % 2)] for i, u in enumerate(ids)}
    with Scratch(ctx) as s:
        os.mkdir(s.path('feats'))
        for u, x in X.items():
            with open(s.path('feats/%s.%s' % (u, ext or 'npy')), 'wb') as f:
                np.save(f, np.array(x))
        s.text('feats/notes.txt', ['nothing'])
        s.text('feats/u0.%s.lock' % (ext or 'npy'), ['nothing'])
        s.command('beer/cli/subcommands/features/archive.py', (['-e', ext] if ext else []) + ['@feats', '@all.npz'])
        z = np.load(s.path('all.npz'))
        ctx.check('utterances of the archive', sorted(z.keys()) == sorted(ids))
        for u in ids:
            if u in z.keys():
                ctx.check('features of %s' % u, z[u].tolist() == X[u])


def nats(ctx, m):
    return [ctx.scalars(p.posterior.natural_parameters()) for p in m.bayesian_parameters()]


def reference(ctx, m, X, order, scale, graphs, lrate, count, size):
    """one accumulation and one update in memory"""
    import beer
    m = copy.deepcopy(m)
    opt = beer.VBConjugateOptimizer(m.conjugate_bayesian_parameters(keepgroups=True), lrate)
    opt.update_count = count
    opt.init_step()
    e = beer.evidence_lower_bound(datasize=size)
    for u in order:
        e += beer.evidence_lower_bound(m, ctx.make(X[u]), datasize=size, scale=scale, inference_graph=graphs.get(u))
    e.backward()
    opt.step()
    return m


def pipeline(ctx, sizes, N, jobs=2, rounds=1, scale=None, ali=None, lrate=1., missing=0, state=False):
    import os
    with Scratch(ctx) as s:
        m, hmms = phone_loop(ctx, sizes)
        X = features(ctx, N, 1)
        create(ctx, s, X)
        size = sum(N)
        s.pickle('model0', m)
        graphs, opts = {}, ['-s', str(scale)] if scale else []
        if ali:
            os.mkdir(s.path('ali'))
            s.pickle('hmms', (hmms, None))
            s.command(DIR + 'mkaligraph.py', ['@hmms', '@ali'], stdin=['%s %s' % l for l in ali.items()])
            s.command('beer/cli/subcommands/features/archive.py', ['@ali', '@alis.npz'])
            graphs = {u: s.loaded('ali/%s.npy' % u)[0] for u in ali}
            opts += ['-a', '@alis.npz']
        split = [[] for _ in range(jobs)]
        for u in X:
            split[ctx.choice('job_of_' + u, jobs)].append(u)
        if ctx.flag('reversed'):
            split = [j[::-1] for j in split[::-1]]
        for r in range(rounds):
            for j, us in enumerate(split):
                lines = [u + ' text' for u in us]
                s.command(DIR + 'accumulate.py', opts + ['@model%d' % r, '@data', '@elbo%d' % j], stdin=lines[:missing - 1] + ['nobody'] + lines[missing - 1:] if missing else lines)
                ctx.check('number of utterances', s.unpickle('elbo%d' % j)[1] == len(us))
            before = nats(ctx, s.unpickle('model%d' % r))
            up = ['-l', str(lrate)] + (['-o', '@optim'] if state else [])
            s.command(DIR + 'update.py', up + ['@model%d' % r, '@model%d' % (r + 1)], stdin=[s.path('elbo%d' % j) for j in range(jobs)])
            m = reference(ctx, m, X, sorted(X), scale or 1., graphs, lrate, r if state else 0, size)
            if state:
                st = torch.load(s.path('optim'))
                ctx.check('stored state of the optimizer', st == dict(lrate=lrate, update_count=r + 1))
            got = s.unpickle('model%d' % (r + 1))
            for i, (a, b) in enumerate(zip(nats(ctx, got), nats(ctx, m))):
                ctx.check_all_eq('round %d: parameter %d' % (r, i), a, b)
            ctx.check_all_eq('round %d: transitions' % r, got.graph.trans_log_probs.exp(), m.graph.trans_log_probs.exp())
            ctx.check_all_eq('the model that was read is unchanged', nats(ctx, s.unpickle('model%d' % r)), before)


def train(ctx, sizes, N, batch=None, epochs=1, lrate=None):
    """the single-machine command: one update per full batch of utterances, in the order the utterances are visited"""
    from unittest import mock
    from beer.cli import dataset as D
    n = len(N)
    batch_size = batch or n
    # any rotation of the utterances in each epoch
    turns = [ctx.choice('turn%d' % r, n) if batch_size < n else 0 for r in range(epochs)]
    orders = [sorted(UTTS[:n])[t:] + sorted(UTTS[:n])[:t] for t in turns]
    drawn = iter(orders)

    def utterances(data, random_order=True):
        return iter([data[u] for u in next(drawn)])
    with Scratch(ctx) as s, mock.patch.object(D.Dataset, 'utterances', utterances):
        m, _ = phone_loop(ctx, sizes)
        X = features(ctx, N, 1)
        create(ctx, s, X)
        s.pickle('model', m)
        s.command(DIR + 'train.py', (['-b', str(batch)] if batch else []) + ['-e', str(epochs)] + (['-l', str(lrate)] if lrate else []) + ['@model', '@data', '@out'])
        count = 0
        for order in orders:
            for k in range(0, n - batch_size + 1, batch_size):
                m = reference(ctx, m, X, order[k:k + batch_size], 1., {}, lrate or 1., count, sum(N))
                count += 1
        for i, (a, b) in enumerate(zip(nats(ctx, s.unpickle('out')), nats(ctx, m))):
            ctx.check_all_eq('parameter %d' % i, a, b)


O = dict(float_nan=True, assume_positive=True)
HARNESSES = [
    Harness('dataset', dataset, quick=[dict(N=(2, 1), D=2), dict(N=(1, 2, 2), D=1), dict(N=(1,), D=1), dict(N=(1, 2), D=1, inside=True)], thorough=[dict(N=(3, 3, 2), D=3)], about='compiling a data set and reading it back'),
    Harness('archive', archive, quick=[dict(n=12, ext=None), dict(n=7, ext='fea')], about='archives of feature files (fixed features)'),
    Harness('pipeline', pipeline, opts=O, about='accumulate and update commands against one update in memory',
            quick=[dict(sizes=(1, 1), N=(2, 1), state=True), dict(sizes=(1, 1), N=(1, 1), rounds=2, state=True), dict(sizes=(2, 1), N=(1, 2), scale=0.5, missing=1),
                   dict(sizes=(1, 2), N=(2, 1), ali={'b.1': 'u1'}, lrate=0.25), dict(sizes=(1, 1), N=(1, 1), jobs=1)],
            thorough=[dict(sizes=(1, 1), N=(1, 1, 1), jobs=3), dict(sizes=(1, 2), N=(2, 2), rounds=2, state=True, lrate=0.5)]),
    Harness('train', train, opts=O, quick=[dict(sizes=(1, 1), N=(2, 1)), dict(sizes=(1, 1), N=(1, 1), batch=2, lrate=0.5), dict(sizes=(2, 1), N=(1, 1), epochs=2),
                                           dict(sizes=(1, 1), N=(1, 1, 1), batch=2, epochs=2), dict(sizes=(1, 1), N=(1, 1), batch=1, lrate=0.5)],
            thorough=[dict(sizes=(2, 1), N=(1, 2), batch=1)],
            about='single-machine training command'),
]
