import itertools

from .common import *
from .scripts import Scratch, load, numeric, need, same, values, vector
from . import scripts

BOUNDS = ('Bounds: 1-3 units of 1-3 states in every order of their density blocks, state paths of up to 4 frames (every step the topology allows: staying, advancing, skipping, '
          'going back to the first state, leaving for any unit); posteriors of up to 3 frames with arbitrary values; commands: 2 utterances of 1-2 frames with arbitrary features (order of the output: 7 utterances of one frame; posteriors of units of up to 7 states).')
ASSUMPTIONS = ['units are entered through their first state (what the decoding-graph command records)',
               'consecutive frames in one first state count as one visit: a path of density indices does not tell them apart']
DIR = 'beer/cli/subcommands/hmm/'


def name(i):
    """the alphabetical order of the units is not that of their densities"""
    return 'u%d' % (9 - i)


def layout(ctx, sizes):
    """density block of every unit; units listed in an arbitrary order"""
    n = len(sizes)
    order = list(itertools.permutations(range(n)))[ctx.choice('order', [1, 1, 2, 6][n])]
    first, pos = {}, 0
    for i in range(n):
        first[i] = pos
        pos += sizes[i]
    return order, {name(i): first[i] for i in order}, {name(i): first[i] + sizes[i] - 1 for i in order}


def entries(path, start, per_frame):
    """units visited along a path of density indices"""
    sym = {v: k for k, v in start.items()}
    out = []
    for t, s in enumerate(path):
        if t == 0 or (s in sym and s != path[t - 1]):
            out.append(sym[s])
        elif per_frame:
            out.append(out[-1])
    return out


def walk(ctx, sizes, start, N):
    """any path the topologies allow"""
    n = len(sizes)
    u, k = ctx.choice('unit0', n), 0
    path = [start[name(u)]]
    for t in range(1, N):
        # stay, any other state of the unit, or (after the last state) enter any unit
        c = ctx.choice('step%d' % t, sizes[u] + (n if k == sizes[u] - 1 else 0))
        if c < sizes[u]:
            k = c
        else:
            u, k = c - sizes[u], 0
        path.append(start[name(u)] + k)
    return path


def units(ctx, sizes, N):
    m = load(DIR + 'decode.py')
    need(m, 'state2phone')
    _, start, _ = layout(ctx, sizes)
    path = walk(ctx, sizes, start, N)
    pf = ctx.flag('per_frame')
    saved = list(path), dict(start)
    got = list(m.state2phone(path, start, pf))
    ctx.check('units along the path', got == entries(path, start, pf))
    ctx.check('arguments unchanged', (path, start) == saved)
    if pf:
        ctx.check('one unit per frame', len(got) == N)


def sums(ctx, sizes, N):
    m = numeric(ctx, DIR + 'posteriors.py')
    need(m, 'state2phone')
    order, start, end = layout(ctx, sizes)
    S = sum(sizes)
    post = [[ctx.real('p%d_%d' % (t, s), 0, 1) for s in range(S)] for t in range(N)]
    got = m.state2phone(vector(ctx, post), start, end)
    want = [[ctx.sum([p[s] for s in range(start[u], end[u] + 1)]) for u in start] for p in post]
    same(ctx, 'posterior of a unit', got, want)
    for t in range(N):
        ctx.check_eq('no mass is lost', ctx.sum(values(ctx, got)[t]), ctx.sum(post[t]))


def model(ctx, sizes, kind='unigram'):
    """phone loop with Normal emissions"""
    import beer
    from beer.graph import Graph
    g = Graph()
    g.start_state, g.end_state = g.add_state(), g.add_state()
    start, end, hmms = {}, {}, {}
    pdf, last = 0, []
    for i, n in enumerate(sizes):
        h = Graph()
        h.start_state = h.add_state()
        ids = [g.add_state(pdf_id=pdf + k) for k in range(n)]
        hids = [h.add_state(pdf_id=pdf + k) for k in range(n)]
        h.end_state = h.add_state()
        h.add_arc(h.start_state, hids[0], 1.)
        for k in range(n):
            h.add_arc(hids[k], hids[k], .5)
            h.add_arc(hids[k], hids[k + 1] if k + 1 < n else h.end_state, .5)
            g.add_arc(ids[k], ids[k], .5)
            if k + 1 < n:
                g.add_arc(ids[k], ids[k + 1], .5)
        g.add_arc(g.start_state, ids[0], 1. / len(sizes))
        g.add_arc(ids[-1], g.end_state, .25)
        last.append((ids[0], ids[-1]))
        start['u%d' % i], end['u%d' % i] = pdf, pdf + n - 1
        hmms['u%d' % i] = h
        pdf += n
    for _, b in last:
        for a, _ in last:
            if a != b:
                g.add_arc(b, a, .25 / len(sizes))
    S = pdf
    mean = torch.tensor([[float(2 * k)] for k in range(S)])
    em = beer.NormalSet.create(torch.zeros(1), torch.ones(1), S, prior_strength=1., noise_std=0., cov_type='diagonal')
    em.means_precisions.posterior.params.mean = mean
    w = beer.Categorical.create(torch.ones(len(sizes)) / len(sizes), prior_strength=1.)
    return beer.PhoneLoop.create(g.compile(), start, end, em, w), hmms


def dataset(ctx, s, N):
    from beer.cli import dataset as D
    s.proxy(D)
    X = {'utt%d' % i: [[ctx.real('x%d_%d' % (i, t))] for t in range(n)] for i, n in reversed(list(enumerate(N)))}
    s.archive('feats.npz', X)
    s.pickle('data', D.Dataset(s.path('feats.npz'), torch.zeros(1), torch.ones(1), sum(N)))
    return X


def wanted(ctx, s, given, names):
    """which utterances the command is asked for -> (arguments, stdin, names)"""
    if given == 'all':
        return [], [], names
    ask = names[::-1] + ['nobody'] if given == 'stdin' else ['nobody', names[0]]
    lines = [u + ' more words' for u in ask]
    if given == 'stdin':
        return ['-u', '-'], lines, names[::-1]
    s.text('utts', lines)
    return ['-u', '@utts'], [], [names[0]]


def decode(ctx, sizes, N, given='all', per_frame=False, ali=False, scale=None):
    with Scratch(ctx) as s:
        m, hmms = model(ctx, sizes)
        X = dataset(ctx, s, N)
        s.pickle('model', m)
        opts, stdin, names = wanted(ctx, s, given, sorted(X))
        opts += ['--per-frame'] if per_frame else []
        opts += ['-s', str(scale)] if scale else []
        graphs = {}
        if ali:
            import os
            os.mkdir(s.path('ali'))
            s.pickle('hmms', (hmms, None))
            s.command(DIR + 'mkaligraph.py', ['@hmms', '@ali'], stdin=['utt0 ' + ali])
            s.command('beer/cli/subcommands/features/archive.py', ['@ali', '@alis.npz'])
            graphs['utt0'] = s.loaded('ali/utt0.npy')[0]
            opts += ['-a', '@alis.npz']
        out = s.command(DIR + 'decode.py', opts + ['@model', '@data'], stdin=stdin)
        ctx.check('one line per utterance asked for', [l[0] for l in out] == names)
        for l in out:
            path = [int(ctx.scalar(v)) for v in m.decode(ctx.make(X[l[0]]), inference_graph=graphs.get(l[0]), scale=scale or 1.)]
            ctx.check('units of the best path', l[1:] == entries(path, m.start_pdf, per_frame))
            if l[0] in graphs:
                ctx.check('the aligned utterance follows its transcription', per_frame or l[1:] == ali.split())


def posteriors(ctx, sizes, N, given='all', state=False, log=False, scale=None):
    with Scratch(ctx) as s:
        m, _ = model(ctx, sizes)
        X = dataset(ctx, s, N)
        s.pickle('model', m)
        opts, stdin, names = wanted(ctx, s, given, sorted(X))
        opts += (['--state'] if state else []) + (['--log'] if log else []) + (['-s', str(scale)] if scale else [])
        import os
        os.mkdir(s.path('out'))
        s.command(DIR + 'posteriors.py', opts + ['@model', '@data', '@out'], stdin=stdin)
        got = {u: s.loaded('out/%s.npy' % u) for u in names}
        if not ctx.symbolic:
            ctx.check('nothing else is written', sorted(os.listdir(s.path('out'))) == sorted(u + '.npy' for u in names))
        for u in names:
            post = ctx.scalars(m.posteriors(ctx.make(X[u]), scale=scale or 1.))
            if not state:
                post = [[ctx.sum([p[k] for k in range(m.start_pdf[v], m.end_pdf[v] + 1)]) for v in m.start_pdf] for p in post]
            if log:
                post = [[ctx.log(v + 1e-5) for v in p] for p in post]
            same(ctx, 'posteriors of %s' % u, got[u], post)


def align(ctx, sizes, N, script, ali=None, per_frame=False):
    """state alignments written by the recipe scripts"""
    import os
    with Scratch(ctx) as s:
        m, hmms = model(ctx, sizes)
        X = dataset(ctx, s, N)
        s.pickle('model', m)
        graphs, opts = {}, []
        if ali:
            os.mkdir(s.path('ali'))
            s.pickle('hmms', (hmms, None))
            s.command(DIR + 'mkaligraph.py', ['@hmms', '@ali'], stdin=['%s %s' % l for l in ali.items()])
            s.command('beer/cli/subcommands/features/archive.py', ['@ali', '@alis.npz'])
            graphs = {u: s.loaded('ali/%s.npy' % u)[0] for u in ali}
            opts = ['--ali-graphs', '@alis.npz']
        os.mkdir(s.path('out'))
        names = sorted(X)[::-1]
        s.script('recipes/timit_v2/utils/' + script, opts + ['@model', '@feats.npz', '@out'], stdin=[[u] for u in names])
        ctx.check('one file per utterance', sorted(os.listdir(s.path('out'))) == sorted(u + '.npy' for u in names))
        for u in names:
            path = [int(v) for v in s.loaded('out/%s.npy' % u)]
            want = [int(ctx.scalar(v)) for v in m.decode(ctx.make(X[u]), inference_graph=graphs.get(u))]
            ctx.check('best path of %s' % u, path == want)
            if ali:
                ctx.check('the path of %s follows its transcription' % u, entries(path, m.start_pdf, False) == ali[u].split())


HARNESSES = [
    Harness('units', units, quick=[dict(sizes=s, N=4) for s in ((1, 2), (2, 2), (3, 1))] + [dict(sizes=(1, 1, 2), N=3), dict(sizes=(1,), N=3), dict(sizes=(2, 3), N=1)],
            thorough=[dict(sizes=(2, 1, 2), N=5), dict(sizes=(3, 3), N=6)], about='units along a state path'),
    Harness('sums', sums, quick=[dict(sizes=s, N=2) for s in ((1, 2), (3, 1, 2), (2,), (1, 1), (4, 1), (1, 7))], thorough=[dict(sizes=(3, 3, 3), N=3)], about='posteriors of the units'),
    Harness('decode', decode, about='decoding command',
            quick=[dict(sizes=(1, 2), N=(2, 1)), dict(sizes=(2, 1), N=(1, 2), given='stdin', per_frame=True), dict(sizes=(1, 1), N=(2, 1), given='file', scale=0.5),
                   dict(sizes=(1,), N=(1,) * 7, scale=1e-9), dict(sizes=(1, 2), N=(4, 1), ali='u1 u1'), dict(sizes=(2, 1), N=(3, 1), ali='u1 u0', given='stdin')],
            thorough=[dict(sizes=(1, 2), N=(4, 1)), dict(sizes=(2, 2), N=(4, 1), ali='u1 u0')]),
    Harness('posteriors', posteriors, about='posteriors command',
            quick=[dict(sizes=(1, 2), N=(2, 1)), dict(sizes=(2, 1), N=(1, 2), given='stdin', log=True), dict(sizes=(1, 1), N=(1, 1), given='file', state=True, scale=2.),
                   dict(sizes=(1, 1), N=(1, 1), log=True, scale=.5), dict(sizes=(4, 1), N=(1, 1)), dict(sizes=(1, 6), N=(1,), log=True)],
            thorough=[dict(sizes=(2, 3), N=(2, 1))]),
    Harness('align', align, about='alignment and decoding scripts of the recipes',
            quick=[dict(sizes=(1, 2), N=(2, 3), script='hmm-align.py', ali=dict(utt0='u1', utt1='u0 u1')), dict(sizes=(2, 1), N=(3, 1), script='hmm-align.py', ali=dict(utt0='u0 u1', utt1='u1')),
                   dict(sizes=(1, 1), N=(2, 1), script='hmm-align.py'), dict(sizes=(1, 1), N=(1, 2), script='hmm-decode-parallel.py')]),
]
