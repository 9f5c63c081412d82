import itertools

from .common import *
from .scripts import eqt, load, need, numeric, run, tokens

BOUNDS = ('Bounds: 1-2 utterances of 1-5 frames with every pattern of equal and different labels and tolerances 0-2; '
          'matching of 0-3 boundaries on either side at any increasing positions up to frame 200000 with any tolerance up to 20.')
ASSUMPTIONS = ['every utterance of the reference has a hypothesis and at least one frame']


def matchings(R, H):
    for k in range(min(R, H) + 1):
        for a in itertools.combinations(range(R), k):
            for b in itertools.permutations(range(H), k):
                yield list(zip(a, b))


def possible(ctx, ref, hyp, delta):
    """conditions under which each number of hits may be reported: some matching within the tolerance has that size, and leaves no
    pair within tolerance unmatched"""
    R, H = len(ref), len(hyp)
    near = [[ctx.and_(ctx.le(r - h, delta), ctx.le(h - r, delta)) for h in hyp] for r in ref]
    out = {}
    for m in matchings(R, H):
        ra, ha = {a for a, _ in m}, {b for _, b in m}
        c = ctx.and_(True, *([near[a][b] for a, b in m] + [ctx.not_(near[a][b]) for a in range(R) for b in range(H) if a not in ra and b not in ha]))
        out.setdefault(len(m), []).append(c)
    return {k: ctx.or_(False, *v) for k, v in out.items()}


def matching(ctx, R, H, equal=False):
    import numpy as np
    m = numeric(ctx, 'recipes/aud/utils/score_boundaries.py')
    need(m, 'get_hits')
    ref = [ctx.integer('r%d' % i, 2, 200000) for i in range(R)]
    hyp = ref[:] if equal else [ctx.integer('h%d' % i, 2, 200000) for i in range(H)]
    for s in (ref, hyp):
        for a, b in zip(s, s[1:]):
            ctx.assume(ctx.lt(a, b))
    delta = ctx.integer('delta', 0, 20)
    arr = lambda x: np.array(x, dtype=object if ctx.symbolic and x else int)
    ra, ha = arr(ref), arr(hyp)
    hits = int(m.get_hits(ra, ha, delta=delta))
    ctx.check('hits', possible(ctx, ref, hyp, delta).get(hits, ctx.or_(False, False)))
    if equal:
        ctx.check('identical boundaries all match', hits == R)
    for i in range(R):
        ctx.check_eq('reference unchanged', ra[i], ref[i])
    for i in range(len(hyp)):
        ctx.check_eq('hypothesis unchanged', ha[i], hyp[i])


def bounds(seq):
    """frames (from 1) where a new unit starts"""
    return [i + 1 for i in range(1, len(seq)) if not seq[i] == seq[i - 1]]


def script(ctx, lens, delta, equal=False, mapping=0):
    n = sum(a + b for a, b in lens) + 2 * mapping
    ref, hyp = [], []
    for i, (a, b) in enumerate(lens):
        ref.append(('utt%d' % i, tokens(ctx, 'r%d_' % i, a, n)))
        hyp.append(('utt%d' % i, list(ref[-1][1]) if equal else tokens(ctx, 'h%d_' % i, b, n)))
    argv, files = ['-d', str(delta)] if delta is not None else [], {}
    if mapping:
        src, dst = tokens(ctx, 'p', mapping, n), tokens(ctx, 'q', mapping, n)
        for a, b in itertools.combinations(src, 2):
            ctx.assume(ctx.not_(eqt(ctx, a, b)))
        files['map'] = [[a, b] for a, b in zip(src, dst)]
        argv += ['--mapping', '@map']
        image = lambda t: ([('image', d) for s, d in zip(src, dst) if s == t] + [('other', t)])[0]
    files.update(ref=[[u] + t for u, t in ref], hyp=[[u] + t for u, t in hyp[::-1]])
    if mapping:
        ref, hyp = [[(u, [image(t) for t in s]) for u, s in x] for x in (ref, hyp)]
    got = run(ctx, 'recipes/aud/utils/score_boundaries.py', argv + ['@ref', '@hyp'], files)
    line = ' '.join(str.__str__(w) for w in got.out[-1]).split(',')
    rec, prec, f = [got.number(x) / 100 for x in line]
    total = [set([0]), 0, 0]
    for (_, r), (_, h) in zip(ref, hyp):
        r, h = bounds(r), bounds(h)
        p = possible(ctx, r, h, 2 if delta is None else delta)
        ok = [k for k, c in p.items() if bool(c)]
        total = [{a + b for a in total[0] for b in ok}, total[1] + len(r), total[2] + len(h)]
    good = False
    for hits in total[0]:
        wr = hits / total[1] if total[1] else 0.
        wp = hits / total[2] if total[2] else 0.
        wf = 2 * wr * wp / (wr + wp) if wr + wp else 0.
        good = good or max(abs(rec - wr), abs(prec - wp), abs(f - wf)) < 1e-4
    ctx.check('recall, precision and F-score', good)
    if equal:
        ctx.check('identical segmentations score one', total[1] == 0 or min(rec, prec, f) > 0.99995)


HARNESSES = [
    Harness('matching', matching, quick=[dict(R=r, H=h) for r in range(4) for h in range(3)] + [dict(R=2, H=3), dict(R=0, H=3), dict(R=1, H=3)] + [dict(R=r, H=r, equal=True) for r in (1, 2, 3)],
            thorough=[dict(R=3, H=3), dict(R=4, H=2), dict(R=2, H=4), dict(R=4, H=4, equal=True)], about='number of hits'),
    Harness('script', script, about='recall, precision and F-score',
            quick=[dict(lens=((4, 4),), delta=0), dict(lens=((5, 4),), delta=1), dict(lens=((5, 5),), delta=2), dict(lens=((2, 3), (3, 2)), delta=1), dict(lens=((1, 3), (2, 1)), delta=1),
                   dict(lens=((5, 5), (2, 2)), delta=None, equal=True), dict(lens=((4, 4),), delta=0, equal=True), dict(lens=((2, 2),), delta=0, mapping=1), dict(lens=((2, 1),), delta=0, mapping=2), dict(lens=((3, 2),), delta=0, mapping=1)],
            thorough=[dict(lens=((6, 6),), delta=1), dict(lens=((6, 6),), delta=2), dict(lens=((3, 4), (4, 3)), delta=1), dict(lens=((3, 3),), delta=0, mapping=2)]),
]
