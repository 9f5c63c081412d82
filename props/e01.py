import itertools

from .common import *
from .scripts import Token, eqt, load, need, run, tokens

BOUNDS = ('Bounds: references and hypotheses of 0-3 tokens (0-4 in the thorough tier; up to 7 against 1-2 and 260 against none) with every pattern of equal and different tokens, 1-3 utterances; '
          'mappings of up to 3 pairs with every pattern of equal names.')
ASSUMPTIONS = ['the reference has at least one token', 'the mapping maps each token at most once']


def alignments(R, H):
    """every way to keep tokens in place, with the number of edits of the rest"""
    for k in range(min(R, H) + 1):
        for a in itertools.combinations(range(R), k):
            for b in itertools.combinations(range(H), k):
                cost, pa, pb = 0, -1, -1
                for x, y in list(zip(a, b)) + [(R, H)]:
                    cost += max(x - pa - 1, y - pb - 1)
                    pa, pb = x, y
                yield list(zip(a, b)), cost


def distance(ctx, label, got, r, h):
    some = []
    for al, cost in alignments(len(r), len(h)):
        same = [eqt(ctx, r[i], h[j]) for i, j in al]
        if cost < got:
            ctx.check('%s: %d edits although %d suffice' % (label, got, cost), ctx.not_(ctx.and_(True, *same)))
        elif cost == got:
            some.append(ctx.and_(True, *same))
    ctx.check('%s: %d edits are enough' % (label, got), ctx.or_(False, *some))


def direct(ctx, R, H):
    m = load('recipes/aud/utils/ter.py')
    need(m, 'wer')
    r, h = tokens(ctx, 'r', R, R + H), tokens(ctx, 'h', H, R + H)
    r0, h0 = list(r), list(h)
    got = m.wer(r, h)
    distance(ctx, 'distance', int(got), r0, h0)
    ctx.check('arguments unchanged', all(a is b for a, b in zip(r + h, r0 + h0)) and len(r + h) == len(r0 + h0))


def merged(ctx, s):
    out = []
    for t in s:
        if not out or not same(ctx, out[-1], t):
            out.append(t)
    return out


def same(ctx, a, b):
    return bool(a == b)


# names of utterances contained in one another, or differing in case
UTTS = ['u1', 'U1', 'u', 'u11', '1u']


def script(ctx, lens, mapping=0, merge=False, miss=0, order=True):
    """the reported rate"""
    n = sum(a + b for a, b in lens) + 2 * mapping
    ref, hyp = [], []
    for i, (a, b) in enumerate(lens):
        ref.append((UTTS[i], tokens(ctx, 'r%d_' % i, a, n)))
        hyp.append((UTTS[i], tokens(ctx, 'h%d_' % i, b, n)))
    files = dict(ref=[[u] + t for u, t in ref], hyp=[[u] + t for u, t in (hyp if order else hyp[::-1])])
    for k in range(miss):
        files['ref'].append(['u1_ref%d' % k] + ref[0][1])
        files['hyp'].insert(0, ['u1_hyp%d' % k] + hyp[0][1])
    argv = []
    if mapping:
        src, dst = tokens(ctx, 'p', mapping, n), tokens(ctx, 'q', mapping, n)
        for a, b in itertools.combinations(src, 2):
            ctx.assume(ctx.not_(eqt(ctx, a, b)))
        files['map'] = [[a, b] for a, b in zip(src, dst)]
        argv += ['--mapping', '@map']
    if merge:
        argv += ['--no-repeat']
    total, edits = 0, []
    for (u, r), (_, h) in zip(ref, hyp):
        if mapping:
            image = lambda t: [d for s, d in zip(src, dst) if same(ctx, s, t)]
            r, h = [d for t in r for d in image(t)], [d for t in h for d in image(t)]
        if merge:
            r, h = merged(ctx, r), merged(ctx, h)
        total += len(r)
        edits.append((r, h))
    ctx.assume(ctx.le(1, total))
    got = run(ctx, 'recipes/aud/utils/ter.py', argv + ['@ref', '@hyp'], files)
    rate = got.number(got.out[-1][-1]) * total / 100
    best = [least(ctx, r, h) for r, h in edits]
    ctx.check('token error rate', abs(rate - sum(best)) < 0.006 * max(total, 1))


def least(ctx, r, h):
    for n in range(max(len(r), len(h)) + 1):
        for al, cost in alignments(len(r), len(h)):
            if cost == n and all(same(ctx, r[i], h[j]) for i, j in al):
                return n


def mapped(ctx, N, M, unk):
    n = N + 2 * M
    utts = [('u0', tokens(ctx, 't', N, n)), ('u1', tokens(ctx, 's', 1, n))]
    src, dst = tokens(ctx, 'p', M, n), tokens(ctx, 'q', M, n)
    for a, b in itertools.combinations(src, 2):
        ctx.assume(ctx.not_(eqt(ctx, a, b)))
    files = dict(trans=[[u] + t for u, t in utts], map=[[a, b] for a, b in zip(src, dst)])
    covered = all(any(same(ctx, s, t) for s in src) for _, ts in utts for t in ts)
    argv = (['--unk', 'UNK'] if unk else []) + ['@map', '@trans']
    try:
        got = run(ctx, 'recipes/aud/utils/maptrans.py', argv, files).out
    except KeyError:
        ctx.check('a token without an image is reported', not covered)
        return
    ctx.check('a token without an image is reported or replaced', covered or unk)
    want = [[u] + [([d for s, d in zip(src, dst) if same(ctx, s, t)] + ['UNK'])[0] for t in ts] for u, ts in utts]
    ctx.check('number of utterances', len(got) == len(want))
    for g, w in zip(got, want):
        ctx.check('number of tokens', len(g) == len(w))
        for a, b in zip(g, w):
            ctx.check('mapped tokens', eqt(ctx, a, b))


HARNESSES = [
    Harness('distance', direct, quick=[dict(R=r, H=h) for r in range(4) for h in range(4)] + [dict(R=a, H=b) for a, b in ((7, 1), (1, 7), (5, 2), (2, 5), (260, 0), (0, 260))], thorough=[dict(R=6, H=2), dict(R=2, H=6), dict(R=12, H=1)] + [dict(R=4, H=h) for h in range(4)] + [dict(R=h, H=4) for h in range(4)] + [dict(R=4, H=4)],
            about='edit distance of two sequences'),
    Harness('script', script, about='token error rate of a set of utterances',
            quick=[dict(lens=((2, 3),)), dict(lens=((3, 2),)), dict(lens=((2, 1), (1, 2))), dict(lens=((1, 0), (0, 1), (1, 1)), order=False), dict(lens=((2, 2),), miss=1),
                   dict(lens=((3, 2),), merge=True), dict(lens=((2, 3),), merge=True), dict(lens=((2, 1),), mapping=2), dict(lens=((2, 1),), mapping=2, merge=True)],
            thorough=[dict(lens=((3, 3),)), dict(lens=((2, 2), (2, 1))), dict(lens=((3, 3),), merge=True), dict(lens=((2, 2),), mapping=2), dict(lens=((2, 2),), mapping=2, merge=True)]),
    Harness('mapping', mapped, quick=[dict(N=n, M=k, unk=u) for n, k in ((2, 1), (2, 2), (0, 1)) for u in (False, True)], thorough=[dict(N=3, M=2, unk=True), dict(N=2, M=3, unk=False)],
            about='mapping of transcriptions'),
]
