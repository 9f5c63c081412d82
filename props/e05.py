from .common import *
from .e01 import UTTS
from .scripts import Scratch, Token, load, tokens

BOUNDS = ('Bounds: 1-2 utterances of 0-3 tokens with every pattern of equal and different tokens, up to 2 removed units, mappings of 3 units onto any.')
ASSUMPTIONS = ['the filtered references have at least one token', 'every unit of the transcriptions is in the mapping', 'the printed rate is rounded to two decimals']
PATH = 'recipes/timit_v2/utils/score.py'


class Counted(int):
    """number of edits found by exhaustive comparison"""


def kept(m, t, remove, mapping):
    """filtered token, or None"""
    if mapping is None:
        return None if any(t == x for x in remove) else t
    image = [b for a, b in mapping if a == t][-1]
    return None if any(t == x for x in remove) or any(image == x for x in remove) else image


def filtered(toks, remove, mapping, merge):
    out = [t for t in (kept(None, t, remove, mapping) for t in toks) if t is not None]
    return [t for i, t in enumerate(out) if not (merge and i and out[i - 1] == t)]


def edits(ctx, r, h):
    """length of the shortest edit script by enumeration of alignments"""
    from .e01 import alignments
    best = None
    for al, cost in alignments(len(r), len(h)):
        if (best is None or cost < best) and all(r[i] == h[j] for i, j in al):
            best = cost
    return best


def score(ctx, lens, remove=0, mapping=0, merge=None):
    """the printed rate"""
    from symx.ctx import PathInfeasible
    n = sum(a + b for a, b in lens) if not mapping else mapping
    pool = tokens(ctx, 'p', mapping, 2 * mapping) if mapping else None
    pick = (lambda tag, k: [pool[ctx.choice('%s%d' % (tag, i), mapping)] for i in range(k)]) if mapping else (lambda tag, k: tokens(ctx, tag, k, n))
    ref = [(UTTS[i], pick('r%d_' % i, a)) for i, (a, b) in enumerate(lens)]
    hyp = [(UTTS[i], pick('h%d_' % i, b)) for i, (a, b) in enumerate(lens)]
    rem = tokens(ctx, 'x', remove, n)
    pairs = [(p, q) for p, q in zip(pool, tokens(ctx, 'q', mapping, 2 * mapping))] if mapping else None
    fr = [filtered(t, rem, pairs, merge == 'no') for _, t in ref]
    if not sum(map(len, fr)):
        raise PathInfeasible()      # empty references are excluded
    fh = [filtered(t, rem, pairs, merge == 'no') for _, t in hyp]
    args = []
    if remove:
        args += ['--remove', rem]
    if merge:
        args += ['--duplicate', merge]
    if mapping:
        args += ['--phone_map', '@map']
    files = dict(ref=[[u] + t for u, t in ref], hyp=[[u] + t for u, t in hyp[::-1]], map=[list(p) for p in pairs or []])
    with Scratch(ctx) as s:
        got = s.script(PATH, args + ['@ref', '@hyp'], files, sep=' ')
    v = float(got.out[-1][-1])
    want = 100 * sum(edits(ctx, a, b) for a, b in zip(fr, fh)) / sum(map(len, fr))
    ctx.check('the rate is the shortest edit distance in percent', abs(v - want) < 0.00501)


def different(ctx):
    """files with different utterances are refused"""
    with Scratch(ctx) as s:
        try:
            utts = [['a', 'b'], ['a', 'c'], ['a'], ['a', 'b', 'c'], ['A', 'b'], ['b', 'a', 'ab']]
            k = ctx.choice('difference', len(utts) - 1)
            a, b = [[[u, 'x'] for u in us] for us in (utts[0], utts[k + 1])]
            s.script(PATH, ['@ref', '@hyp'], dict(ref=a, hyp=b))
            ctx.fail('accepted')
        except RuntimeError:
            ctx.check('refused', True)


HARNESSES = [
    Harness('score', score, about='phone error rate', quick=[dict(lens=[(1, 1)]), dict(lens=[(300, 0)]), dict(lens=[(0, 300), (1, 0)]), dict(lens=[(1, 6)]), dict(lens=[(6, 1)]), dict(lens=[(2, 2)]), dict(lens=[(3, 2)]), dict(lens=[(1, 0), (1, 2)]), dict(lens=[(2, 1)], remove=1), dict(lens=[(2, 1)], remove=2), dict(lens=[(2, 2)], merge='no'),
                                                            dict(lens=[(2, 1)], mapping=2), dict(lens=[(1, 1)], mapping=2, remove=1), dict(lens=[(2, 1)], mapping=2, merge='no'), dict(lens=[(2, 1)], mapping=2, remove=1, merge='no')],
            thorough=[dict(lens=[(3, 3)]), dict(lens=[(2, 2), (1, 1)]), dict(lens=[(2, 2)], mapping=3, remove=1, merge='no')]),
    Harness('different', different, about='mismatching files', quick=[dict()]),
]
