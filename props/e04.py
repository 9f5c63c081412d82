import math

from .common import *
from .e03 import drop
from .scripts import Scratch, tokens

BOUNDS = ('Bounds: transcriptions of up to 2 utterances of 0-3 tokens with every pattern of equal tokens; 1-2 aligned utterances of 0-3 frames over up to 4 states with '
          'every sharing of units between states; tables of up to 3 by 3 arbitrary positive counts.')
ASSUMPTIONS = ['printed numbers are compared before they are rounded']
ENTROPY = 'recipes/aud/utils/entropy_rate.py'
COMPARE = 'recipes/timit_v2/utils/compare-alignments.py'
MUTUAL = 'recipes/timit_v2/utils/mutual-information.py'


def l2(ctx, v):
    return ctx.log(v) / ctx.log(ctx.frac(2))


def number(ctx, got, text):
    """a printed number (with a trailing comma or percent sign)"""
    return got.number(text.rstrip(',%'))


def groups(ctx, ts):
    """[(token, occurrences)] of the distinct tokens"""
    out = []
    for t in ts:
        for g in out:
            if g[0] == t:
                g[1] += 1
                break
        else:
            out.append([t, 1])
    return out


def entropy(ctx, lens):
    utts = [tokens(ctx, 'u%d_' % i, n, sum(lens)) for i, n in enumerate(lens)]
    with Scratch(ctx) as s:
        got = s.script(ENTROPY, ['@trans'], dict(trans=[['utt%d' % i] + u for i, u in enumerate(utts)]))
    runs = [t for u in utts for i, t in enumerate(u) if i == 0 or not u[i - 1] == t]
    counts = [n for _, n in groups(ctx, runs)]
    h = -sum(c / sum(counts) * math.log2(c / sum(counts)) for c in counts)
    a, b = (number(ctx, got, w) for w in got.out[-1])
    ctx.check('entropy of the units', abs(a - h) < 6e-3)
    ctx.check('perplexity', abs(b - 2 ** h) < 6e-3)


def compare(ctx, lens, states, missing=False, grouped=False, eps=0.25, extra=0):
    """confusion counts of two sets of alignments"""
    R = tokens(ctx, 'r', states, states)
    H = tokens(ctx, 'h', states, states)
    ref = {'utt%d' % i: [ctx.choice('a%d_%d' % (i, j), states) for j in range(n)] for i, n in enumerate(lens)}
    hyp = {u: [(2 * x + j) % states for j, x in enumerate(a)] for u, a in ref.items()}
    if extra:
        # alignments that differ in length are compared up to the end of the shorter one
        hyp = {u: a[:-1] if i % 2 else a + [0] for i, (u, a) in enumerate(hyp.items())}
    if missing:
        hyp = {u: a for u, a in list(hyp.items())[:-1]}
    with Scratch(ctx) as s:
        s.archive('ref.npz', ref)
        s.archive('hyp.npz', hyp)
        files = dict(rmap=[[str(i), t] for i, t in enumerate(R)], hmap=[[str(i), t] for i, t in enumerate(H)])
        args = ['--epsilon', str(eps)]
        if grouped:
            args += ['--groups', '@groups']
            names = [['first'], ['second']]
            parts = [[g[0] for g in groups(ctx, R)][:2], [g[0] for g in groups(ctx, R)][2:]]
            files['groups'] = [[n[0] + ':'] + p for n, p in zip(names, parts)]
        s.script(COMPARE, args + ['@ref.npz', '@rmap', '@hyp.npz', '@hmap', '@out'], files)
        joint, rc, hc = s.unpickle('out')
    back = lambda w: next((t for t in R + H if str.__str__(t) == str.__str__(w)), w)
    pairs = [(R[a], H[b]) for u in hyp for a, b in zip(ref[u], hyp[u])]
    look = lambda d, t: [v for k, v in d.items() if back(k) == t]
    ru, hu = [g[0] for g in groups(ctx, [p[0] for p in pairs])], [g[0] for g in groups(ctx, [p[1] for p in pairs])]
    count = lambda a=None, b=None: sum(1 for x, y in pairs if (a is None or any(x == v for v in a)) and (b is None or y == b))
    ctx.check('units of the hypothesis', len(hc) == len(hu))
    for h in hu:
        ctx.check('frames of a unit of the hypothesis', look(hc, h) == [count(None, h) + eps])
    if not grouped:
        ctx.check('units of the reference', len(rc) == len(ru) and len(joint) == len(ru))
    for r in ([[r] for r in ru] if not grouped else [0, 1]):
        if grouped:
            n, members = names[r][0], [t for t in parts[r]]
            used = [t for t in members if any(t == x for x in ru)]
            if not members:
                continue
            row, total = joint.get(n, {}), rc.get(n)
            ctx.check('frames of a group', total == count(members) + eps * (1 + len(members)))
        else:
            members = used = r
            ctx.check('frames of a unit of the reference', look(rc, r[0]) == [count(r) + eps])
            row = look(joint, r[0])[0]
        ctx.check('no other unit', all(any(back(k) == h for h in hu) for k in row))
        for h in hu:
            # each original cell starts at epsilon, as does the merged one
            cells = sum(1 for t in used if count([t], h))
            ctx.check('frames of a pair of units', look(row, h) == ([count(members, h) + eps * (cells + (1 if grouped else 0))] if cells else []))


def mutual(ctx, pattern):
    U, P = len(pattern), len(pattern[0])
    c = [[ctx.pos('c%d_%d' % (i, j)) if pattern[i][j] else 0 for j in range(P)] for i in range(U)]
    joint = {'r%d' % i: {'h%d' % j: c[i][j] for j in range(P) if pattern[i][j]} for i in range(U)}
    rc = {'r%d' % i: ctx.sum(c[i]) for i in range(U)}
    hc = {'h%d' % j: ctx.sum([r[j] for r in c]) for j in range(P)}
    with Scratch(ctx) as s:
        s.pickle('data', (joint, rc, hc))
        got = s.script(MUTUAL, ['@data'])
    N = ctx.sum([v for r in c for v in r])
    H = lambda ps: -ctx.sum([p * l2(ctx, p) for p in ps])
    hx, hy = H([ctx.sum(r) / N for r in zip(*c)]), H([ctx.sum(r) / N for r in c])
    hxy = H([v / N for r, t in zip(c, pattern) for v, k in zip(r, t) if k])
    ctx.check('two lines', len(got.out) == 2)
    mi = number(ctx, got, got.out[0][-2])
    norm = number(ctx, got, got.out[1][-2])
    ctx.check_eq('mutual information', mi, hx + hy - hxy, None if ctx.symbolic else 6e-3)
    ctx.check_eq('normalised by the entropy of the reference', norm * hy, 100 * (hx + hy - hxy), None if ctx.symbolic else 6e-2)


ones = lambda u, p: [[1] * p for _ in range(u)]
HARNESSES = [
    Harness('entropy', entropy, about='entropy rate of a transcription', opts=dict(validate_tol=1e-2), quick=[dict(lens=(1,)), dict(lens=(3,)), dict(lens=(2, 1)), dict(lens=(0, 2)), dict(lens=(4,))], thorough=[dict(lens=(3, 2))]),
    Harness('compare', compare, about='confusion counts', quick=[dict(lens=(2,), states=2), dict(lens=(1, 1), states=2), dict(lens=(2, 1), states=2, missing=True), dict(lens=(2,), states=3, grouped=True), dict(lens=(0, 2), states=2), dict(lens=(1, 2), states=2, extra=1)],
            thorough=[dict(lens=(3,), states=2), dict(lens=(2, 2), states=2, grouped=True)]),
    Harness('mutual', mutual, about='mutual information', opts=dict(validate_tol=1e-2), quick=[dict(pattern=ones(2, 2)), dict(pattern=[[1, 0], [1, 1]]), dict(pattern=[[1, 1, 0], [0, 1, 1]]), dict(pattern=[[1, 0], [0, 1]]), dict(pattern=[[1], [1]]), dict(pattern=ones(2, 52))],
            thorough=[dict(pattern=ones(3, 3))]),
]
