from .common import *
from .scripts import eqt, run, tokens

BOUNDS = ('Bounds: 1-2 aligned utterances of 0-4 frames with every pattern of equal and different labels; count tables of up to 3 units and 3 phones with any '
          'positive counts and zero cells in the listed patterns.')
ASSUMPTIONS = ['terms of magnitude below 1e-25 (the code adds 1e-37 to every count) are dropped before comparing the mutual information']


def overlap(ctx, lens, extra=0, counts=True, pad=0):
    """mapping and counts of aligned utterances (the shorter of two alignments of different lengths decides)"""
    n = sum(2 * a for a in lens) + extra
    ref = [('utt%d' % i, tokens(ctx, 'r%d_' % i, a, n)) for i, a in enumerate(lens)]
    hyp = [('utt%d' % i, tokens(ctx, 'h%d_' % i, a + extra, n)) for i, a in enumerate(lens)]
    # one unit that covers almost everything
    if pad:
        ref.append(('long', ['phone'] * pad))
        hyp.append(('long', ['unit'] * pad))
    files = dict(ref=[[u] + t for u, t in ref], hyp=[[u] + t for u, t in hyp[::-1]])
    got = run(ctx, 'recipes/aud/utils/maxoverlap_mapping.py', (['--counts', '@counts'] if counts else []) + ['@ref', '@hyp', '@map'], files)
    pairs = [p for (u, r), (_, h) in zip(ref, hyp) if u != 'long' for p in zip(h, r)]
    if pad:
        ctx.check('frames of the long unit', [x for x in got.written['map'] if x[0] == 'unit'] == [['unit', 'phone']])
        got.written['map'] = [x for x in got.written['map'] if x[0] != 'unit']
        if counts:
            ctx.check('counts of the long unit', {k: dict(v) for k, v in got.data['counts'].items() if k == 'unit'} == {'unit': {'phone': pad}})
            got.data['counts'] = {k: v for k, v in got.data['counts'].items() if k != 'unit'}
    units = []
    for u, _ in pairs:
        if not any(u == x for x in units):
            units.append(u)
    number = lambda u, p: sum(1 for a, b in pairs if a == u and b == p)
    m = got.written['map']
    ctx.check('one line per unit', len(m) == len(units) and all(len(l) == 2 for l in m))
    for u in units:
        image = [p for x, p in m if x == u]
        ctx.check('each unit is mapped once', len(image) == 1)
        for p in image:
            ctx.check('a unit is mapped to a phone it overlaps most', all(number(u, q) <= number(u, p) for _, q in pairs))
    if counts:
        c = got.data.get('counts') or {}
        ctx.check('units of the counts', len(c) == len(units))
        for u in units:
            row = c.get(u, {})
            for x, q in pairs:
                want = number(u, q)
                ctx.check('frame counts', row.get(q, 0) == want)
            ctx.check('total frames', sum(row.values()) == sum(1 for a, _ in pairs if a == u))


def drop(ctx, t):
    """the limit of a term when the constant added to the counts vanishes"""
    from symx import terms
    return terms.drop_eps(terms.lift(t)) if ctx.symbolic else t


def nmi(ctx, pattern, old=False, kind='any'):
    U, P = len(pattern), len(pattern[0])
    c = [[ctx.pos('c%d_%d' % (i, j)) if pattern[i][j] else 0 for j in range(P)] for i in range(U)]
    for i in range(U):
        for j in range(P):
            if pattern[i][j]:
                ctx.assume(ctx.le(1, c[i][j]))
    data = {'u%d' % i: {'p%d' % j: c[i][j] for j in range(P) if pattern[i][j]} for i in range(U)}
    got = run(ctx, 'recipes/aud/utils/nmi.py', (['--old'] if old else []) + ['@counts'], {}, dict(counts=data))
    got_v = drop(ctx, got.number(got.out[-1][-1]))
    N = ctx.sum([v for r in c for v in r])
    px = [ctx.sum(r) / N for r in c]
    py = [ctx.sum(r) / N for r in zip(*c)]
    l2 = lambda v: ctx.log(v) / ctx.log(ctx.frac(2))
    hx = -ctx.sum([p * l2(p) for p in px])
    hy = -ctx.sum([p * l2(p) for p in py])
    hxy = -ctx.sum([c[i][j] / N * l2(c[i][j] / N) for i in range(U) for j in range(P) if pattern[i][j]])
    info = hx + hy - hxy
    tol = None if ctx.symbolic else 0.01
    # compared after multiplying with the denominator: the printed value is percent with two decimals
    if old:
        ctx.check_eq('normalised mutual information', got_v * hy, 100 * info, tol)
    else:
        ctx.check_eq('normalised mutual information', got_v * (hx + hy), 200 * info, tol)
    if kind == 'one':
        ctx.check_eq('one-to-one labels give 100', got_v * (hx + hy), 100 * (hx + hy), tol)


ones = lambda u, p: [[1] * p for _ in range(u)]
HARNESSES = [
    Harness('overlap', overlap, quick=[dict(lens=(2,)), dict(lens=(3,)), dict(lens=(1, 2)), dict(lens=(0, 1, 1)), dict(lens=(2,), extra=1), dict(lens=(2,), counts=False), dict(lens=(2,), pad=20000)],
            thorough=[dict(lens=(4,)), dict(lens=(2, 2))], about='unit to phone mapping and frame counts'),
    Harness('nmi', nmi, opts=dict(symbolic_eps=1e-37, validate_tol=1e-2), about='normalised mutual information',
            quick=[dict(pattern=ones(2, 2)), dict(pattern=ones(2, 2), old=True), dict(pattern=[[1, 0], [1, 1]]), dict(pattern=[[1, 0], [1, 1]], old=True), dict(pattern=[[1, 1]]),
                   dict(pattern=[[1, 0], [0, 1]], kind='one'), dict(pattern=[[0, 1, 1], [1, 1, 0], [1, 0, 1]]), dict(pattern=ones(3, 1)),
                   dict(pattern=[[1, 0, 0], [0, 1, 0], [0, 0, 1]], kind='one')],
            thorough=[dict(pattern=ones(3, 3)), dict(pattern=ones(3, 2), old=True)]),
]
