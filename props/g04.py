from .common import *

BOUNDS = ('Bounds: main graphs of up to 5 states and sub-graphs of up to 4 states, arbitrary positive weights, symbolic presence '
          'of optional arcs; paths of up to 5 labels compared; up to three editing steps.')


def make(ctx, labels, arcs, optional, start, end, tag):
    from beer.graph import Graph
    g = Graph()
    for p in labels:
        g.add_state(pdf_id=p)
    g.start_state, g.end_state = start, end
    for a, b in list(arcs) + [o for o in optional if ctx.flag('%s_has_%d_%d' % ((tag,) + tuple(o)))]:
        g.add_arc(a, b, ctx.pos('%s_w_%d_%d' % (tag, a, b)))
    return g


def snap(g):
    """independent description of a graph"""
    return dict(labels={s: g._states[s].pdf_id for s in g.states()},
                arcs=[(a.start, a.end, a.weight) for a in sorted(g.arcs(), key=lambda a: (a.start, a.end))],
                start=g.start_state, end=g.end_state)


def same(ctx, what, a, b):
    ctx.check(what + ' (states)', a['labels'] == b['labels'] and list(a['labels']) == list(b['labels']))
    ctx.check(what + ' (ends)', a['start'] == b['start'] and a['end'] == b['end'])
    ctx.check_all_eq(what + ' (arcs)', [list(x) for x in a['arcs']], [list(x) for x in b['arcs']])


def language(g, L, through=False):
    """{label sequence: summed weight} of the paths from start to end of at most L labelled states; with through,
    a path may visit the end and go on"""
    out = {}
    nxt = {}
    for i, j, w in g['arcs']:
        nxt.setdefault(i, []).append((j, w))

    def walk(s, seq, w, dry):
        if s == g['end']:
            out[seq] = out.get(seq, 0) + w
            if not through:
                return
        for t, x in nxt.get(s, []):
            lab = g['labels'][t]
            if lab is None:
                if dry < 12:
                    walk(t, seq, w * x, dry + 1)
            elif len(seq) < L:
                walk(t, seq + (lab,), w * x, 0)
    walk(g['start'], (), 1, 0)
    return out


def expand(main, repl, L):
    """language of main when every visit to a state of repl is expanded"""
    out = {}
    nxt = {}
    for i, j, w in main['arcs']:
        nxt.setdefault(i, []).append((j, w))
    subs = {s: language_full(g, L) for s, g in repl.items()}

    def walk(s, seq, w, dry):
        if s == main['end']:
            out[seq] = out.get(seq, 0) + w
            return
        for t, x in nxt.get(s, []):
            if t in subs:
                for sub, y in subs[t].items():
                    if len(seq) + len(sub) <= L and (sub or dry < 12):
                        walk(t, seq + sub, w * x * y, 0 if sub else dry + 1)
            else:
                lab = main['labels'][t]
                if lab is None:
                    if dry < 12:
                        walk(t, seq, w * x, dry + 1)
                elif len(seq) < L:
                    walk(t, seq + (lab,), w * x, 0)
    walk(main['start'], (), 1, 0)
    return out


def language_full(g, L):
    """like language, with the labels of the first and last state"""
    pre = (g['labels'][g['start']],) if g['labels'][g['start']] is not None else ()
    if g['start'] == g['end']:
        return {pre: 1}
    return {pre + k: v for k, v in language(g, L, True).items() if len(pre + k) <= L}


def compare(ctx, what, a, b):
    ctx.check(what + ': same sequences', set(a) == set(b))
    for k in sorted(set(a) & set(b)):
        ctx.check_eq('%s: weight of %s' % (what, k), a[k], b[k])


def replace(ctx, main, subs, repl, L=4, normalize=False):
    """repl: [(state of the main graph, index of the sub-graph)]"""
    g = make(ctx, tag='m', **main)
    S = [make(ctx, tag='s%d' % i, **s) for i, s in enumerate(subs)]
    g0, S0 = snap(g), [snap(s) for s in S]
    for st, i in repl:
        g.replace_state(st, S[i])
    g1 = snap(g)
    for i, s in enumerate(S):
        same(ctx, 'sub-graph %d untouched' % i, snap(s), S0[i])
    ctx.check('number of states', len(g1['labels']) == len(g0['labels']) + sum(len(S0[i]['labels']) - 1 for _, i in repl))
    gone = {st for st, _ in repl}
    ctx.check('other states kept', all(g1['labels'].get(k, 'missing') == v for k, v in g0['labels'].items() if k not in gone))
    ctx.check('replaced state gone', not (gone & set(g1['labels'])))
    ctx.check('arcs join existing states', all(a in g1['labels'] and b in g1['labels'] for a, b, _ in g1['arcs']))
    ctx.check('ids match', all(g.state_from_id(k).id == k for k in g1['labels']))
    ctx.check('start and end kept', (g1['start'], g1['end']) == (g0['start'], g0['end']))
    old = {(a, b): w for a, b, w in g0['arcs'] if a not in gone and b not in gone}
    new = {(a, b): w for a, b, w in g1['arcs']}
    for k, w in old.items():
        if k in new:
            ctx.check_eq('arc %s kept' % (k,), new[k], w)
        else:
            ctx.fail('arc kept', str(k))
    fresh = g.add_state(pdf_id=77)
    ctx.check('fresh identifier', fresh not in g1['labels'])
    del g._states[fresh]
    compare(ctx, 'expanded language', language(g1, L), expand(g0, {st: S0[i] for st, i in repl}, L))
    if normalize:
        g.normalize()
        normal(ctx, g1, snap(g))
        for i, s in enumerate(S):
            same(ctx, 'sub-graph %d untouched by normalisation' % i, snap(s), S0[i])
        S[repl[0][1]].normalize()
        normal(ctx, S0[repl[0][1]], snap(S[repl[0][1]]))
        normal(ctx, g1, snap(g), 'main graph untouched')


def normal(ctx, before, after, what='normalised'):
    ctx.check(what + ': same states', before['labels'] == after['labels'] and
              (before['start'], before['end']) == (after['start'], after['end']))
    ctx.check(what + ': same arcs', [a[:2] for a in before['arcs']] == [a[:2] for a in after['arcs']])
    tot = {}
    for a, b, w in before['arcs']:
        tot[a] = tot.get(a, 0) + w
    for (a, b, w), (_, _, v) in zip(before['arcs'], after['arcs']):
        ctx.check_eq('%s: arc %d %d' % (what, a, b), v, w / tot[a])
    new = {}
    for a, b, w in after['arcs']:
        new[a] = new.get(a, 0) + w
    for a, w in new.items():
        ctx.check_eq('%s: state %d sums to one' % (what, a), w, 1)


def normalize(ctx, **main):
    g = make(ctx, tag='m', **main)
    a = snap(g)
    g.normalize()
    normal(ctx, a, snap(g))
    b = snap(g)
    g.normalize()
    normal(ctx, b, snap(g), 'twice')
    compare(ctx, 'language after the second pass', language(snap(g), 3), language(b, 3))


N = None
UNIT = dict(labels=[N, 21, 22, N], arcs=[(0, 1), (1, 2), (2, 3)], optional=[(1, 1), (1, 3)], start=0, end=3)
ONE = dict(labels=[31], arcs=[], optional=[], start=0, end=0)
REV = dict(labels=[N, 41, N], arcs=[(2, 1), (1, 0)], optional=[(1, 1)], start=2, end=0)
BACK = dict(labels=[N, 51, N], arcs=[(0, 1), (1, 2)], optional=[(2, 1), (1, 0), (2, 0)], start=0, end=2)
LIN = dict(labels=[N, 11, 12, N], arcs=[(0, 1), (1, 2), (2, 3)], optional=[(1, 1), (2, 1), (1, 3)], start=0, end=3)
LOOP = dict(labels=[N, N, 11, 12, N, N], arcs=[(0, 1), (1, 2), (1, 3), (2, 4), (3, 4), (4, 5), (4, 1)], optional=[(2, 3)], start=0, end=5)
SELF = dict(labels=[N, 11, 12, N], arcs=[(0, 1), (1, 2), (2, 3), (1, 1)], optional=[(2, 2), (1, 3)], start=0, end=3)
SYMLOOP = dict(labels=[N, 11, N], arcs=[(0, 1), (1, 2)], optional=[(0, 2)], start=0, end=2)
HARNESSES = [
    Harness('replace', replace, about='replace_state vs path expansion', quick=[
        dict(main=LIN, subs=[UNIT], repl=[(1, 0)]),
        dict(main=LIN, subs=[UNIT], repl=[(1, 0), (2, 0)], normalize=True),
        dict(main=LIN, subs=[REV, ONE], repl=[(2, 1), (1, 0)], normalize=True),
        dict(main=LOOP, subs=[UNIT, REV], repl=[(2, 0), (3, 1)], L=4),
        dict(main=LOOP, subs=[REV], repl=[(3, 0), (2, 0)], L=3, normalize=True),
        dict(main=SELF, subs=[UNIT, REV], repl=[(1, 0)], L=4),
        dict(main=SELF, subs=[REV], repl=[(1, 0), (2, 0)], L=3, normalize=True),
        dict(main=SELF, subs=[ONE], repl=[(1, 0), (2, 0)], L=3, normalize=True),
        dict(main=SYMLOOP, subs=[ONE], repl=[(1, 0)]),
        dict(main=LIN, subs=[BACK], repl=[(1, 0)], L=4),
    ], thorough=[dict(main=LOOP, subs=[UNIT, REV], repl=[(2, 0), (3, 1)], L=6), dict(main=SELF, subs=[UNIT], repl=[(1, 0), (2, 0)], L=6)]),
    Harness('normalize', normalize, about='Graph.normalize', quick=[
        LIN, LOOP, SELF, dict(labels=[N, 1, 2, 3, N], arcs=[(0, 1)], start=0, end=4,
                              optional=[(0, 2), (1, 2), (2, 1), (1, 4), (2, 4), (3, 1), (3, 3)])]),
]
