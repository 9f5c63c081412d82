from .common import *
from . import families as F
from .models import conj
from .m02 import Set, points

BOUNDS = ('Bounds: concatenations of up to 3 sets of 1-3 models (Normal sets and sets of mixtures), orders of length 1-4 chosen freely with '
          'repetitions, up to 3 repetitions, 1-2 data points; data, responsibilities and parameters are arbitrary.')


class Part:
    """a model set with its values and statistics by hand"""

    def __init__(self, ctx, kind, n, tag, dim=1):
        from beer.models import NormalSet
        self.ctx, self.n = ctx, n
        if kind == 'mixtures':
            s = Set(ctx, 'isonormalgamma', dim, n, 2)
            self.model, self.value = s.model, s.value
            self.params = [s.pc, s.pw]
            self.hand = lambda X, r: s.hand(X, r, range(n))
            return
        fam = dict(iso='isonormalgamma', diag='normalgamma', full='normalwishart')[kind]
        p, _, qs = conj(ctx, fam, dim, n, tag)
        self.model = NormalSet(p)
        self.params = [p]
        self.value = lambda k, x: F.exp_density(ctx, fam, qs[k], x)

        def hand(X, r):
            st = [F.data_stats(ctx, fam, x) for x in X]
            return [[[ctx.sum([r[i][k] * st[i][d] for i in range(len(X))]) for d in range(len(st[0]))] for k in range(n)]]
        self.hand = hand


def check_acc(ctx, parts, acc, hands):
    want = {p for part in parts for p in part.params}
    ctx.check('one entry per parameter', set(acc) == want and len(acc) == len(want))
    for i, (part, h) in enumerate(zip(parts, hands)):
        for j, p in enumerate(part.params):
            ctx.check_all_eq('statistics of set %d, parameter %d' % (i, j), acc[p], h[j])


def resps(ctx, N, n):
    return [[ctx.real('r%d_%d' % (i, k), 0) for k in range(n)] for i in range(N)]


def joint(ctx, kinds, N, dim=1):
    from beer.models import JointModelSet
    parts = [Part(ctx, k, n, 's%d' % i, dim) for i, (k, n) in enumerate(kinds)]
    total = sum(p.n for p in parts)
    where = [(p, k) for p in parts for k in range(p.n)]
    m = JointModelSet([p.model for p in parts])
    ctx.check('size', len(m) == total)
    X = points(ctx, dim, N)
    stats = m.sufficient_statistics(ctx.make(X))
    ctx.check_all_eq('values side by side', m.expected_log_likelihood(stats), [[p.value(k, x) for p, k in where] for x in X])
    r = resps(ctx, N, total)
    rt = ctx.make(r)
    acc = m.accumulate(stats, rt)
    hands, s = [], 0
    for p in parts:
        hands.append(p.hand(X, [x[s:s + p.n] for x in r]))
        s += p.n
    check_acc(ctx, parts, acc, hands)
    ctx.check_all_eq('the responsibilities are left unchanged', rt, r)
    k = ctx.choice('index', total + 2) - 1
    if 0 <= k < total:
        one = m[k]
        ctx.check_all_eq('the k-th model', one.expected_log_likelihood(one.sufficient_statistics(ctx.make(X))).reshape(-1),
                         [where[k][0].value(where[k][1], x) for x in X])
    else:
        try:
            m[k]
            ok = False
        except (IndexError, ValueError):
            ok = True
        ctx.check('no such model', ok)


def ordered(ctx, kind, n, length, N, dim=1, twice=False):
    from beer.models import DynamicallyOrderedModelSet
    part = Part(ctx, kind, n, 's', dim)
    m = DynamicallyOrderedModelSet(part.model)
    X = points(ctx, dim, N)
    stats = m.sufficient_statistics(ctx.make(X))
    if twice:       # another order was used before
        m.expected_log_likelihood(stats, [n - 1] * (length + 1))
        m.accumulate(stats, torch.ones(N, length + 1))
    order = [ctx.choice('order%d' % i, n) for i in range(length)] if length else None
    if twice == 'cleared':
        m.clear_cache()
    got = m.expected_log_likelihood(stats, order) if order else m.expected_log_likelihood(stats)
    order = order or list(range(n))
    ctx.check_all_eq('values in the given order', got, [[part.value(k, x) for k in order] for x in X])
    r = resps(ctx, N, len(order))
    rt = ctx.make(r)
    acc = m.accumulate(stats, rt)
    back = [[ctx.sum([r[i][j] for j, o in enumerate(order) if o == k]) for k in range(n)] for i in range(N)]
    check_acc(ctx, [part], acc, [part.hand(X, back)])
    ctx.check_all_eq('the responsibilities are left unchanged', rt, r)
    ctx.check('size', len(m) == n)
    k = ctx.choice('index', n)
    ctx.check_all_eq('the k-th model', m[k].expected_log_likelihood(stats).reshape(-1), [part.value(k, x) for x in X])


def repeated(ctx, kind, n, repeat, N, dim=1):
    from beer.models import RepeatedModelSet
    part = Part(ctx, kind, n, 's', dim)
    m = RepeatedModelSet(part.model, repeat)
    ctx.check('size', len(m) == n * repeat)
    X = points(ctx, dim, N)
    stats = m.sufficient_statistics(ctx.make(X))
    ctx.check_all_eq('tiled values', m.expected_log_likelihood(stats), [[part.value(k, x) for k in range(n)] * repeat for x in X])
    r = resps(ctx, N, n * repeat)
    acc = m.accumulate(stats, ctx.make(r))
    check_acc(ctx, [part], acc, [part.hand(X, [[ctx.sum([x[c * n + k] for c in range(repeat)]) for k in range(n)] for x in r])])
    k = ctx.choice('index', 2 * n * repeat) - n * repeat
    ctx.check_all_eq('the k-th model', m[k].expected_log_likelihood(stats).reshape(-1), [part.value(k % n, x) for x in X])
    a = ctx.choice('copy', repeat) * n + ctx.choice('start', n)
    b = a + 1 + ctx.choice('length', n - a % n)
    c = (repeat - a // n) * n + a // n * n
    for lo, hi in ((a, b), (a // n * n, c)):
        s = m[lo:hi]
        ctx.check('size of a slice', len(s) == hi - lo)
        ctx.check_all_eq('a slice', s.expected_log_likelihood(stats), [[part.value(i % n, x) for i in range(lo, hi)] for x in X])


def nested(ctx, N):
    """an HMM-like stack: reordered concatenation of sets of mixtures and repeated sets"""
    from beer.models import DynamicallyOrderedModelSet, JointModelSet, RepeatedModelSet
    a, b = Part(ctx, 'mixtures', 2, 'a'), Part(ctx, 'iso', 2, 'b')
    m = DynamicallyOrderedModelSet(JointModelSet([a.model, RepeatedModelSet(b.model, 2)]))
    where = [(a, 0), (a, 1), (b, 0), (b, 1), (b, 0), (b, 1)]
    ctx.check('size', len(m) == 6)
    X = points(ctx, 1, N)
    stats = m.sufficient_statistics(ctx.make(X))
    order = [ctx.choice('order%d' % i, 6) for i in range(2)]
    ctx.check_all_eq('values', m.expected_log_likelihood(stats, order), [[where[o][0].value(where[o][1], x) for o in order] for x in X])
    r = resps(ctx, N, 2)
    acc = m.accumulate(stats, ctx.make(r))
    back = lambda part: [[ctx.sum([x[j] for j, o in enumerate(order) if where[o] == (part, k)]) for k in range(2)] for x in r]
    check_acc(ctx, [a, b], acc, [a.hand(X, back(a)), b.hand(X, back(b))])


HARNESSES = [
    Harness('joint', joint, about='concatenations',
            quick=[dict(kinds=k, N=n) for k, n in (([('iso', 2), ('iso', 1)], 2), ([('iso', 1), ('iso', 3), ('iso', 2)], 1), ([('diag', 2), ('diag', 2)], 1),
                                                   ([('mixtures', 2), ('iso', 2)], 1), ([('iso', 2)], 1))],
            thorough=[dict(kinds=[('full', 2), ('full', 1)], N=1, dim=2), dict(kinds=[('diag', 3), ('diag', 2), ('diag', 1)], N=2, dim=2)]),
    Harness('ordered', ordered, about='reordered sets',
            quick=[dict(kind='iso', n=2, length=3, N=2), dict(kind='iso', n=3, length=3, N=1), dict(kind='iso', n=3, length=1, N=1),
                   dict(kind='diag', n=3, length=0, N=1), dict(kind='mixtures', n=2, length=3, N=1), dict(kind='iso', n=2, length=2, N=1, twice=True),
                   dict(kind='iso', n=3, length=0, N=1, twice=True), dict(kind='iso', n=2, length=0, N=2, twice='cleared')],
            thorough=[dict(kind='iso', n=3, length=4, N=1), dict(kind='full', n=2, length=3, N=1, dim=2)]),
    Harness('repeated', repeated, about='repeated sets',
            quick=[dict(kind='iso', n=2, repeat=2, N=2), dict(kind='iso', n=2, repeat=3, N=1), dict(kind='diag', n=3, repeat=2, N=1),
                   dict(kind='iso', n=2, repeat=1, N=1), dict(kind='mixtures', n=2, repeat=2, N=1)],
            thorough=[dict(kind='full', n=2, repeat=3, N=2, dim=2)]),
    Harness('nested', nested, quick=[dict(N=1)], thorough=[dict(N=2)], about='nested sets'),
]
