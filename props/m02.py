from .common import *
from . import families as F
from .models import conj

BOUNDS = ('Bounds: 1-4 mixtures of 1-4 components each (isotropic, diagonal, full covariance), 1-2 data points of dimension 1-2; every index '
          'and contiguous slice; data, occupancies and parameters are arbitrary.')


class Set:
    def __init__(self, ctx, fam, dim, S, C, shared=False):
        from beer.models import NormalSet, CategoricalSet, MixtureSet, RepeatedModelSet
        self.shared = shared
        self.ctx, self.fam, self.S, self.C = ctx, fam, S, C
        self.pw, self.wp, self.wq = conj(ctx, 'dirichlet', C, S, 'w')
        self.pc, self.cp, self.cq = conj(ctx, fam, dim, C if shared else S * C, 'c')
        self.normals = NormalSet(self.pc)
        if shared:
            self.normals = RepeatedModelSet(self.normals, S)
            self.cq = list(self.cq) * S
        self.model = MixtureSet(CategoricalSet(self.pw), self.normals)

    def joint(self, s, x):
        c, a = self.ctx, self.wq[s]['concentrations']
        return [c.digamma(a[k]) - c.digamma(c.sum(a)) + F.exp_density(c, self.fam, self.cq[s * self.C + k], x) for k in range(self.C)]

    def value(self, s, x):
        return self.ctx.logsumexp(self.joint(s, x))

    def resps(self, s, x):
        e = [self.ctx.exp(v) for v in self.joint(s, x)]
        return [v / self.ctx.sum(e) for v in e]

    def hand(self, X, occ, ss):
        """component and weight statistics of the mixtures ss with occupancies occ[n][i]"""
        c, C = self.ctx, self.C
        st = [F.data_stats(c, self.fam, x) for x in X]
        comp, wt = [], []
        for i, s in enumerate(ss):
            r = [[occ[n][i] * v for v in self.resps(s, x)] for n, x in enumerate(X)]
            comp += [[c.sum([r[n][k] * st[n][d] for n in range(len(X))]) for d in range(len(st[0]))] for k in range(C)]
            wt.append([c.sum(v) for v in zip(*[F.data_stats(c, 'dirichlet', rn) for rn in r])])
        if self.shared:
            comp = [[c.sum([comp[i * C + k][d] for i in range(len(ss))]) for d in range(len(comp[0]))] for k in range(C)]
        return comp, wt


def occupancies(ctx, N, S, one=False):
    """of the states; one: of a single one per data point"""
    if not one:
        return [[ctx.real('occ%d_%d' % (n, s), 0) for s in range(S)] for n in range(N)]
    at = [ctx.choice('at%d' % n, S) for n in range(N)]
    return [[ctx.real('occ%d_%d' % (n, s), 0) if s == at[n] else ctx.frac(0) for s in range(S)] for n in range(N)]


def points(ctx, dim, N):
    return [[ctx.real('x%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]


def whole(ctx, fam, dim, S, C, N, shared=False):
    m = Set(ctx, fam, dim, S, C, shared)
    X = points(ctx, dim, N)
    ctx.check('sizes', len(m.model) == S and m.model.n_comp_per_mixture == C)
    stats = m.model.sufficient_statistics(ctx.make(X))
    ctx.check_all_eq('values', m.model.expected_log_likelihood(stats), [[m.value(s, x) for s in range(S)] for x in X])
    occ = occupancies(ctx, N, S, shared and C > 1)
    ot = ctx.make(occ)
    acc = m.model.accumulate(stats, ot)
    comp, wt = m.hand(X, occ, range(S))
    ctx.check('one entry per parameter', set(acc) == {m.pw, m.pc} and len(acc) == 2)
    ctx.check_all_eq('component statistics', acc[m.pc], comp)
    ctx.check_all_eq('weight statistics', acc[m.pw], wt)
    ctx.check_all_eq('the occupancies are left unchanged', ot, occ)


def again(ctx, fam, dim, S, C, N):
    """statistics follow the latest call"""
    m = Set(ctx, fam, dim, S, C)
    Y = [[ctx.real('y%d_%d' % (n, i)) for i in range(dim)] for n in range(N)]
    X = points(ctx, dim, N)
    m.model.expected_log_likelihood(m.model.sufficient_statistics(ctx.make(Y)))
    stats = m.model.sufficient_statistics(ctx.make(X))
    m.model.expected_log_likelihood(stats)
    occ = occupancies(ctx, N, S)
    acc = m.model.accumulate(stats, ctx.make(occ))
    comp, wt = m.hand(X, occ, range(S))
    ctx.check_all_eq('component statistics', acc[m.pc], comp)
    ctx.check_all_eq('weight statistics', acc[m.pw], wt)


def members(ctx, fam, dim, S, C, N, shared=False):
    m = Set(ctx, fam, dim, S, C, shared)
    X = points(ctx, dim, N)
    stats = m.model.sufficient_statistics(ctx.make(X))
    k = ctx.choice('index', 2 * S) - S
    s = k % S
    one = m.model[k]
    ctx.check_all_eq('one mixture', one.expected_log_likelihood(stats), [m.value(s, x) for x in X])
    acc = one.accumulate(stats)
    comp, wt = m.hand(X, [[1]] * N, [s])
    vals = list(acc.values())
    by = {len(v.shape): v for v in vals}
    ctx.check_all_eq('component statistics of one mixture', by[2], comp)
    ctx.check_all_eq('weight statistics of one mixture', by[1], wt[0])


def slices(ctx, fam, dim, S, C, N, shared=False):
    m = Set(ctx, fam, dim, S, C, shared)
    X = points(ctx, dim, N)
    stats = m.model.sufficient_statistics(ctx.make(X))
    lo, hi = ctx.choice('from', S + 1), ctx.choice('to', S + 2)
    start, stop = (None if lo == S else lo), (None if hi == 0 else hi - 1)
    if hi == S + 1 and ctx.flag('negative'):
        start, stop = -S + (lo % S), None
    rng = list(range(S))[start:stop]
    if not rng:
        return
    part = m.model[start:stop]
    ctx.check('size of a slice', len(part) == len(rng))
    if len(part) != len(rng):
        return
    ctx.check_all_eq('values of a slice', part.expected_log_likelihood(stats), [[m.value(s, x) for s in rng] for x in X])
    occ = occupancies(ctx, N, len(rng), shared and C > 1)
    acc = part.accumulate(stats, ctx.make(occ))
    comp, wt = m.hand(X, occ, rng)
    a, b = (part.modelset.modelset if hasattr(part.modelset, 'modelset') else part.modelset).means_precisions, part.categoricalset.weights
    ctx.check_all_eq('component statistics of a slice', acc[a], comp)
    ctx.check_all_eq('weight statistics of a slice', acc[b], wt)


def create(ctx, S, C):
    from beer.models import MixtureSet, NormalSet
    p, _, q = conj(ctx, 'isonormalgamma', 1, S * C, 'c')
    s = ctx.pos('strength')
    m = MixtureSet.create(S, NormalSet(p), prior_strength=s)
    ctx.check('sizes', len(m) == S and m.n_comp_per_mixture == C)
    for d in (m.categoricalset.weights.prior, m.categoricalset.weights.posterior):
        ctx.check_all_eq('uniform weights of the requested strength', d.params.concentrations, [[s / C] * C] * S)


def refused(ctx, f):
    try:
        f()
    except IndexError:
        return True
    return False


def indices(ctx, S, C, shared):
    """an index outside of the set is refused"""
    m = Set(ctx, 'isonormalgamma', 1, S, C, shared)
    k = ctx.choice('index', 3) + 1
    for i in (S + k - 1, -S - k):
        ctx.check('mixture %d refused' % i, refused(ctx, lambda: m.model[i]))
    ctx.check('as many mixtures as iterated', sum(1 for _, _ in zip(m.model, range(4 * S))) == S)


def copies(ctx, C, R, N):
    """any index or slice of a repeated set selects the right models or is refused"""
    from beer.models import RepeatedModelSet, NormalSet
    p, _, q = conj(ctx, 'isonormalgamma', 1, C, 'c')
    m = RepeatedModelSet(NormalSet(p), R)
    X = points(ctx, 1, N)
    stats = m.sufficient_statistics(ctx.make(X))
    val = lambda k, x: F.exp_density(ctx, 'isonormalgamma', q[k % C], x)
    ctx.check('size', len(m) == C * R)
    ctx.check_all_eq('values', m.expected_log_likelihood(stats), [[val(k, x) for k in range(C * R)] for x in X])
    k = ctx.choice('index', 2 * C * R + 2) - C * R - 1
    if -C * R <= k < C * R:
        ctx.check_all_eq('one model', m[k].expected_log_likelihood(stats).reshape(-1), [val(k % (C * R), x) for x in X])
    else:
        ctx.check('index %d refused' % k, refused(ctx, lambda: m[k]))
    lo, hi, st = ctx.choice('from', C * R), ctx.choice('to', C * R + 1), 1 + ctx.choice('stride', 2)
    rng = list(range(C * R))[lo:hi:st]
    if not rng:
        return
    try:
        part = m[lo:hi:st]
    except IndexError:
        ctx.check('whole copies and parts of a copy are given', not (st == 1 and ((lo % C == 0 and hi % C == 0) or lo // C == (hi - 1) // C)))
        return
    ctx.check('size of a slice', len(part) == len(rng))
    ctx.check_all_eq('values of a slice', part.expected_log_likelihood(stats), [[val(k, x) for k in rng] for x in X])


G = lambda fam, *t, **k: [dict(fam=fam, dim=d, S=S, C=C, N=N, **k) for d, S, C, N in t]
HARNESSES = [
    Harness('whole', whole, about='values and statistics of the set',
            quick=G('isonormalgamma', (1, 2, 2, 1), (1, 3, 1, 2), shared=True) + G('isonormalgamma', (1, 4, 2, 1), (1, 2, 4, 1)) + G('isonormalgamma', (1, 2, 2, 2), (2, 3, 1, 1), (1, 1, 3, 1), (1, 2, 3, 1)) + G('normalgamma', (1, 2, 2, 1), (2, 2, 2, 1)) +
            G('normalwishart', (1, 2, 2, 1)),
            thorough=G('normalwishart', (2, 2, 2, 1)) + G('normalgamma', (2, 3, 3, 2)) + G('isonormalgamma', (1, 4, 2, 2))),
    Harness('again', again, quick=G('isonormalgamma', (1, 2, 2, 1)), thorough=G('normalgamma', (2, 2, 2, 1)), about='a second call before the statistics are accumulated'),
    Harness('members', members, about='one member', quick=G('isonormalgamma', (1, 2, 2, 1), (1, 3, 1, 1), shared=True) + G('isonormalgamma', (1, 2, 2, 1), (1, 3, 2, 1)) + G('normalgamma', (2, 2, 2, 1)),
            thorough=G('normalwishart', (1, 3, 2, 1))),
    Harness('slices', slices, about='slices', quick=G('isonormalgamma', (1, 2, 2, 1), (1, 3, 1, 1), shared=True) + G('isonormalgamma', (1, 3, 2, 1), (1, 2, 3, 1)), thorough=G('normalgamma', (1, 4, 2, 1))),
    Harness('indices', indices, quick=[dict(S=2, C=2, shared=False), dict(S=3, C=1, shared=False), dict(S=2, C=2, shared=True)], about='indices outside of the set'),
    Harness('copies', copies, quick=[dict(C=2, R=2, N=1), dict(C=1, R=3, N=1)], thorough=[dict(C=3, R=3, N=1)], about='repeated sets'),
    Harness('create', create, quick=[dict(S=2, C=2), dict(S=3, C=1), dict(S=2, C=3)], about='default weights'),
]
