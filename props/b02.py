from .common import *
from . import families as F
from .models import MODELS

BOUNDS = ('Bounds: 2-3 data points (4 in the thorough tier) of dimension 1-2, every partition into up to 3 batches, every order and '
          'several groupings of the additions, partial sums optionally written to disk and read back; Normal, categorical and mixture models.')


def parts(ctx, N, B):
    """every assignment of the points to batches"""
    out = [[] for _ in range(B)]
    for n in range(N):
        out[ctx.choice('batch_of_%d' % n, B)].append(n)
    return [b for b in out if b]


def combine(ctx, elbos, total):
    from beer import evidence_lower_bound
    n = len(elbos)
    order = list(range(n))
    if n == 3:
        order = list(itertools.permutations(order))[ctx.choice('order', 6)]
    elif n == 2 and ctx.flag('swapped'):
        order = [1, 0]
    e = [elbos[i] for i in order]
    g = ctx.choice('grouping', 3)
    if g == 0:                      # accumulate into an empty objective
        r = evidence_lower_bound(datasize=total)
        for x in e:
            r += x
        return r
    if g == 1:                      # left to right
        r = e[0]
        for x in e[1:]:
            r = r + x
        return r
    r = e[-1]                       # right to left, empty objective last
    for x in reversed(e[:-1]):
        r = x + r
    return r + evidence_lower_bound(datasize=total)


def roundtrip(x):
    import io
    buf = io.BytesIO()
    torch.save(x, buf)
    return torch.load(io.BytesIO(buf.getvalue()), weights_only=False)


def union(ctx, kind, N, B, save, extra):
    """partition, order, grouping and storage of the partial sums do not matter"""
    from beer import evidence_lower_bound
    m = MODELS[kind](ctx)
    X = [m.point('x%d' % n) for n in range(N)]
    total = N + extra
    ps = parts(ctx, N, B)
    before = m.nats()
    elbos = [evidence_lower_bound(m.model, ctx.make([X[n] for n in b]), datasize=total) for b in ps]
    want_each = [ctx.frac(total, len(b)) * ctx.sum([m.ellh(X[n]) for n in b]) - m.kl() for b in ps]
    for i, (e, w) in enumerate(zip(elbos, want_each)):
        ctx.check_eq('objective of batch %d' % i, ctx.scalar(e.value), w)
    if save:
        elbos = [roundtrip(e) for e in elbos]
    s = combine(ctx, elbos, total)
    ctx.check_eq('summed objective', ctx.scalar(s.value), ctx.sum(want_each))
    if save:
        if ctx.flag('saved_again'):
            s = roundtrip(s)
        s.sync(m.model)
    stats = [[(sum_rows(ctx, r)) for r in zip(*[m.stats(X[n])[k] for n in range(N)])] for k in range(len(m.params))]
    s.backward()
    sc = ctx.frac(total, N)
    for k, p in enumerate(m.params):
        ctx.check_all_eq('statistics of parameter %d' % k, p.stats, m.shape(k, [[sc * v for v in r] for r in stats[k]]))
    t = elbos[0]                    # the terms can be used again
    for e in elbos[1:]:
        t = t + e
    ctx.check_eq('second sum', ctx.scalar(t.value), ctx.sum(want_each))
    if save:
        t.sync(m.model)
    t.backward()
    for k, p in enumerate(m.params):
        ctx.check_all_eq('statistics of parameter %d (second sum)' % k, p.stats, m.shape(k, [[sc * v for v in r] for r in stats[k]]))
    ctx.check_all_eq('no parameter has moved', [p.posterior.natural_parameters() for p in m.params], before)


def sum_rows(ctx, rows):
    return [ctx.sum(v) for v in zip(*rows)]


def single(ctx, kind, N):
    """default total size, and the update of a full pass"""
    from beer import evidence_lower_bound, VBConjugateOptimizer
    m = MODELS[kind](ctx)
    X = [m.point('x%d' % n) for n in range(N)]
    e = evidence_lower_bound(m.model, ctx.make(X))
    ctx.check_eq('objective', ctx.scalar(e.value), ctx.sum([m.ellh(x) for x in X]) - m.kl())
    st = [[sum_rows(ctx, r) for r in zip(*[m.stats(x)[k] for x in X])] for k in range(len(m.params))]
    prior = [p.prior.natural_parameters() for p in m.params]
    opt = VBConjugateOptimizer(m.model.mean_field_factorization(), 1.)
    opt.init_step()
    e.backward()
    for _ in opt.groups:
        opt.step()
    for k, p in enumerate(m.params):
        pr = ctx.scalars(prior[k])
        pr = pr if isinstance(pr[0], list) else [pr]
        ctx.check_all_eq('full pass posterior %d' % k, p.posterior.natural_parameters(),
                         m.shape(k, [[a + b for a, b in zip(r, s)] for r, s in zip(pr, st[k])]))


def errors(ctx, kind):
    """objectives over different total sizes are refused"""
    from beer import evidence_lower_bound
    m = MODELS[kind](ctx)
    X = [m.point('x%d' % n) for n in range(2)]
    d1, d2 = 2 + ctx.choice('size_a', 3), 2 + ctx.choice('size_b', 3)
    a = evidence_lower_bound(m.model, ctx.make(X), datasize=d1)
    if ctx.flag('empty'):
        b = evidence_lower_bound(datasize=d2)
    else:
        b = evidence_lower_bound(m.model, ctx.make(X[:1]), datasize=d2)
    try:
        a + b
        ok = True
    except ValueError:
        ok = False
    ctx.check('added only when the total sizes agree', ok == (d1 == d2))


def other_kind():
    """a kind of parameter that is not one of the conjugate ones"""
    global _Other
    if _Other is None:
        from beer.models import ConjugateBayesianParameter
        _Other = type('_Other', (ConjugateBayesianParameter,), dict(__hash__=ConjugateBayesianParameter.__hash__, __module__=__name__))
    return _Other


_Other = None


def partial(ctx, K):
    """a model with parameters that get no statistics"""
    import uuid
    from beer import evidence_lower_bound
    from beer.models import Model
    from .models import conj
    ps = [conj(ctx, 'gamma', 1, 0, 'p%d' % k)[0] for k in range(K)]
    for k, p in enumerate(ps):
        p.uuid = uuid.UUID(int=k + 1)
    ps[1].__class__ = other_kind()
    some = [ctx.flag('trained%d' % k) for k in range(K)]
    st = [[ctx.real('s%d_%d' % (k, i)) for i in range(2)] for k in range(K)]

    class Part(Model):
        def __init__(self):
            super().__init__()
            self.members = torch.nn.ModuleList(ps)

        def mean_field_factorization(self):
            return [list(ps)]

        def sufficient_statistics(self, data):
            return data

        def expected_log_likelihood(self, stats):
            return stats[:, 0]

        def accumulate(self, stats):
            return {p: ctx.make(s) for p, s, f in zip(ps, st, some) if f}
    m = Part()
    for p in ps:
        p.store_stats(ctx.make([ctx.frac(3), ctx.frac(5)]))
    e = evidence_lower_bound(m, ctx.make([[ctx.real('x')]]), datasize=2)
    if ctx.flag('twice'):
        e = e + evidence_lower_bound(m, ctx.make([[ctx.real('y')]]), datasize=2)
    if ctx.flag('saved'):
        e = roundtrip(e)
        e.sync(m)
    e.backward()
    for k, p in enumerate(ps):
        # the scale of a sum of two batches of one point is one, the statistics of both batches are summed
        ctx.check_all_eq('statistics of parameter %d' % k, p.stats, [2 * v for v in st[k]] if some[k] else [3, 5])


def two_models(ctx):
    """objectives with different parameters"""
    from beer import evidence_lower_bound
    m1, m2 = MODELS['isotropic'](ctx, 'a'), MODELS['diagonal'](ctx, 'b')
    X = [m1.point('x%d' % n) for n in range(2)]
    shared = ctx.flag('first_model_twice')
    es = [evidence_lower_bound(m1.model, ctx.make(X[:1]), datasize=2), evidence_lower_bound(m2.model, ctx.make(X[1:]), datasize=2)]
    if shared:
        es.append(evidence_lower_bound(m1.model, ctx.make(X[1:]), datasize=2))
    s = es[0]
    for e in es[1:]:
        s = s + e
    s.backward()
    sc = ctx.frac(2, len(es))
    w1 = sum_rows(ctx, [m1.stats(x)[0][0] for x in (X if shared else X[:1])])
    ctx.check_all_eq('first model', m1.params[0].stats, [sc * v for v in w1])
    ctx.check_all_eq('second model', m2.params[0].stats, [sc * v for v in m2.stats(X[1])[0][0]])


KINDS = list(MODELS)
HARNESSES = [
    Harness('union', union, about='partitions, orders, groupings, storage',
            quick=[dict(kind=k, N=3, B=3, save=False, extra=e) for k, e in (('isotropic', 0), ('categorical', 2))] +
                  [dict(kind=k, N=2, B=2, save=s, extra=e) for k, s, e in
                   (('diagonal', True, 3), ('mixture', False, 0), ('mixture', True, 1), ('isotropic', True, 0), ('categorical', True, 0), ('isotropic', False, -1))],
            thorough=[dict(kind=k, N=4, B=3, save=False, extra=1) for k in ('isotropic', 'categorical', 'diagonal')] +
                     [dict(kind='mixture', N=3, B=2, save=True, extra=1), dict(kind='full', N=2, B=2, save=True, extra=1)]),
    Harness('single', single, quick=[dict(kind=k, N=n) for k in KINDS for n in (1, 2)], about='one full pass'),
    Harness('errors', errors, quick=[dict(kind='isotropic')], about='incompatible objectives'),
    Harness('partial', partial, quick=[dict(K=3)], thorough=[dict(K=4)], about='parameters without statistics'),
    Harness('two_models', two_models, quick=[dict()], about='objectives with different parameters'),
]
