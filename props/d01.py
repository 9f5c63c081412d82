from .common import *
from . import families as F

BOUNDS = 'Bounds: support dimension 1 to 5 (dense matrices up to 2x2 quick, 3x3 thorough, block-diagonal ones up to 5x5), one distribution or a batch of 2 or 3.'


def roundtrip(ctx, fam, dim, K):
    """standard -> natural -> standard is the identity, for one and for a batch"""
    ps = [F.params(ctx, fam, dim, 'p%d' % k) for k in range(K or 1)]
    d = F.build(ctx, fam, ps, batch=K > 0)
    n = d.natural_parameters()
    want = [F.nat(ctx, fam, p) for p in ps]
    ctx.check_all_eq('natural parameters', n, want if K else want[0])
    # another distribution of the same family receives them
    qs = [F.params(ctx, fam, dim, 'q%d' % k) for k in range(K or 1)]
    e = F.build(ctx, fam, qs, batch=K > 0)
    e.update_from_natural_parameters(n)
    for name in F.ORDER[fam]:
        w = [p[name] for p in ps] if K else ps[0][name]
        ctx.check_all_eq('standard parameter ' + name, getattr(e.params, name), w)
    ctx.check_all_eq('natural parameters after the update', e.natural_parameters(), want if K else want[0])
    # the source keeps its own values
    for name in F.ORDER[fam]:
        ctx.check_all_eq('source ' + name, getattr(d.params, name), [p[name] for p in ps] if K else ps[0][name])


def views(ctx, fam, dim, K, k):
    """an element of a batch behaves as the distribution on its own"""
    ps = [F.params(ctx, fam, dim, 'p%d' % i) for i in range(K)]
    d = F.build(ctx, fam, ps, batch=True)
    s = F.build(ctx, fam, [ps[k]], batch=False)
    v = d[k]
    ctx.check('length', len(d) == K and len(s) == 1)
    ctx.check_all_eq('natural', v.natural_parameters(), s.natural_parameters())
    ctx.check_all_eq('expected statistics', v.expected_sufficient_statistics(), s.expected_sufficient_statistics())
    ctx.check_all_eq('log normaliser', v.log_norm().reshape(-1), s.log_norm().reshape(-1))
    ctx.check_all_eq('batch natural', d.natural_parameters()[k], s.natural_parameters())
    ctx.check_all_eq('batch expected statistics', d.expected_sufficient_statistics()[k], s.expected_sufficient_statistics())
    ctx.check_all_eq('batch log normaliser', d.log_norm().reshape(-1)[k], s.log_norm().reshape(-1)[0])
    a, b = d.expected_value(), s.expected_value()
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            ctx.check_all_eq('expected value %d' % i, x[k], y)
    else:
        ctx.check_all_eq('expected value', a[k], b)
    # a slice is the batch of its elements
    for lo, hi in ((0, K), (K - 1, K)):
        part, alone = d[lo:hi], F.build(ctx, fam, ps[lo:hi], batch=True)
        ctx.check('length of a slice', len(part) == hi - lo)
        ctx.check_all_eq('slice natural', part.natural_parameters(), alone.natural_parameters())
        ctx.check_all_eq('slice expected statistics', part.expected_sufficient_statistics(), alone.expected_sufficient_statistics())
        ctx.check_all_eq('slice log normaliser', part.log_norm(), alone.log_norm())
    # updating an element gives it the new parameters
    q = F.params(ctx, fam, dim, 'q')
    v.update_from_natural_parameters(F.build(ctx, fam, [q], batch=False).natural_parameters())
    for name in F.ORDER[fam]:
        ctx.check_all_eq('updated element: ' + name, getattr(v.params, name), q[name])
    o = (k + 1) % K
    for name in F.ORDER[fam]:
        ctx.check_all_eq('other element: ' + name, getattr(d[o].params, name), ps[o][name])


def cfgs(fams, dims, Ks):
    return [dict(fam=f, dim=d, K=k) for f in fams for d in dims for k in Ks]


LOW = [f for f in F.ALL]
SCAL = [f for f in F.ALL if f not in ('normalwishart', 'normalfull')]
HARNESSES = [
    Harness('roundtrip', roundtrip, about='natural/standard parameter conversions',
            quick=cfgs(LOW, [1, 2], [0, 2]) + cfgs(SCAL, [3], [0, 1, 3]) + cfgs(['normalwishart', 'normalfull'], [2], [1]) +
            cfgs(['normalwishart', 'normalfull'], [4, 5], [0]),
            thorough=cfgs(['normalwishart', 'normalfull'], [3], [0, 2])),
    Harness('batch_element', views, about='an element of a batch vs the distribution alone',
            quick=[dict(fam=f, dim=2, K=2, k=1) for f in F.ALL] + [dict(fam=f, dim=1, K=3, k=0) for f in SCAL],
            thorough=[dict(fam=f, dim=3, K=2, k=0) for f in SCAL]),
]
for h in HARNESSES:
    for c in (h.quick + (h.thorough or [])):
        if c['fam'] == 'dirichlet':
            c['dim'] += 1
