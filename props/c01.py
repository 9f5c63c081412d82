from .common import *
from .scripts import Scratch

BOUNDS = ('Bounds: 1-3 units assigned in every way to 1-2 groups; topologies of 1-3 emitting states with arbitrary weights and every choice of the optional arcs; '
          '1-2 dimensional features, 1-2 Normal densities per state, every covariance type.')
ASSUMPTIONS = ['state identifiers of a topology are 0, 1, ..., n-1 (first and last are the non-emitting ones)', 'unit names are distinct']
RECIPE = 'recipes/timit_v2/utils/hmm-create-graph-and-emissions.py'
PATH = 'beer/cli/subcommands/hmm/mkphones.py'


def topology(ctx, tag, E, optional=()):
    """left-to-right chain with self-loops and optional further arcs"""
    arcs = {(0, 1): ctx.prob(tag + 'in')}
    for s in range(1, E + 1):
        arcs[s, s] = ctx.prob('%sloop%d' % (tag, s))
        arcs[s, s + 1] = ctx.prob('%snext%d' % (tag, s))
    for a, b in optional:
        if ctx.flag('%sarc%d_%d' % (tag, a, b)):
            arcs[a, b] = ctx.prob('%sw%d_%d' % (tag, a, b))
    return arcs


def phones(ctx, n, groups, D=1, dataset=True, reverse=False, noise=0., thick=False):
    """groups: (number of emitting states, densities per state, covariance type, optional arcs)"""
    import beer
    from beer.cli.dataset import Dataset
    G = len(groups)
    tops = [topology(ctx, 'g%d' % i, g[0], g[3]) for i, g in enumerate(groups)]
    which = [ctx.choice('group%d' % i, G) for i in range(n)]
    conf = []
    for i, (E, k, cov, _) in enumerate(groups):
        arcs = list(tops[i].items())
        conf.append(dict(group_name='group%d' % i, n_normal_per_state=k, prior_strength=2. + i, noise_std=noise, cov_type=cov, shared_cov=False,
                         topology=[dict(start_id=a, end_id=b, trans_prob=w) for (a, b), w in (arcs[::-1] if reverse else arcs)]))
    with Scratch(ctx) as s:
        if dataset:
            mean, var = ctx.tensor('mean', (D,)), ctx.tensor('var', (D,), pos=True)
            s.pickle('data', Dataset('nowhere', mean, var, 10))
            mv, vv = ctx.scalars(mean), ctx.scalars(var)
        else:
            mv, vv = [0.] * D, [1.] * D
        s.text('units', ['u%d group%d' % (i, g) for i, g in enumerate(which)])
        drawn = ctx.nrand
        s.command(PATH, (['-d', '@data'] if dataset else ['-D', str(D)]) + ['@conf', '@units', '@out'], config=dict(conf=conf))
        units, emissions = s.unpickle('out')
    order = [i for g in range(G) for i in range(n) if which[i] == g]
    ctx.check('one HMM per unit', sorted(units) == ['u%d' % i for i in range(n)])
    ctx.check('number of densities', len(emissions) == sum(groups[g][0] for g in which))
    pdf = 0
    for i in order:
        g, E = units['u%d' % i], groups[which[i]][0]
        K = groups[which[i]][1]
        arcs = tops[which[i]]
        got = {}
        for a in g.arcs():
            ctx.check('one arc per pair of states', (a.start, a.end) not in got)
            got[a.start, a.end] = a.weight
        ctx.check('arcs', set(got) == set(arcs))
        for k in arcs:
            if k in got:
                ctx.check_eq('weight of an arc', got[k], arcs[k])
        ids = sorted(g.states())
        ctx.check('states', len(ids) == E + 2 and g.start_state == ids[0] and g.end_state == ids[-1])
        ctx.check('non-emitting ends', g.state_from_id(ids[0]).pdf_id is None and g.state_from_id(ids[-1]).pdf_id is None)
        ctx.check('own block of densities', [g.state_from_id(k).pdf_id for k in ids[1:-1]] == list(range(pdf, pdf + E)))
        for k in range(pdf, pdf + E):
            shift = None
            if noise:
                shift = [[ctx.real('rnd%d' % (drawn + j * D + d)) * ctx.frac(*float(noise).as_integer_ratio()) * ctx.sqrt(vv[d]) for d in range(D)] for j in range(K)]
                drawn += K * D
            density(ctx, emissions[k], groups[which[i]], conf[which[i]]['prior_strength'], mv, vv, D, shift)
        pdf += E


def density(ctx, m, group, strength, mv, vv, D, shift):
    """a mixture as its group asks for"""
    _, K, cov, _ = group
    ctx.check('densities per state', len(m.modelset) == K)
    w = ctx.scalars(m.categorical.weights.posterior.params.concentrations)
    ctx.check_all_eq('mixture weights', w, [strength / K] * K)
    norm = m.modelset.means_precisions
    want = [ctx.max(vv)] * D if cov == 'isotropic' else vv
    for which, dist in (('prior', norm.prior), ('posterior', norm.posterior)):
        for k in range(K):
            ev = dist[k].expected_value()
            ctx.check_all_eq('mean of a density (%s)' % which, ev[0], [v + z for v, z in zip(mv, shift[k])] if shift and which == 'posterior' else list(mv))
            ctx.check('dimension', len(ctx.scalars(ev[0])) == D)
            prec = ctx.scalars(ev[1])
            if cov == 'full':
                ctx.check_all_eq('precision (%s)' % which, prec, [[1 / vv[i] if i == j else 0 for j in range(D)] for i in range(D)])
            else:
                for p, v in zip(prec if isinstance(prec, list) else [prec], want):
                    ctx.check_eq('precision (%s)' % which, p * v, 1)
            ctx.check_all_eq('strength (%s)' % which, dist[k].params.scale.reshape(-1), [strength])


def recipe(ctx, groups, D=1, stats=True):
    """the same tool of the TIMIT recipe; groups: (units, emitting states, densities, covariance, shared densities, optional arcs)"""
    import warnings
    tops = [topology(ctx, 'g%d' % i, g[1], g[5]) for i, g in enumerate(groups)]
    conf = []
    for i, (n, E, k, cov, shared, _) in enumerate(groups):
        conf.append(dict(group_name='group%d' % i, emission_type='GMM', n_units=n, n_state_per_unit=E + 2, n_normal_per_state=k, shared_emissions=shared, prior_strength=2. + i, noise_std=0., cov_type=cov,
                         shared_cov=False, topology=[dict(start_id=a, end_id=b, trans_prob=w) for (a, b), w in tops[i].items()]))
    names = ['u%d' % i for i in range(sum(g[0] for g in groups))][::-1]
    with Scratch(ctx) as s, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mv, vv = [0.] * D, [1.] * D
        if stats:
            mean, var = ctx.tensor('mean', (D,)), ctx.tensor('var', (D,), pos=True)
            mv, vv = ctx.scalars(mean), ctx.scalars(var)
            s.archive('stats.npz', dict(mean=mv, var=vv, nframes=[10]))
        s.script(RECIPE, (['--stats', '@stats.npz'] if stats else ['--dim', str(D)]) + ['@conf', '@phones', '@graphs', '@emissions'], dict(phones=[[x, '0'] for x in names]), config=dict(conf=conf))
        units, emissions = s.unpickle('graphs'), s.unpickle('emissions')
    ctx.check('one HMM per unit', list(units) == names)
    ctx.check('number of densities', len(emissions) == sum(g[0] * g[1] for g in groups))
    pdf, at = 0, 0
    for gi, (n, E, K, cov, shared, _) in enumerate(groups):
        for x in names[at:at + n]:
            g, got = units[x], {}
            for a in g.arcs():
                ctx.check('one arc per pair of states', (a.start, a.end) not in got)
                got[a.start, a.end] = a.weight
            ctx.check('arcs', set(got) == set(tops[gi]))
            for a, b in set(got) & set(tops[gi]):
                ctx.check_eq('weight of an arc', got[a, b], tops[gi][a, b] / ctx.sum([w for (i, _), w in tops[gi].items() if i == a]))
            ids = sorted(g.states())
            ctx.check('states', len(ids) == E + 2 and g.start_state == ids[0] and g.end_state == ids[-1])
            ctx.check('non-emitting ends', g.state_from_id(ids[0]).pdf_id is None and g.state_from_id(ids[-1]).pdf_id is None)
            ctx.check('own block of densities', [g.state_from_id(k).pdf_id for k in ids[1:-1]] == list(range(pdf, pdf + E)))
            pdf += E
        at += n
        ms = emissions.modelsets[gi]
        ctx.check('densities of a group', len(ms) == n * E)
        ctx.check('densities are shared', (len(list(ms.modelset.mean_field_factorization()[0])[0].prior.params.scale.reshape(-1)) == (K if shared else K * n * E)))
        for k in range(n * E):
            m = ms[k]
            ctx.check('densities per state', len(m.modelset) == K)
            w = ctx.scalars(m.categorical.weights.posterior.params.concentrations)
            ctx.check_all_eq('mixture weights', w, [ctx.frac(1, K)] * K)
            norm = m.modelset.modelset if hasattr(m.modelset, 'modelset') else m.modelset
            want = [ctx.max(vv)] * D if cov == 'isotropic' else vv
            for which, dist in (('prior', norm.means_precisions.prior), ('posterior', norm.means_precisions.posterior)):
                for j in range(K):
                    ev = dist[j].expected_value()
                    ctx.check_all_eq('mean of a density (%s)' % which, ev[0], list(mv))
                    prec = ctx.scalars(ev[1])
                    for p, v in zip(prec if isinstance(prec, list) else [prec], want):
                        ctx.check_eq('precision (%s)' % which, p * v, 1)
                    ctx.check_all_eq('strength (%s)' % which, dist[j].params.scale.reshape(-1), [2. + gi])


LR = (1, 3), (2, 1)
HARNESSES = [
    Harness('phones', phones, about='HMMs of a list of units', opts=dict(float_nan=True),
            quick=[dict(n=2, groups=((1, 1, 'diagonal', ()), (2, 2, 'diagonal', ()))), dict(n=3, groups=((2, 1, 'diagonal', ()), (1, 2, 'isotropic', ()))),
                   dict(n=2, groups=((3, 1, 'full', LR + ((1, 4),)),), reverse=True), dict(n=1, groups=((2, 2, 'diagonal', LR),), D=2, dataset=False),
                   dict(n=2, groups=((2, 2, 'diagonal', ()),), noise=0.5, reverse=True), dict(n=1, groups=((1, 2, 'diagonal', ()),), noise=0.5, D=2),
                   dict(n=2, groups=((1, 2, 'isotropic', ()), (1, 1, 'full', ())), noise=2.)],
            thorough=[dict(n=4, groups=((1, 1, 'diagonal', ()), (2, 1, 'diagonal', ()), (3, 1, 'diagonal', ())))]),
    Harness('recipe', recipe, about='HMMs and emissions of the TIMIT recipe', opts=dict(float_nan=True),
            quick=[dict(groups=((1, 2, 2, 'diagonal', False, LR), (2, 1, 1, 'isotropic', False, ())), D=2), dict(groups=((1, 1, 2, 'diagonal', True, ()), (1, 3, 1, 'diagonal', False, LR + ((1, 4),)))),
                   dict(groups=((2, 2, 2, 'diagonal', True, ()),), stats=False, D=2)]),
]
