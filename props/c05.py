from .common import *
from .c02 import hmm, arcs_of
from .models import conj
from .scripts import Scratch

BOUNDS = ('Bounds: 1-3 units of 1-2 emitting states, with and without a start/end group, HMMs with arbitrary weights, trained weights and emission models with arbitrary parameters; '
          'every type of prior, default and given concentrations.')
ASSUMPTIONS = ['a hierarchical bigram prior needs a unigram loop with a Dirichlet-process prior']
DIR = 'beer/cli/subcommands/hmm/'
BIGRAM = ('dirichlet2', 'hierarchical_dirichlet_process')


def emissions(ctx, S):
    from beer.models import NormalSet
    p, _, _ = conj(ctx, 'isonormalgamma', 1, S, 'c')
    return NormalSet(p), ctx.scalars(p.posterior.natural_parameters()), ctx.scalars(p.prior.natural_parameters())


def logit(ctx, v):
    return ctx.digamma(v)


def nats(ctx, p):
    return ctx.scalars(p.posterior.natural_parameters()), ctx.scalars(p.prior.natural_parameters())


def conc(ctx, p, which='posterior'):
    return ctx.scalars(getattr(p, which).params.concentrations)


def prior(ctx, kind, m, n, c):
    """the weights are those of a new model of concentration c; -> expected log weights [unit][next unit]"""
    dg = ctx.digamma
    e = lambda a: [dg(v) - dg(ctx.sum(a)) for v in a]
    sb = lambda rows: [dg(r[0]) - dg(r[0] + r[1]) + ctx.sum([dg(q[1]) - dg(q[0] + q[1]) for q in rows[:i]]) for i, r in enumerate(rows)]
    fr = lambda v: ctx.frac(*float(v).as_integer_ratio())
    # products of machine numbers are rounded: the comparison of constants has a tolerance
    near = lambda label, got, want: ctx.check(label, shape_near(got, want))
    if kind == 'dirichlet':
        for w in ('prior', 'posterior'):
            near('concentrations (%s)' % w, conc(ctx, m.categorical.weights, w), [c / n] * n)
        return [e(conc(ctx, m.categorical.weights))] * n
    if kind == 'dirichlet2':
        for w in ('prior', 'posterior'):
            near('concentrations (%s)' % w, conc(ctx, m.categoricalset.weights, w), [[c / n] * n] * n)
        return [e(r) for r in conc(ctx, m.categoricalset.weights)]
    if kind in ('dirichlet_process', 'gamma_dirichlet_process'):
        for w in ('prior', 'posterior'):
            near('sticks (%s)' % w, conc(ctx, m.categorical.stickbreaking, w), [[1., c]] * n)
        if kind[0] == 'g':
            # a Gamma distribution of shape one: as vague a belief whatever its mean
            for w in ('prior', 'posterior'):
                g = getattr(m.categorical.concentration, w)
                near('concentration (%s)' % w, [float(g.expected_value()), float(g.params.shape), float(g.params.rate)], [c, 1., 1 / c])
        return [sb(conc(ctx, m.categorical.stickbreaking))] * n
    root = m.categoricalset.root_sb_categorical
    near('root sticks', conc(ctx, root.stickbreaking), [[1., c]] * n)
    v = [float(x) for x in root.mean]
    want = [[c * v[i], c * (1 - sum(v[:i + 1]))] for i in range(n)] * n
    near('sticks given the root', conc(ctx, m.categoricalset.stickbreaking, 'prior'), want)
    rows = conc(ctx, m.categoricalset.stickbreaking)
    return [sb(rows[i * n:(i + 1) * n]) for i in range(n)]


def shape_near(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(shape_near(x, y) for x, y in zip(a, b))
    try:
        return abs(float(a) - b) < 1e-5 * (1 + abs(b))
    except Exception:
        return False


def graph(ctx, s, sizes, group, optional):
    """writes decoding graph and HMMs; -> names, densities of the units"""
    n = len(sizes)
    units, pdf, own = {}, 0, []
    for i, k in enumerate(sizes):
        units['u%d' % i], _ = hmm(ctx, 'u%d' % i, k, optional, pdf)
        own.append(list(range(pdf, pdf + k)))
        pdf += k
    em, q, p = emissions(ctx, pdf)
    s.text('units', ['u%d %s' % (i, 'b' if i == 0 else 'a') for i in range(n)])
    s.command(DIR + 'mkphoneloopgraph.py', (['-s', 'b'] if group else []) + ['@units', '@loop'])
    s.pickle('hmms', (units, em))
    s.command(DIR + 'mkdecodegraph.py', ['@loop', '@hmms', '@dec'])
    return own, q, p


def compiled(ctx, s):
    g, start, end = s.unpickle('dec')
    g = g.compile()
    return [[ctx.scalars(x.exp()) for x in (g.init_log_probs, g.final_log_probs, g.trans_log_probs)], list(g.pdf_id_mapping), start, end]


def check_loop(ctx, m, ref, own, lw, bigram):
    (init, final, trans), pdfs, start, end = ref
    import beer
    ctx.check('type of loop', type(m) is (beer.BigramPhoneLoop if bigram else beer.PhoneLoop))
    ctx.check('entry and exit densities', list(m.start_pdf.items()) == list(start.items()) and list(m.end_pdf.items()) == list(end.items()))
    ctx.check('densities of the states', list(m.graph.pdf_id_mapping) == pdfs)
    ctx.check_all_eq('initial weights', m.graph.init_log_probs.exp(), init)
    ctx.check_all_eq('final weights', m.graph.final_log_probs.exp(), final)
    want = [list(r) for r in trans]
    for i, a in enumerate(end.values()):
        for j, b in enumerate(start.values()):
            want[a][b] = (1 - trans[a][a]) * ctx.exp(lw[i][j])
    got = ctx.scalars(m.graph.trans_log_probs.exp())
    for a in range(len(want)):
        for b in range(len(want)):
            if a == b and a in start.values() and a in end.values():
                continue    # entering a one-state unit again and staying in it share the entry (M04)
            ctx.check_eq('weight of the transition %d %d' % (a, b), got[a][b], want[a][b])


def check_emissions(ctx, m, q, p):
    ps = m.modelset.original_modelset.means_precisions
    ctx.check_all_eq('emission model (posterior)', ps.posterior.natural_parameters(), q)
    ctx.check_all_eq('emission model (prior)', ps.prior.natural_parameters(), p)


def create(ctx, kind, sizes, group=False, concentration=None, optional=()):
    n = len(sizes)
    with Scratch(ctx) as s:
        own, q, p = graph(ctx, s, sizes, group, optional)
        ref = compiled(ctx, s)
        s.command(DIR + 'mkphoneloop.py', (['-c', str(concentration)] if concentration else []) + (['--weights-prior', kind] if kind else []) + ['@dec', '@hmms', '@out'])
        m = s.unpickle('out')
    kind = kind or 'gamma_dirichlet_process'
    lw = prior(ctx, kind, m, n, concentration or n / 2)
    check_loop(ctx, m, ref, own, lw, kind in BIGRAM)
    check_emissions(ctx, m, q, p)


def bigram(ctx, unigram, kind, sizes, group=False):
    n = len(sizes)
    with Scratch(ctx) as s:
        own, q, p = graph(ctx, s, sizes, group, ())
        ref = compiled(ctx, s)
        s.command(DIR + 'mkphoneloop.py', ['--weights-prior', unigram, '@dec', '@hmms', '@uni'])
        m = s.unpickle('uni')
        # a trained unigram: arbitrary weights
        par = m.categorical.mean_field_factorization()[0][0]
        rows = [[ctx.pos('trained%d_%d' % (i, k)) for k in range(2)] for i in range(n)] if 'process' in unigram else [ctx.pos('trained%d' % i) for i in range(n)]
        par.posterior.params.concentrations = ctx.make(rows)
        m._on_weights_update()
        s.pickle('uni', m)
        s.command(DIR + 'mkphoneloopbigram.py', (['--weights-prior', kind] if kind else []) + ['@uni', '@out'])
        out = s.unpickle('out')
        before = s.unpickle('uni')
    ctx.check_all_eq('the unigram is left unchanged', before.categorical.mean_field_factorization()[0][0].posterior.params.concentrations, rows)
    dg = ctx.digamma
    kind = kind or 'hierarchical_dirichlet_process'
    if kind == 'dirichlet2':
        ctx.check('concentrations', shape_near(conc(ctx, out.categoricalset.weights), [[1 / n] * n] * n))
        lw = [[dg(v) - dg(ctx.sum(r)) for v in r] for r in conc(ctx, out.categoricalset.weights)]
    else:
        root = out.categoricalset.root_sb_categorical
        ctx.check_all_eq('the root is the unigram', root.stickbreaking.posterior.params.concentrations, rows)
        ctx.check_all_eq('weights start at those of the unigram', out.categoricalset.stickbreaking.posterior.params.concentrations, rows * n)
        one = [dg(r[0]) - dg(r[0] + r[1]) + ctx.sum([dg(t[1]) - dg(t[0] + t[1]) for t in rows[:i]]) for i, r in enumerate(rows)]
        lw = [one] * n
    check_loop(ctx, out, ref, own, lw, True)
    check_emissions(ctx, out, q, p)


def listing(ctx, n):
    """every unit is printed once, numbers in the names in numerical order"""
    import itertools
    names = ['u%d' % k for k in (2, 10, 1, 33)][:n]
    perms = list(itertools.permutations(names))
    order = perms[ctx.choice('order', len(perms))]
    with Scratch(ctx) as s:
        s.pickle('hmms', ({u: None for u in order}, None))
        out = s.command(DIR + 'phonelist.py', ['@hmms'])
    ctx.check('list of units', [w for l in out for w in l] == sorted(names, key=lambda u: int(u[1:])))


KINDS = ['dirichlet', 'dirichlet2', 'dirichlet_process', 'gamma_dirichlet_process', 'hierarchical_dirichlet_process']
HARNESSES = [
    Harness('create', create, about='phone loops', quick=[dict(kind=k, sizes=(2, 1, 2)) for k in KINDS] + [dict(kind=k, sizes=(2, 2), group=True, concentration=3.) for k in KINDS] + [dict(kind=None, sizes=(2, 2))]
            + [dict(kind=k, sizes=(1, 2), concentration=.125) for k in KINDS],
            thorough=[dict(kind=k, sizes=(3, 3, 3), group=True, concentration=.5, optional=((1, 3), (2, 1))) for k in KINDS]),
    Harness('bigram', bigram, about='bigram loops from unigram loops',
            quick=[dict(unigram='dirichlet', kind='dirichlet2', sizes=(2, 2)), dict(unigram='dirichlet_process', kind='dirichlet2', sizes=(2, 3)), dict(unigram='dirichlet_process', kind='hierarchical_dirichlet_process', sizes=(2, 2, 2)),
                   dict(unigram='gamma_dirichlet_process', kind='hierarchical_dirichlet_process', sizes=(2, 2), group=True), dict(unigram='gamma_dirichlet_process', kind=None, sizes=(2, 2))],
            thorough=[dict(unigram='dirichlet_process', kind='hierarchical_dirichlet_process', sizes=(2, 3, 2, 2), group=True)]),
    Harness('listing', listing, about='list of units', quick=[dict(n=4)]),
]
