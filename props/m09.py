from .common import *
from . import families as F
from .models import conj

BOUNDS = ('Bounds: the listed compositions of the models of the library, two to four levels deep, 2-3 members per set, dimension 1, 1-2 data points; all parameter values, data and '
          'replacement values arbitrary, every subset of the parameters replaced.')
ASSUMPTIONS = ['no two parts of a composition are the same object', 'a set that joins others joins sets with one group each (others are refused)',
               'the concentration of stick-breaking weights with a hyper-prior is driven by the update of the weights and is not listed',
               'the root of a set of stick-breaking weights belongs to the model it was made from and is not listed by the set']


# ---- compositions: every builder returns (model, {parameter: (family, prior, posterior)}) --------------------------------------
def normal(ctx, tag='', fam='normalgamma'):
    from beer.models import Normal
    p, ps, qs = conj(ctx, fam, 1, 0, tag + 'n')
    return Normal(p), {p: (fam, ps, qs)}


def normalset(ctx, tag='', fam='normalgamma', K=2):
    from beer.models import NormalSet
    p, ps, qs = conj(ctx, fam, 1, K, tag + 's')
    return NormalSet(p), {p: (fam, ps, qs)}


def categorical(ctx, tag='', K=2):
    from beer.models import Categorical
    p, ps, qs = conj(ctx, 'dirichlet', K, 0, tag + 'w')
    return Categorical(p), {p: ('dirichlet', ps, qs)}


def categoricalset(ctx, tag='', n=2, K=2):
    from beer.models import CategoricalSet
    p, ps, qs = conj(ctx, 'dirichlet', K, n, tag + 'ws')
    return CategoricalSet(p), {p: ('dirichlet', ps, qs)}


def sb(ctx, tag='', K=2, hyper=False):
    from beer.models import SBCategorical, SBCategoricalHyperPrior
    m = (SBCategoricalHyperPrior.create(truncation=K, prior_strength=2., hyper_prior_strength=1.) if hyper else
         SBCategorical.create(truncation=K, prior_strength=2.))
    return m, {p: None for p in walk(m)}


def mixture(ctx, tag='', weights=categorical, comps=normalset):
    from beer.models import Mixture
    w, a = weights(ctx, tag + 'm')
    c, b = comps(ctx, tag + 'm')
    return Mixture(w, c), {**a, **b}


def mixtureset(ctx, tag='', n=2):
    from beer.models import MixtureSet
    w, a = categoricalset(ctx, tag + 'x', n, 2)
    c, b = normalset(ctx, tag + 'x', K=2 * n)
    return MixtureSet(w, c), {**a, **b}


def joint(ctx, tag='', parts=(normalset, normalset)):
    from beer.models import JointModelSet
    built = [f(ctx, '%sj%d' % (tag, i)) for i, f in enumerate(parts)]
    return JointModelSet([m for m, _ in built]), {k: v for _, d in built for k, v in d.items()}


def repeated(ctx, tag='', of=normalset, n=2):
    from beer.models import RepeatedModelSet
    m, d = of(ctx, tag + 'r')
    return RepeatedModelSet(m, n), d


def graph(ctx, S):
    g, _, _, _ = compiled_graph(ctx, S)
    t = ctx.make([[.5 if i == j else .5 / (S - 1) for j in range(S)] for i in range(S)]).log()
    g.trans_log_probs = t
    g.pdf_id_mapping = list(range(S))
    return g


def hmm(ctx, tag='', em=normalset, S=2):
    from beer.models import HMM
    m, d = em(ctx, tag + 'h')
    return HMM.create(graph(ctx, S), m), d


def loop(ctx, tag='', em=normalset, weights=categorical, bigram=False):
    from beer.models import PhoneLoop, BigramPhoneLoop
    m, d = em(ctx, tag + 'h')
    w, e = weights(ctx, tag + 'h')
    units = {'u0': 0, 'u1': 1}
    return (BigramPhoneLoop if bigram else PhoneLoop).create(graph(ctx, 2), units, dict(units), m, w), {**d, **e}


def joined_mixtures(ctx, tag=''):
    return joint(ctx, tag, (lambda c, t: mixtureset(c, t, 1), lambda c, t: mixtureset(c, t, 1)))


COMPOSED = dict(
    normal=normal, iso=lambda c: normal(c, fam='isonormalgamma'), full=lambda c: normal(c, fam='normalwishart'), set=normalset, categorical=categorical,
    categoricals=categoricalset, sb=sb, sb_hyper=lambda c: sb(c, hyper=True), mixture=mixture, mixture_sb=lambda c: mixture(c, weights=sb),
    mixture_hyper=lambda c: mixture(c, weights=lambda c, t: sb(c, t, hyper=True)), mixture_joint=lambda c: mixture(c, weights=lambda c, t: categorical(c, t, 4), comps=joint),
    mixtures=mixtureset, mixture_of_mixtures=lambda c: mixture(c, comps=mixtureset), joint=joint, joined_mixtures=joined_mixtures, repeated=repeated,
    mixture_repeated=lambda c: mixture(c, weights=lambda c, t: categorical(c, t, 4), comps=repeated), hmm=hmm, hmm_mixtures=lambda c: hmm(c, em=mixtureset),
    hmm_joined=lambda c: hmm(c, em=joined_mixtures), loop=loop, loop_joined=lambda c: loop(c, em=joined_mixtures), loop_sb=lambda c: loop(c, em=mixtureset, weights=sb),
    loop_hyper=lambda c: loop(c, weights=lambda c, t: sb(c, t, hyper=True)), bigram=lambda c: loop(c, weights=categoricalset, bigram=True),
    bigram_joined=lambda c: loop(c, em=joined_mixtures, weights=categoricalset, bigram=True),
)
NO_DATA = {'joint', 'joined_mixtures', 'repeated', 'set', 'mixtures', 'categoricals', 'categorical', 'sb', 'sb_hyper'}


def walk(m):
    """parameters found by following every attribute that is a model, a parameter or a container of them"""
    from beer.models.parameters import BayesianParameter
    from beer.models import SBCategoricalHyperPrior
    out = []
    driven = [x.concentration for x in m.modules() if isinstance(x, SBCategoricalHyperPrior)]
    for x in m.modules():
        if isinstance(x, BayesianParameter) and x not in driven and not any(x is y for y in out):
            out.append(x)
    return out


def among(p, ps):
    return any(p is q for q in ps)


def listing(ctx, kind):
    from beer.models.parameters import ConjugateBayesianParameter, BayesianParameter
    m, params = COMPOSED[kind](ctx)
    want = walk(m)
    ctx.check('parameters put in', all(among(p, want) for p in params) and len(want) == len(params))
    got = list(m.bayesian_parameters())
    ctx.check('listed exactly once', len(got) == len(want) and all(among(p, got) for p in want))
    groups = m.mean_field_factorization()
    flat = [p for g in groups for p in g]
    ctx.check('in exactly one group', len(flat) == len(want) and all(among(p, flat) for p in want))
    kept = list(m.bayesian_parameters(keepgroups=True))
    ctx.check('groups kept', [[id(p) for p in g] for g in kept] == [[id(p) for p in g] for g in groups if g])
    ctx.check('asking again gives the same groups', [[id(p) for p in g] for g in m.mean_field_factorization()] == [[id(p) for p in g] for g in groups])
    # filters
    sel = [p for i, p in enumerate(want) if ctx.flag('selected%d' % i)]
    f = lambda p: among(p, sel)
    got = list(m.bayesian_parameters(paramfilter=f))
    ctx.check('filter', len(got) == len(sel) and all(among(p, got) for p in sel))
    got = [g for g in m.bayesian_parameters(paramfilter=f, keepgroups=True)]
    ctx.check('filtered groups', [[id(p) for p in g] for g in got] == [h for h in [[id(p) for p in g if f(p)] for g in groups] if h])
    conjugate = [p for p in want if type(p) is ConjugateBayesianParameter]
    got = list(m.conjugate_bayesian_parameters())
    ctx.check('conjugate parameters', len(got) == len(conjugate) and all(among(p, got) for p in conjugate))
    got = list(m.conjugate_bayesian_parameters(keepgroups=True))
    ctx.check('groups of conjugate parameters', [[id(p) for p in g] for g in got] == [[id(p) for p in g if among(p, conjugate)] for g in groups if g])
    ctx.check('no parameter of another type', list(m.bayesian_parameters(paramtype=BayesianParameter)) == [])
    nat = [(p.posterior.natural_parameters(), p.prior.natural_parameters()) for g in groups for p in g]
    if all(a.dim() == 1 for a, _ in nat):
        ctx.check_all_eq('statistics accumulated since the prior', m.accumulated_statistics(),
                         [x - y for a, b in nat for x, y in zip(ctx.scalars(a), ctx.scalars(b))])
    # divergence
    if all(params.values()):
        total = ctx.sum([F.kl(ctx, fam, q, p) for fam, ps, qs in params.values() for p, q in zip(ps, qs)])
    else:
        total = ctx.sum([ctx.scalar(p.kl_div_posterior_prior().sum()) for p in want])
    ctx.check_eq('divergence', ctx.scalar(m.kl_div_posterior_prior()), total)


def statistics(ctx, kind, N=1):
    m, params = COMPOSED[kind](ctx)
    x = m.sufficient_statistics(ctx.make([[ctx.real('x%d' % n)] for n in range(N)]))
    m.expected_log_likelihood(x)
    acc = m.accumulate(x)
    want = walk(m)
    ctx.check('statistics for every parameter', len(acc) == len(want) and all(among(p, list(acc)) for p in want))
    for p in want:
        if among(p, list(acc)) and params[p]:
            ctx.check('statistics have the shape of the parameter', tuple(acc[p].shape) == tuple(p.posterior.natural_parameters().shape))


def replace(ctx, kind):
    """any subset of the parameters is replaced: everywhere, and nothing else"""
    m, params = COMPOSED[kind](ctx)
    from beer.models.parameters import ConjugateBayesianParameter
    old = walk(m)
    before = [[id(p) for p in g] for g in m.mean_field_factorization()]
    x = ctx.make([[ctx.real('x')]])
    new = {}
    for i, p in enumerate(old):
        if ctx.flag('replace%d' % i):
            fam, ps, qs = params[p]
            K = len(ps) if len(p.posterior.natural_parameters().shape) > 1 else 0
            dim = len(ps[0]['concentrations']) if fam == 'dirichlet' else 1
            new[p], _, _ = conj(ctx, fam, dim, K, 'new%d' % i)
    vals = [ctx.scalars(p.posterior.natural_parameters()) for p in old]
    m.replace_parameters(new)
    want = [[id(new.get(p, p)) for p in g] for g in [[[q for q in old if id(q) == i][0] for i in g] for g in before]]
    ctx.check('replaced in the listing', [[id(p) for p in g] for g in m.mean_field_factorization()] == want)
    ctx.check('the old one is gone', not any(among(p, walk(m)) for p in new))
    ctx.check_all_eq('replaced parameters are left as they are', [p.posterior.natural_parameters() for p in old], vals)
    if kind in NO_DATA:
        return
    stats = m.sufficient_statistics(x)
    m.expected_log_likelihood(stats)
    acc = m.accumulate(stats)
    ctx.check('statistics are for the new ones', all(among(new.get(p, p), list(acc)) for p in old) and len(acc) == len(old))


LIST = list(COMPOSED)
DATA = [k for k in LIST if k not in NO_DATA]
REPL = [k for k in LIST if not any(s in k for s in ('sb', 'hyper'))]
HARNESSES = [
    Harness('listing', listing, quick=[dict(kind=k) for k in LIST], about='listing, groups, filters, divergence'),
    Harness('statistics', statistics, quick=[dict(kind=k) for k in DATA], thorough=[dict(kind=k, N=2) for k in DATA], about='statistics for every parameter'),
    Harness('replace', replace, quick=[dict(kind=k) for k in REPL], about='replacing parameters'),
]
