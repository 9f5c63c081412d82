import copy
from unittest import mock

from .common import *
from .c02 import hmm
from .models import conj
from .scripts import Scratch

BOUNDS = ('Bounds: 1-3 units of 2-3 states with 1-2 densities (dimension 1-2, isotropic, diagonal or full), next to a group of one unit that is not part of the subspace, latent dimension 1-2, '
          '1-2 classes, 1-3 training epochs; emission parameters, latent posteriors, transformations, optimizer steps and draws arbitrary.')
ASSUMPTIONS = ['the groups of the configuration are those of the phone loop, each with at least one unit', 'the file of classes lists units of the group only, all of them',
               'what an optimizer step does to non-conjugate parameters is arbitrary (the optimizer belongs to PyTorch)', 'the scale of the initial statistics of the densities is not claimed']
DIR, HMM = 'beer/cli/subcommands/shmm/', 'beer/cli/subcommands/hmm/'
SIL = (1, 2, 2)      # units, states, densities of the other group


def mixtures(ctx, fam, dim, n, G, tag):
    from beer.models import NormalSet, MixtureSet, CategoricalSet
    return MixtureSet(CategoricalSet(conj(ctx, 'dirichlet', G, n, tag + 'w')[0]), NormalSet(conj(ctx, fam, dim, n * G, tag + 'c')[0]))


def topology(n):
    return [dict(start_id=0, end_id=1, trans_prob=1.)] + [dict(start_id=i, end_id=i + d, trans_prob=.5) for i in range(1, n + 1) for d in (0, 1)]


class World:
    """phone loop with two groups of units"""

    def __init__(self, ctx, s, fam='normalgamma', dim=1, n=2, S=2, G=2, first=False, group='speech-unit'):
        from beer.models import JointModelSet
        self.ctx, self.s, self.n, self.S, self.G = ctx, s, n, S, G
        groups = [('sil',) + SIL, (group, n, S, G)]
        if first:
            groups = groups[::-1]
        self.index = 1 - int(first)
        self.names = [['sil'] if g[0] == 'sil' else ['u%d' % i for i in range(n)] for g in groups]
        units, pdf = {}, 0
        for g, names in zip(groups, self.names):
            for u in names:
                units[u], _ = hmm(ctx, u, g[2], (), pdf)
                pdf += g[2]
        em = JointModelSet([mixtures(ctx, fam, dim, g[1] * g[2], g[3], g[0][0]) for g in groups])
        self.conf = [dict(group_name=g[0], n_units=g[1], n_normal_per_state=g[3], n_state_per_unit=g[2], topology=topology(g[2])) for g in groups]
        s.text('units', ['%s g' % u for names in self.names for u in names])
        s.command(HMM + 'mkphoneloopgraph.py', ['@units', '@loop'])
        s.pickle('hmms', (units, em))
        s.command(HMM + 'mkdecodegraph.py', ['@loop', '@hmms', '@dec'])
        s.command(HMM + 'mkphoneloop.py', ['--weights-prior', 'dirichlet', '@dec', '@hmms', '@pl'])
        self.em = em

    def make(self, opts, out='', L=None):
        self.s.command(DIR + 'mksphoneloop.py', opts + (['-l', str(L)] if L else []) + ['@conf', '@pl', '@gsm' + out, '@posts' + out, '@sp' + out], config=dict(conf=self.conf))
        return self.load(out)

    def load(self, out=''):
        return tuple(self.s.unpickle(n + out) for n in ('gsm', 'posts', 'sp'))


def groups(sp):
    return list(sp.modelset.original_modelset.modelsets)


def pdfvecs(ctx, w, sp):
    """flat parameters of each unit"""
    em = groups(sp)[w.index]
    out = []
    vs = [ctx.scalars(p.pdfvec) for p in em.bayesian_parameters()]
    for u in range(w.n):
        out.append([v for rows in vs for r in rows[u * (len(rows) // w.n):(u + 1) * (len(rows) // w.n)] for v in r])
    return out


def placed(ctx, w, gsm, posts, sp, end, label='units'):
    """the units are where the subspace model expects them, given the last draws"""
    ctx.nrand = 0
    gsm.expected_pdfvecs(posts)
    used = ctx.nrand
    ctx.nrand = end - used
    want = gsm.expected_pdfvecs(posts)
    ctx.check_all_eq('%s lie in the subspace' % label, ctx.make(pdfvecs(ctx, w, sp)), want.detach())
    ctx.nrand = end


def untouched(ctx, w, sp, em=None):
    """the other group"""
    from beer.models.parameters import ConjugateBayesianParameter as CBP
    a, b = groups(sp)[1 - w.index], w.em.modelsets[1 - w.index]
    for p, q in zip(a.bayesian_parameters(), b.bayesian_parameters()):
        ctx.check('the other group is not part of the subspace', type(p) is CBP)
        ctx.check_all_eq('the other group (posterior)', p.posterior.natural_parameters(), ctx.scalars(q.posterior.natural_parameters()))
        ctx.check_all_eq('the other group (prior)', p.prior.natural_parameters(), ctx.scalars(q.prior.natural_parameters()))


def header(ctx, w, posts, L):
    ctx.check('stored layout', tuple(posts[1:4]) == (w.n, w.S, w.index))
    ctx.check('one latent posterior per unit', len(posts[0]) == w.n and posts[0].dim == L)


def spread(ctx, w, sp):
    """the statistics of a unit are spread over its states and densities"""
    em, ref = groups(sp)[w.index], w.em.modelsets[w.index]
    dif = lambda p: [[a - b for a, b in zip(x, y)] for x, y in zip(ctx.scalars(p.posterior.natural_parameters()), ctx.scalars(p.prior.natural_parameters()))]
    W, C = ctx.scalars(em.categoricalset.weights.stats), ctx.scalars(em.modelset.means_precisions.stats)
    Wr, Cr = dif(ref.categoricalset.weights), dif(ref.modelset.means_precisions)
    S, G = w.S, w.G
    totals = [ctx.sum([r[-1] for r in Wr[u * S:(u + 1) * S]]) for u in range(w.n)]
    for u in range(w.n):
        for r in W[u * S:(u + 1) * S]:
            if S == 3:
                ctx.check_eq('count of a state', r[-1], totals[u] / 3)
            ctx.check_eq('states of a unit start alike', r[-1], W[u * S][-1])
            ctx.check_eq('count of a state (up to scale)', r[-1] * totals[0], W[0][-1] * totals[u])
            ctx.check('count of a state (sign)', ctx.le(0, r[-1] * totals[u]))
            for v in r[:-1]:
                ctx.check_eq('count of a density', v * G, r[-1])
        tot = [ctx.sum(list(v)) for v in zip(*Cr[u * S * G:(u + 1) * S * G])]
        rows = C[u * S * G:(u + 1) * S * G]
        for r in rows:
            ctx.check_all_eq('densities of a unit start alike', ctx.make(r), rows[0])
        for i in range(len(tot)):
            ctx.check_eq('statistics of a unit (direction)', rows[0][i] * tot[0], tot[i] * rows[0][0])
            ctx.check('statistics of a unit (sign)', ctx.le(0, rows[0][i] * tot[i]))


def create(ctx, L=1, posts=False, **kw):
    from beer.models.gsm import SubspaceBayesianParameter as SBP
    from beer.models import GSM
    with Scratch(ctx) as s:
        w = World(ctx, s, **kw)
        opts = [] if kw.get('group') is None else ['-g', kw['group']]
        if posts:
            from . import nets
            w.make(opts, '0', L=L)
            given = s.unpickle('posts0')
            nets.weigh(ctx, given[0], 'h')
            s.pickle('posts0', given)
            opts = ['-p', '@posts0'] + opts
        gsm, out, sp = w.make(opts, L=L)
        end = ctx.nrand
        again = s.unpickle('posts0') if posts else None
    header(ctx, w, out, L)
    ctx.check('nothing else stored', len(out) == 4)
    ctx.check('type of subspace model', type(gsm) is GSM and gsm.transform.in_dim == L)
    standard(ctx, 'prior of the positions', gsm.latent_prior, L)
    em = groups(sp)[w.index]
    ps = list(em.bayesian_parameters())
    ctx.check('the parameters of the group are in the subspace', len(ps) == 2 and all(type(p) is SBP for p in ps))
    untouched(ctx, w, sp)
    spread(ctx, w, sp)
    if posts:
        for a, b, c in zip(out[0].parameters(), given[0].parameters(), again[0].parameters()):
            ctx.check_all_eq('latent posteriors are those given', a.detach(), ctx.scalars(b.detach()))
            ctx.check_all_eq('given posteriors are left as they were', c.detach(), ctx.scalars(b.detach()))
    placed(ctx, w, gsm, out[0], sp, end)


def arbitrary(ctx, w, s, L, out='', cov=None):
    """a trained subspace model and trained positions"""
    from . import nets
    gsm, posts, sp = w.load(out)
    nets.weigh(ctx, gsm.transform, 't' + out)
    nets.weigh(ctx, posts[0], 'q' + out)
    for i, p in enumerate(gsm.latent_prior.bayesian_parameters()):
        q = conj(ctx, 'normalwishart', L, 0, 'l%s%d' % (out, i))[0]
        p.posterior = q.posterior
    s.pickle('gsm' + out, gsm)
    s.pickle('posts' + out, posts)
    return gsm, posts, sp


def same_values(ctx, label, a, b):
    """same parameters and prior of two distributions or modules"""
    x, y = ({k: v for k, v in m.state_dict().items() if not k.endswith('stats')} for m in (a, b))
    ctx.check('%s: content' % label, list(x) == list(y))
    for k in x:
        if x[k].numel():
            ctx.check_all_eq('%s: %s' % (label, k), x[k], ctx.scalars(y[k]))


def classes(ctx, names, L=1, E=1, **kw):
    """one subspace per class of units"""
    with Scratch(ctx) as s:
        w = World(ctx, s, **kw)
        order = sorted(range(w.n), key=lambda i: ctx.choice('place%d' % i, w.n)) if w.n > 1 else [0]
        s.text('classes', ['u%d %s' % (i, names[i]) for i in order])
        s.command(DIR + 'mksphoneloop.py', ['-c', '@classes', '-l', str(L), '-d', str(E), '@conf', '@pl', '@gsm', '@posts', '@sp'], config=dict(conf=w.conf))
        gsm, out, sp = w.load()
        end = ctx.nrand
    header(ctx, w, out, L)
    cs = sorted(set(names))
    ctx.check('class of each unit', len(out) == 5 and out[4].tolist() == [cs.index(c) for c in names])
    g = gsm.modelset
    ctx.check('one subspace per class', len(g) == len(cs) and g.transform.in_dim == L and g.disc_transform.in_dim == E)
    standard(ctx, 'prior of the positions', g.latent_prior, L)
    standard(ctx, 'prior of the classes', g.means.prior, E)
    w_ = gsm.categorical.weights
    for d in (w_.prior, w_.posterior):
        ctx.check_all_eq('classes are equally likely', d.params.concentrations, [ctx.frac(1, len(cs))] * len(cs))
    untouched(ctx, w, sp)
    spread(ctx, w, sp)
    placed(ctx, w, g, out[0], sp, end)


def init(ctx, L=1, **kw):
    """units moved into a given subspace model"""
    with Scratch(ctx) as s:
        w = World(ctx, s, **kw)
        w.make([], L=L)
        gsm, posts, sp = arbitrary(ctx, w, s, L)
        s.command(DIR + 'init.py', ['@gsm', '@posts', '@sp', '@spnew'])
        end = ctx.nrand
        new = s.unpickle('spnew')
        g, q, old = w.load()
    placed(ctx, w, gsm, posts[0], new, end)
    untouched(ctx, w, new)
    same_values(ctx, 'model left as it was', g, gsm)
    same_values(ctx, 'positions left as they were', q[0], posts[0])
    same_values(ctx, 'stored loop left as it was', old, sp)


def setprior(ctx, L=1, var=None, m=None, **kw):
    """prior of a model from the posterior of another one; m: number of units of the other one"""
    import math
    m = m or kw['n']
    with Scratch(ctx) as s:
        w = World(ctx, s, **kw)
        w.make([], L=L)
        w.make([], '0', L=L)
        arbitrary(ctx, w, s, L)
        src, given, _ = arbitrary(ctx, w, s, L, '0')
        if m != w.n:
            from . import nets
            lat = nets.weigh(ctx, src.new_latent_posteriors(m), 'other')
            given = (lat,) + tuple(given[1:])
            s.pickle('posts0', given)
        k = ctx.nrand
        s.command(DIR + 'setprior.py', (['-v', str(var)] if var else []) + ['@gsm', '@posts', '@sp', '@gsm0', '@posts0', '@gsm1', '@posts1', '@sp1'])
        end = ctx.nrand
        gsm, posts, sp = w.load('1')
        src2, given2, _ = w.load('0')
    header(ctx, w, posts, L)
    lv = ctx.log(ctx.frac(*float(var or 1.).as_integer_ratio()))
    for name in ('weights', 'bias'):
        p, q = getattr(gsm.transform, name), getattr(src.transform, name)
        ctx.check_all_eq('mean of the prior (%s)' % name, p.prior.params.mean.detach(), ctx.scalars(q.posterior.params.mean.detach()))
        ctx.check_all_eq('posterior starts at the prior (%s)' % name, p.posterior.params.mean.detach(), ctx.scalars(q.posterior.params.mean.detach()))
        for d in (p.prior, p.posterior):
            v = d.params.log_diag_cov.detach()
            ctx.check_all_eq('variance (%s)' % name, v, [lv] * v.numel())
        ctx.check('the posterior is still trained, the prior is not (%s)' % name, len(list(p.posterior.parameters())) == 2 and len(list(p.prior.parameters())) == 0)
    same_values(ctx, 'latent prior', gsm.latent_prior, src.latent_prior)
    d = min(m, w.n)
    A, B = (ctx.scalars(v[0].params.mean.detach()) for v in (posts, given))
    C, D = (ctx.scalars(v[0].params.log_diag_cov.detach()) for v in (posts, given))
    ctx.check_all_eq('positions', ctx.make(A[:d]), B[:d])
    ctx.check_all_eq('spread of the positions', ctx.make(C[:d]), D[:d])
    if d < w.n:
        mean, dev = src.latent_prior.mean.detach(), src.latent_prior.cov.diag().detach()
        mean, dev = ctx.scalars(mean), [ctx.sqrt(v) for v in ctx.scalars(dev)]
        for i in range(d, w.n):
            z = [ctx.real('rnd%d' % (k + (i - d) * L + j)) for j in range(L)]
            ctx.check_all_eq('positions of additional units are drawn from the prior', ctx.make(A[i]), [a + b * c for a, b, c in zip(mean, dev, z)])
    placed(ctx, w, gsm, posts[0], sp, end)
    untouched(ctx, w, sp)
    same_values(ctx, 'the other model is left as it was', src2, src)
    same_values(ctx, 'the other positions are left as they were', given2[0], given[0])


class Recorder:
    """stands for the optimizer of PyTorch: each step moves the parameters anywhere"""
    log = None

    def __init__(self, params, lr):
        self.params, self.lr, self.steps, self.grads = list(params), lr, 0, []
        Recorder.log.append(self)

    def zero_grad(self, *a, **k):
        for p in self.params:
            p.grad = None

    def step(self, *a, **k):
        ctx = self.ctx
        self.grads.append([None if p.grad is None or not p.numel() else ctx.scalars(p.grad.detach()) for p in self.params])
        for i, p in enumerate(self.params):
            if p.numel():
                p.data[:] = ctx.tensor('step%d_%d_' % (self.steps, i), tuple(p.shape))
        self.steps += 1

    def state_dict(self):
        return {'steps': self.steps}

    def load_state_dict(self, st):
        self.steps = st['steps']


def same_gradients(ctx, a, b):
    """both optimizers were handed the same gradients"""
    ctx.check('number of steps', len(a.grads) == len(b.grads))
    for e, (p, q) in enumerate(zip(a.grads, b.grads)):
        ctx.check('trained parameters', len(p) == len(q))
        zero = lambda v: v is None or all(not nonzero(x) for x in flat(v))
        for i, (x, y) in enumerate(zip(p, q)):
            if x is None or y is None:
                ctx.check('epoch %d: gradient %d' % (e, i), zero(x) and zero(y))
            else:
                ctx.check_all_eq('epoch %d: gradient %d' % (e, i), ctx.make(x), y)


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def standard(ctx, label, normal, L):
    """the prior of the positions is the standard one"""
    ctx.check_all_eq('mean of the %s' % label, normal.mean, [0] * L)
    ctx.check_all_eq('covariance of the %s' % label, normal.cov, [[int(i == j) for j in range(L)] for i in range(L)])


def train(ctx, L=1, epochs=1, only=False, lrate=None, std=None, n_lat=1, n_par=1, state=None, names=None, E=1, **kw):
    import beer
    with Scratch(ctx) as s, mock.patch('torch.optim.Adam', Recorder):
        Recorder.log, Recorder.ctx = [], ctx
        w = World(ctx, s, **kw)
        if names:
            s.text('classes', ['u%d %s' % (i, c) for i, c in enumerate(names)])
        w.make(['-c', '@classes', '-d', str(E)] if names else [], L=L)
        if names:
            gsm, posts, sp = w.load()
        else:
            gsm, posts, sp = arbitrary(ctx, w, s, L)
        if state is not None:
            torch.save({'cjg_optim': {'lrate': lrate or 1., 'update_count': state}, 'std_optim': {'steps': state}}, s.path('opt'))
        k = ctx.nrand
        opts = ['-e', str(epochs), '-n', str(n_lat), '-k', str(n_par)] + (['-p'] if only else []) + (['-c', str(lrate)] if lrate else []) + (['-s', str(std)] if std else [])
        if state is not None:
            opts += ['-o', '@opt']
        s.command(DIR + 'train.py', opts + ['@gsm', '@posts', '@sp', '@gsm1', '@posts1', '@sp1'])
        end, rec = ctx.nrand, Recorder.log
        got, out, loop = w.load('1')
        if state is not None:
            st = torch.load(s.path('opt'))
            ctx.check('stored optimizer', st['std_optim']['steps'] == state + epochs and st['cjg_optim']['update_count'] == state + epochs)
        ctx.check('one optimizer', len(rec) == 1 and rec[0].lr == (std or .1))
        # the same training in memory
        ctx.nrand = k
        before = copy.deepcopy(gsm)
        em = groups(sp)[w.index]
        units = [em[i * w.S:(i + 1) * w.S] for i in range(w.n)]
        cjg = beer.VBConjugateOptimizer([] if only else gsm.conjugate_bayesian_parameters(keepgroups=True), lrate or 1.)
        own = Recorder(list(posts[0].parameters()) + ([] if only else list(gsm.parameters())), 0)
        cjg.update_count = own.steps = state or 0
        more = dict(labels=posts[4]) if names else {}
        for e in range(epochs):
            cjg.init_step()
            own.zero_grad()
            beer.evidence_lower_bound(gsm, units, latent_posts=posts[0], latent_nsamples=n_lat, params_nsamples=n_par, **more).backward()
            own.step()
            cjg.step()
        ctx.check('same draws', ctx.nrand == end)
        same_gradients(ctx, rec[0], own)
    if not names:
        header(ctx, w, out, L)
    ctx.check('stored with the positions', len(out) == len(posts) and (not names or out[4].tolist() == posts[4].tolist()))
    same_values(ctx, 'positions', out[0], posts[0])
    same_values(ctx, 'model', got, gsm)
    if only:
        same_values(ctx, 'model is not trained', got, before)
    ctx.check_all_eq('units', ctx.make(pdfvecs(ctx, w, loop)), pdfvecs(ctx, w, sp))
    untouched(ctx, w, loop)


def rounds(ctx, lengths, L=1, **kw):
    """accumulation and update of a subspace phone loop hand the statistics of the data to the subspace"""
    import beer
    from .c04 import create as dataset
    with Scratch(ctx) as s:
        w = World(ctx, s, **kw)
        w.make([], L=L)
        dim = kw.get('dim', 1)
        X = {u: [[ctx.real('x%s_%d_%d' % (u, t, d)) for d in range(dim)] for t in range(n)] for u, n in zip('ab', lengths)}
        dataset(ctx, s, X)
        _, _, m = w.load()
        before = pdfvecs(ctx, w, m)
        for i, u in enumerate(X):
            s.command(HMM + 'accumulate.py', ['@sp', '@data', '@elbo%d' % i], stdin=[u])
        s.command(HMM + 'update.py', ['@sp', '@sp1'], stdin=[s.path('elbo%d' % i) for i in range(len(X))])
        got = s.unpickle('sp1')
    size = sum(lengths)
    e = beer.evidence_lower_bound(datasize=size)
    for u in X:
        e += beer.evidence_lower_bound(m, ctx.make(X[u]), datasize=size)
    want = {p: v for p, v in e._acc_stats.items()} if hasattr(e, '_acc_stats') else None
    opt = beer.VBConjugateOptimizer(m.conjugate_bayesian_parameters(keepgroups=True))
    opt.init_step()
    e.backward()
    opt.step()
    ctx.check_all_eq('units stay where they are', ctx.make(pdfvecs(ctx, w, got)), before)
    for p, q in zip(groups(got)[w.index].bayesian_parameters(), groups(m)[w.index].bayesian_parameters()):
        ctx.check_all_eq('statistics', p.stats, ctx.scalars(q.stats))
    for p, q in zip(groups(got)[1 - w.index].bayesian_parameters(), groups(m)[1 - w.index].bayesian_parameters()):
        ctx.check_all_eq('parameters of the other group', p.posterior.natural_parameters(), ctx.scalars(q.posterior.natural_parameters()))


O = dict(float_nan=True, assume_positive=True)
Q = [dict(n=2, S=2, G=1), dict(n=2, S=3, G=2, L=2), dict(n=2, S=2, G=2, first=True, fam='isonormalgamma', dim=2), dict(n=1, S=2, G=2, posts=True), dict(n=2, S=2, G=1, L=2, posts=True, group='vowels')]
HARNESSES = [
    Harness('create', create, about='creation of the subspace phone loop', quick=Q, thorough=[dict(n=3, S=3, G=2, L=2, dim=2), dict(n=2, S=2, G=2, fam='normalwishart', dim=2, posts=True)]),
    Harness('classes', classes, about='one subspace per class', quick=[dict(names='ba', n=2, S=2, G=2), dict(names='aba', n=3, S=2, G=1, E=2), dict(names='ab', n=2, S=2, G=1)],
            thorough=[dict(names='cab', n=3, S=2, G=2, L=2, E=2)]),
    Harness('init', init, about='units moved into a trained subspace', quick=[dict(n=2, S=2, G=2), dict(n=1, S=2, G=2, L=2, first=True)], thorough=[dict(n=3, S=3, G=2, L=2, dim=2)]),
    Harness('setprior', setprior, about='prior from another model', quick=[dict(n=2, S=2, G=2), dict(n=2, S=2, G=1, var=.25, m=1), dict(n=3, S=2, G=1, L=2, m=1), dict(n=2, S=2, G=1, L=2, m=3)],
            thorough=[dict(n=3, S=2, G=2, L=2, m=1, var=2.)]),
    Harness('train', train, about='training', opts=O, quick=[dict(n=2, S=2, G=1), dict(n=2, S=2, G=2, only=True, epochs=2), dict(n=2, S=2, G=1, epochs=2, lrate=.5, std=.01, n_lat=2, n_par=2), dict(n=1, S=2, G=2, epochs=2, state=1), dict(n=1, S=2, G=1, only=True, state=1),
                                                    dict(names='ba', n=2, S=2, G=1)],
            thorough=[dict(n=3, S=2, G=2, epochs=3, state=2, lrate=.5), dict(n=3, S=2, G=2, L=2, only=True, epochs=3, n_par=2)]),
    Harness('rounds', rounds, opts=O, about='statistics of the data reach the subspace', quick=[dict(n=1, S=2, G=2, lengths=(2,)), dict(n=2, S=2, G=1, lengths=(2, 2), fam='isonormalgamma')], thorough=[dict(n=2, S=2, G=2, lengths=(3,))]),
]
