import copy
from unittest import mock

from .common import *
from . import nets
from .scripts import Scratch
from .c06 import World, Recorder, arbitrary, groups, pdfvecs, same_gradients, same_values, spread, standard, untouched
from .models import conj

BOUNDS = ('Bounds: 1-3 languages of 2-3 units of 2-3 states with 1-2 densities (dimension 1-2), next to a smaller group of units, latent dimensions 1-2, 1-2 training epochs; '
          'emission parameters, latent posteriors, transformations, optimizer steps and draws arbitrary.')
ASSUMPTIONS = ['the group in the subspace has more states than any other group of the loop', 'the languages share one configuration and feature dimension',
               'what an optimizer step does to non-conjugate parameters is arbitrary (the optimizer belongs to PyTorch)', 'the scale of the initial statistics of the densities is not claimed',
               'priors of the positions within a language are not trained by the command (not claimed)']
DIR = 'beer/cli/subcommands/hshmm/'


class Tagged:
    """context whose variables carry the name of the language"""

    def __init__(self, ctx, tag):
        self.__dict__.update(_c=ctx, _t=tag)

    def __getattr__(self, n):
        a = getattr(self._c, n)
        if n in ('real', 'pos', 'integer', 'tensor', 'unit', 'positive'):
            return lambda name, *x, **k: a(self._t + name, *x, **k)
        return a

    def __setattr__(self, n, v):
        setattr(self._c, n, v)


class Languages:
    def __init__(self, ctx, s, ns, L=1, T=1, **kw):
        self.ctx, self.s, self.L, self.T = ctx, s, L, T
        self.worlds, self.lines = {}, []
        lines = self.lines
        for i, n in enumerate(ns):
            l = 'l%d' % i
            self.worlds[l] = World(Tagged(ctx, l), s, n=n, **kw)
            import os
            os.rename(s.path('pl'), s.path('pl' + l))
            lines.append('%s %s' % (s.path('pl' + l), l))
        s.text('langs', lines)
        self.conf = next(iter(self.worlds.values())).conf

    def make(self, out=''):
        self.s.command(DIR + 'mksphoneloop.py', ['-l', str(self.L), '-t', str(self.T), '@conf', '@langs', '@gsm' + out, '@posts' + out, '@sp' + out], config=dict(conf=self.conf))
        self.s.text('loops' + out, ['%s_%s %s' % (self.s.path('sp' + out), l, l) for l in self.worlds])
        return self.load(out)

    def subset(self, names, out):
        """a model of some of the languages"""
        self.s.text('langs', [l for l in self.lines if l.split()[1] in names])
        gsm, posts, _ = self.make(out)
        self.arbitrary(gsm, posts, out, 'o')
        self.s.text('langs', self.lines)
        return gsm, posts

    def load(self, out=''):
        gsm, posts, sp = (self.s.unpickle(n + out) for n in ('gsm', 'posts', 'sp'))
        return gsm, posts, sp

    def arbitrary(self, gsm, posts, out='', tag=''):
        ctx = self.ctx
        nets.weigh(ctx, gsm['root'].shared_transform, tag + 't')
        for l in gsm['langs']:
            nets.weigh(ctx, gsm['langs'][l].transform.latent_posterior, tag + 'h' + l)
            nets.weigh(ctx, posts[0][l], tag + 'q' + l)
        self.s.pickle('gsm' + out, gsm)
        self.s.pickle('posts' + out, posts)


def place(ctx, world, gsm, posts, sp, end, ls, label='units', **kw):
    """units of languages ls (in that order) lie where the model places them, given the last draws"""
    def go():
        return [gsm['langs'][l].expected_pdfvecs(posts[0][l], **kw) for l in ls]
    ctx.nrand = 0
    go()
    ctx.nrand = end - ctx.nrand
    for l, want in zip(ls, go()):
        w = world.worlds[l]
        ctx.check_all_eq('%s of %s lie in the subspace' % (label, l), ctx.make(pdfvecs(w.ctx, w, sp[l])), want.detach())
    ctx.check('draws', ctx.nrand == end)


def shared(ctx, gsm):
    ctx.check('one transformation for all languages', all(g.transform.root_transform is gsm['root'].shared_transform for g in gsm['langs'].values()))


def create(ctx, ns, **kw):
    from beer.models.gsm import SubspaceBayesianParameter as SBP
    with Scratch(ctx) as s:
        w = Languages(ctx, s, ns, **kw)
        gsm, posts, sp = w.make()
        end = ctx.nrand
        single = {l: s.unpickle('sp_' + l) for l in w.worlds}
    ctx.check('languages', all(list(d) == list(w.worlds) for d in (gsm['langs'], posts[0], sp)))
    ctx.check('dimensions', gsm['root'].shared_transform.in_dim == w.L and all(g.transform.in_dim == w.T for g in gsm['langs'].values()))
    ctx.check('dimensions (shared)', gsm['root'].shared_transform.out_dim == (w.T + 1) * gsm['params_dim'])
    ctx.check('layout', posts[2] == next(iter(w.worlds.values())).S and (gsm['lang_latent_dim'], gsm['unit_latent_dim']) == (w.L, w.T))
    shared(ctx, gsm)
    standard(ctx, 'prior of the languages', gsm['root'].latent_prior, w.L)
    for l, x in w.worlds.items():
        ps = list(groups(sp[l])[x.index].bayesian_parameters())
        standard(ctx, 'prior of the positions', gsm['langs'][l].latent_prior, w.T)
        ctx.check('one position per unit', len(posts[0][l]) == x.n == len(posts[1][l]) and posts[0][l].dim == w.T)
        ctx.check('the parameters of the group are in the subspace', len(ps) == 2 and all(type(p) is SBP for p in ps))
        untouched(x.ctx, x, sp[l])
        spread(x.ctx, x, sp[l])
        ctx.check_all_eq('loop of %s' % l, ctx.make(pdfvecs(ctx, x, single[l])), pdfvecs(ctx, x, sp[l]))
        untouched(x.ctx, x, single[l])
        spread(x.ctx, x, single[l])
    place(ctx, w, gsm, posts, sp, end, list(w.worlds))


def same_model(ctx, label, a, b):
    same_values(ctx, label + ' (shared)', a['root'].shared_transform, b['root'].shared_transform)
    for l in b['langs']:
        same_values(ctx, label + ' (%s)' % l, a['langs'][l].transform.latent_posterior, b['langs'][l].transform.latent_posterior)


class Steps(Recorder):
    """moves only parameters that have a gradient"""

    def step(self, *a, **k):
        all_, self.params = self.params, [p for p in self.params if p.grad is not None]
        self.seen = [any(p is q for q in self.params) for p in all_]
        try:
            super().step()
        finally:
            self.params = all_

    @property
    def param_groups(self):
        return [dict(params=self.params)]


def train(ctx, ns, epochs=1, skip='', lrate=None, std=None, counts=(1, 1, 1), sgd=False, state=None, **kw):
    import beer
    with Scratch(ctx) as s, mock.patch('torch.optim.SGD' if sgd else 'torch.optim.Adam', Steps):
        Recorder.log, Recorder.ctx = [], ctx
        w = Languages(ctx, s, ns, **kw)
        gsm, posts, sp = w.make()
        w.arbitrary(gsm, posts)
        if state is not None:
            torch.save({'cjg_optim': {'lrate': lrate or 1., 'update_count': state}, 'std_optim': {'steps': state}}, s.path('opt'))
        k = ctx.nrand
        n_lang, n_unit, n_par = counts
        opts = ['-e', str(epochs), '-n', str(n_lang), '-u', str(n_unit), '-k', str(n_par)] + ['-' + o for o in skip] + (['-c', str(lrate)] if lrate else []) + (['-s', str(std)] if std else [])
        opts += (['--sgd'] if sgd else []) + (['-o', '@opt'] if state is not None else [])
        s.command(DIR + 'train.py', opts + ['@gsm', '@posts', '@loops', '@gsm1', '@posts1', '@sp1'])
        end, rec = ctx.nrand, Recorder.log
        got, out, loop = w.load('1')
        single = {l: s.unpickle('sp1_' + l) for l in w.worlds}
        if state is not None:
            st = torch.load(s.path('opt'))
            ctx.check('stored optimizer', st['std_optim']['steps'] == state + epochs and st['cjg_optim']['update_count'] == state + epochs)
    ctx.check('one optimizer', len(rec) == 1 and rec[0].lr == (std or .1))
    # the same training in memory
    ctx.nrand = k
    before, qbefore = copy.deepcopy(gsm), copy.deepcopy(posts[0])
    langs = gsm['langs']
    units = {l: [groups(sp[l])[x.index][i * x.S:(i + 1) * x.S] for i in range(x.n)] for l, x in w.worlds.items()}
    own = Steps([p for p in gsm['root'].parameters()] + [p for g in langs.values() for p in g.transform.latent_posterior.parameters()] + [p for q in posts[0].values() for p in q.parameters()], 0)
    own.steps = state or 0
    free = dict(p=gsm['root'].parameters(), a=[p for g in langs.values() for p in g.transform.latent_posterior.parameters()], b=[p for q in posts[0].values() for p in q.parameters()])
    for e in range(epochs):
        own.zero_grad()
        beer.evidence_lower_bound(gsm['root'], [[langs[l], units[l]] for l in langs], latent_posts=[posts[0][l] for l in langs],
                                  univ_latent_nsamples=n_lang, latent_nsamples=n_unit, params_nsamples=n_par).backward()
        for o in skip:
            for p in free[o]:
                p.grad = None
        own.step()
        ctx.check('everything else is trained', all(g or any(p is q for o in skip for q in free[o]) for p, g in zip(own.params, own.seen) if p.numel()) if not skip else True)
        free = dict(p=list(gsm['root'].parameters()), a=[p for g in langs.values() for p in g.transform.latent_posterior.parameters()], b=[p for q in posts[0].values() for p in q.parameters()])
    ctx.check('same draws', ctx.nrand == end)
    same_gradients(ctx, rec[0], own)
    same_model(ctx, 'model', got, gsm)
    for l in langs:
        same_values(ctx, 'positions of %s' % l, out[0][l], posts[0][l])
        if 'b' in skip:
            same_values(ctx, 'positions of %s are kept' % l, out[0][l], qbefore[l])
        if 'a' in skip:
            same_values(ctx, 'language %s is kept' % l, got['langs'][l].transform.latent_posterior, before['langs'][l].transform.latent_posterior)
    if 'p' in skip:
        same_values(ctx, 'shared transformation is kept', got['root'].shared_transform, before['root'].shared_transform)
    shared(ctx, got)
    for l, x in w.worlds.items():
        want = pdfvecs(ctx, x, sp[l])
        ctx.check_all_eq('units of %s' % l, ctx.make(pdfvecs(ctx, x, loop[l])), want)
        ctx.check_all_eq('units of %s (own file)' % l, ctx.make(pdfvecs(ctx, x, single[l])), want)
        untouched(x.ctx, x, loop[l])
        ctx.check('stored with the positions', len(out[1][l]) == x.n)
    ctx.check('stored layout', out[2] == posts[2] and list(out[0]) == list(posts[0]))


def init(ctx, ns, target='l0', adapt=None, use=None, same=False, counts=(1, 1), source=None, **kw):
    """units of a language moved into a model trained with other languages"""
    with Scratch(ctx) as s:
        w = Languages(ctx, s, ns, **kw)
        temp, posts, sp = w.make()
        w.arbitrary(temp, posts)
        src, qsrc = w.subset(source or list(w.worlds), '0')
        opts = (['--adapt-from', adapt] if adapt else []) + (['--init-from', use] if use else []) + (['--same'] if same else [])
        opts += ['--latent-nsamples', str(counts[0]), '--params-nsamples', str(counts[1])]
        s.command(DIR + 'init.py', opts + [target, '@gsm', '@gsm0', '@posts', '@sp', '@sp1', '@gsm1'])
        end = ctx.nrand
        got, loop, single = s.unpickle('gsm1'), s.unpickle('sp1'), s.unpickle('sp1_' + target)
        again = s.unpickle('gsm0')
    same_values(ctx, 'shared transformation', got['root'].shared_transform, src['root'].shared_transform)
    same_model(ctx, 'given model is left as it was', again, src)
    ctx.check('languages', list(got['langs']) == list(w.worlds))
    for l in w.worlds:
        want = src['langs'][adapt] if adapt and l == target else temp['langs'][l]
        same_values(ctx, 'language %s' % l, got['langs'][l].transform.latent_posterior, want.transform.latent_posterior)
        x = w.worlds[l]
        if l != target:
            ctx.check_all_eq('units of other languages stay', ctx.make(pdfvecs(ctx, x, loop[l])), pdfvecs(ctx, x, sp[l]))
        untouched(x.ctx, x, loop[l])
    g = src['langs'][use] if use else src['langs'][adapt] if adapt else temp['langs'][target]
    g.transform.root_transform = src['root'].shared_transform
    ctx.nrand = 0
    f = lambda: g.expected_pdfvecs(posts[0][target], latent_nsamples=counts[0], params_nsamples=counts[1])
    f()
    ctx.nrand = end - ctx.nrand
    want = f().detach()
    x = w.worlds[target]
    rows = ctx.scalars(want)
    if same:
        rows = [rows[0]] * x.n
    for p in (loop[target], single):
        ctx.check_all_eq('units lie in the subspace', ctx.make(pdfvecs(ctx, x, p)), rows)


O = dict(float_nan=True, assume_positive=True)
HARNESSES = [
    Harness('create', create, about='creation for several languages', quick=[dict(ns=(2, 3), S=2, G=1), dict(ns=(3, 4), S=1, G=1), dict(ns=(2, 2), S=3, G=2, L=2, T=2), dict(ns=(3,), S=2, G=2, first=True)], thorough=[dict(ns=(2, 3, 2), S=2, G=2, L=2, dim=2)]),
    Harness('train', train, about='training', opts=O, quick=[dict(ns=(2, 3), S=2, G=1), dict(ns=(2, 2), S=2, G=1, epochs=2, skip='p', std=.01), dict(ns=(2,), S=2, G=2, skip='a', counts=(2, 1, 2), sgd=True), dict(ns=(2, 2), S=2, G=1, counts=(1, 2, 1)), dict(ns=(3,), S=1, G=1),
                                                             dict(ns=(2, 2), S=2, G=1, skip='pb', state=1, epochs=2)],
            thorough=[dict(ns=(2, 3, 2), S=2, G=2, T=2, epochs=2, counts=(1, 2, 1), first=True)]),
    Harness('init', init, about='units moved into a trained model', quick=[dict(ns=(2, 3), S=2, G=1), dict(ns=(2, 2), S=2, G=2, adapt='l1', source=['l1']), dict(ns=(2, 2), S=2, G=1, use='l1', same=True, counts=(2, 1)), dict(ns=(2, 2), S=2, G=1, target='l1', adapt='l0', use='l0', counts=(1, 2)),
                                                                                dict(ns=(2, 2, 2), S=2, G=1, target='l1', adapt='l2', source=['l0', 'l2'])],
            thorough=[dict(ns=(2, 3, 2), S=2, G=2, L=2, T=2, adapt='l2')]),
]
