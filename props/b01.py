from .common import *
from . import families as F

BOUNDS = ('Bounds: dimension 1-2, up to 2 distributions per parameter, up to 3 parameters in 3 groups, histories of up to 4 operations '
          'chosen symbolically; priors, posteriors, statistics and learning rates are arbitrary.')


def param(ctx, fam, dim, K, tag):
    from beer.models.parameters import ConjugateBayesianParameter
    ps = [F.params(ctx, fam, dim, '%sp%d' % (tag, k)) for k in range(K or 1)]
    qs = [F.params(ctx, fam, dim, '%sq%d' % (tag, k)) for k in range(K or 1)]
    lik = None if fam != 'normalfull' else (lambda *a: None)
    p = ConjugateBayesianParameter(F.build(ctx, fam, ps, K > 0), F.build(ctx, fam, qs, K > 0), likelihood_fn=lik)
    return p, [F.nat(ctx, fam, x) for x in ps], [F.nat(ctx, fam, x) for x in qs]


def stats(ctx, fam, dim, K, tag, n):
    out = []
    for k in range(K or 1):
        s = [ctx.real('%sst%d_%d' % (tag, k, i)) for i in range(n)]
        if fam in ('normalwishart', 'normalfull'):     # statistics of outer products are symmetric
            for i in range(dim):
                for j in range(i):
                    s[dim + i * dim + j] = s[dim + j * dim + i]
        out.append(s)
    return out


def nest(K, rows):
    return rows if K else rows[0]


def step(lr, prior, post, st):
    return [[(1 - lr) * b + lr * (a + s) for a, b, s in zip(x, y, z)] for x, y, z in zip(prior, post, st)]


def update(ctx, fam, dim, K, exact=False):
    """one natural gradient step, observers, reset"""
    p, prior, post = param(ctx, fam, dim, K, '')
    bystander, bprior, bpost = param(ctx, fam, dim, K, 'b')
    st = stats(ctx, fam, dim, K, '', len(prior[0]))
    lr = 1 if exact else ctx.real('lrate')
    calls = []
    p.register_callback(lambda: calls.append(('before', p.posterior.natural_parameters())), notify_before_update=True)
    p.register_callback(lambda: calls.append(('after', p.posterior.natural_parameters())))
    calls2 = []
    for i in range(2):
        p.register_callback(lambda i=i: calls2.append(('before', i)), notify_before_update=True)
        p.register_callback(lambda i=i: calls2.append(('after', i)))
    ctx.check_all_eq('no statistics at first', p.stats, nest(K, [[0] * len(x) for x in prior]))
    p.store_stats(ctx.make(nest(K, st)))
    p.natural_grad_update(lr)
    want = nest(K, step(lr, prior, post, st))
    ctx.check_all_eq('posterior', p.posterior.natural_parameters(), want)
    ctx.check_all_eq('prior untouched', p.prior.natural_parameters(), nest(K, prior))
    ctx.check_all_eq('statistics kept', p.stats, nest(K, st))
    ctx.check_all_eq('other posterior untouched', bystander.posterior.natural_parameters(), nest(K, bpost))
    ctx.check_all_eq('other prior untouched', bystander.prior.natural_parameters(), nest(K, bprior))
    ctx.check('observers called once each, in order', [c[0] for c in calls] == ['before', 'after'])
    ctx.check('all observers called once each', sorted(calls2[:2]) == [('before', 0), ('before', 1)] and
              sorted(calls2[2:]) == [('after', 0), ('after', 1)])
    for w, v in calls:
        ctx.check_all_eq('value seen ' + w, v, nest(K, post) if w == 'before' else want)
    p.zero_stats()
    ctx.check_all_eq('reset', p.stats, nest(K, [[0] * len(x) for x in prior]))
    p.natural_grad_update(lr)
    ctx.check_all_eq('posterior after a reset', p.posterior.natural_parameters(),
                     nest(K, step(lr, prior, step(lr, prior, post, st), [[0] * len(x) for x in prior])))


def history(ctx, fams, groups, n):
    """an optimiser over several parameters: any sequence of store, reset and step"""
    from beer.inference import VBConjugateOptimizer, VBOptimizer
    ps, prior, post, st = [], [], [], []
    for i, (fam, dim, K) in enumerate(fams):
        a, b, c = param(ctx, fam, dim, K, 'm%d' % i)
        ps.append(a), prior.append(b), post.append(c)
        st.append([[0] * len(x) for x in b])
    lr = ctx.real('lrate')
    co = VBConjugateOptimizer([(ps[i] for i in g) for g in groups], lr)
    opt = VBOptimizer(co)
    count = 0
    for t in range(n):
        op = ctx.choice('op%d' % t, 4)
        if op == 0:
            i = t % len(fams)
            fam, dim, K = fams[i]
            st[i] = stats(ctx, fam, dim, K, 't%d' % t, len(prior[i][0]))
            ps[i].store_stats(ctx.make(nest(K, st[i])))
        elif op == 1:
            opt.init_step()
            st = [[[0] * len(x) for x in b] for b in prior]
        elif op == 2:
            state = opt.state_dict()        # interrupted and resumed with a new optimiser
            co = VBConjugateOptimizer([(ps[i] for i in g) for g in groups], 17.)
            opt = VBOptimizer(co)
            opt.load_state_dict(state)
        else:
            opt.step()
            for i in groups[count % len(groups)]:
                post[i] = step(lr, prior[i], post[i], st[i])
            count += 1
    for i, (fam, dim, K) in enumerate(fams):
        ctx.check_all_eq('posterior %d' % i, ps[i].posterior.natural_parameters(), nest(K, post[i]))
        ctx.check_all_eq('prior %d' % i, ps[i].prior.natural_parameters(), nest(K, prior[i]))
        ctx.check_all_eq('statistics %d' % i, ps[i].stats, nest(K, st[i]))


class Recorder:
    """stands for a torch optimiser"""

    def __init__(self, log, name):
        self.log, self.name = log, name

    def zero_grad(self):
        self.log.append(self.name + ' zero')

    def step(self):
        self.log.append(self.name + ' step')

    def state_dict(self):
        return {'name': self.name, 'log': list(self.log)}

    def load_state_dict(self, state):
        self.name, self.log[:] = state['name'], state['log']


def both(ctx, n):
    """networks and conjugate parameters trained together: each optimiser gets each reset, step and stored state"""
    from beer.inference import VBConjugateOptimizer, VBOptimizer
    have = ctx.choice('optimisers', 3)        # both, conjugate only, networks only
    p, prior, post = param(ctx, 'gamma', 1, 0, 'm')
    st = [[0] * len(prior[0])]
    lr = ctx.real('lrate')
    log, want = [], []
    make = lambda name, l: VBOptimizer(VBConjugateOptimizer([[p]], l) if have != 2 else None, Recorder(log, name) if have != 1 else None)
    opt = make('a', lr)
    for t in range(n):
        op = ctx.choice('op%d' % t, 4)
        if op == 0:
            st = stats(ctx, 'gamma', 1, 0, 't%d' % t, len(prior[0]))
            p.store_stats(ctx.make(st[0]))
        elif op == 1:
            opt.init_step()
            if have != 2:
                st = [[0] * len(prior[0])]
            want += ['a zero'] if have != 1 else []
        elif op == 2:
            state = opt.state_dict()
            opt = make('b', 3.)
            opt.load_state_dict(state)
        else:
            opt.step()
            if have != 2:
                post = step(lr, prior, post, st)
            want += ['a step'] if have != 1 else []
    ctx.check_all_eq('posterior', p.posterior.natural_parameters(), post[0])
    ctx.check_all_eq('statistics', p.stats, st[0])
    ctx.check('calls of the other optimiser', log == want)


def element(ctx, fam, dim, K):
    """an element of a set of distributions stands on its own, parameters are told apart"""
    p, prior, post = param(ctx, fam, dim, K, '')
    st = stats(ctx, fam, dim, K, '', len(prior[0]))
    p.store_stats(ctx.make(st))
    k = ctx.choice('element', K)
    e = p[k]
    ctx.check_all_eq('prior', e.prior.natural_parameters(), prior[k])
    ctx.check_all_eq('posterior', e.posterior.natural_parameters(), post[k])
    ctx.check_all_eq('statistics', e.stats, st[k])
    ctx.check('size', len(p) == K and e.likelihood_fn is p.likelihood_fn)
    e.zero_stats()
    ctx.check_all_eq('statistics of the set', p.stats, st)
    ctx.check_all_eq('statistics of the element', e.stats, [0] * len(st[k]))
    other, _, _ = param(ctx, fam, dim, K, '')        # same values, another parameter
    same = type(p)(p.prior, p.posterior, likelihood_fn=p.likelihood_fn)
    table = {p: 1, other: 2, same: 3, e: 4}
    ctx.check('parameters are told apart', len(table) == 4 and [table[q] for q in (p, other, same, e)] == [1, 2, 3, 4] and p == p and not p == other and not p == same)
    p.natural_grad_update(1)
    ctx.check('the same parameter after an update', table[p] == 1)


ALL = F.ALL
HARNESSES = [
    Harness('update', update, about='natural gradient step, observers and reset',
            quick=[dict(fam=f, dim=d + (f == 'dirichlet'), K=K, exact=e) for f in ALL for d, K, e in
                   ((1, 0, False), (2, 0, False), (2, 0, True), (1, 2, False)) if f not in ('normalwishart', 'normalfull') or d * max(K, 1) < 3],
            thorough=[dict(fam=f, dim=2, K=2) for f in ALL]),
    Harness('element', element, about='elements of a set, identity', quick=[dict(fam=f, dim=2, K=2) for f in ('gamma', 'dirichlet', 'normalgamma', 'normaldiag')], thorough=[dict(fam=f, dim=2, K=3) for f in ALL if f != 'normalwishart']),
    Harness('both', both, about='conjugate and other optimisers together', quick=[dict(n=3)], thorough=[dict(n=5)]),
    Harness('history', history, about='optimiser histories',
            quick=[dict(fams=[('gamma', 1, 0), ('dirichlet', 2, 0), ('isonormalgamma', 1, 0)], groups=[[0, 2], [1]], n=4),
                   dict(fams=[('normalgamma', 1, 2), ('dirichlet', 2, 2)], groups=[[1], [0]], n=3),
                   dict(fams=[('normaldiag', 1, 0)], groups=[[0]], n=4),
                   dict(fams=[('gamma', 1, 0), ('dirichlet', 2, 0), ('gamma', 1, 0)], groups=[[0], [1], [2]], n=4)],
            thorough=[dict(fams=[('gamma', 1, 0), ('dirichlet', 2, 0), ('isonormalgamma', 2, 0)], groups=[[0], [1], [2]], n=6)]),
]
