from .common import *

BOUNDS = ('Bounds: up to 4 states and 5 frames (8 and 11 frames for a left-to-right pair of states, 6 for a left-to-right chain of 5), every combination of positive weights and real '
          'log-likelihoods; structural zeros as listed in the configurations.')


def fb(ctx, S, N, init=None, final=None, trans=None):
    """state and transition posteriors against the sum over all paths"""
    g, wi, wf, wt = compiled_graph(ctx, S, init, final, trans)
    llhs = ctx.tensor('llh', (N, S))
    L = ctx.scalars(llhs)
    (post, xi), logz = g.posteriors(llhs, trans_posteriors=True)
    post_only, logz2 = g.posteriors(llhs)
    E = [[ctx.exp(L[n][s]) for s in range(S)] for n in range(N)]
    Z = 0
    gam = [[0] * S for _ in range(N)]
    tr = [[[0] * S for _ in range(S)] for _ in range(N - 1)]
    for p in paths(S, N):
        if not valid(p, wi, wf, wt):
            continue
        w = path_weight(p, wi, wf, wt, E)
        Z = Z + w
        for n, s in enumerate(p):
            gam[n][s] = gam[n][s] + w
            if n:
                tr[n - 1][p[n - 1]][s] = tr[n - 1][p[n - 1]][s] + w
    ctx.check_all_eq('state posterior', post, [[x / Z for x in row] for row in gam])
    ctx.check_all_eq('state posterior (alone)', post_only, [[x / Z for x in row] for row in gam])
    ctx.check_all_eq('transition posterior', xi, [[[x / Z for x in r] for r in m] for m in tr])
    ctx.check_eq('log evidence', ctx.scalar(logz), ctx.log(Z))
    ctx.check_eq('log evidence (alone)', ctx.scalar(logz2), ctx.log(Z))
    P = ctx.scalars(post)
    for n in range(N):
        ctx.check_eq('posterior sums to one %d' % n, ctx.sum(P[n]), 1)
    X = ctx.scalars(xi)
    for n in range(N - 1):
        for s in range(S):
            ctx.check_eq('outgoing marginal %d %d' % (n, s), ctx.sum(X[n][s]), P[n][s])
            ctx.check_eq('incoming marginal %d %d' % (n, s), ctx.sum([X[n][k][s] for k in range(S)]), P[n + 1][s])


LR = dict(S=3, init=[1, 0, 0], final=[0, 0, 1], trans=[[1, 1, 0], [0, 1, 1], [0, 0, 1]])
LR2 = dict(S=2, init=[1, 0], final=[0, 1], trans=[[1, 1], [0, 1]])
SKIP = dict(S=3, init=[1, 1, 0], final=[0, 1, 1], trans=[[0, 1, 1], [1, 1, 0], [0, 1, 0]])
LR5 = dict(S=5, init=[1, 0, 0, 0, 0], final=[0, 0, 0, 0, 1], trans=[[1 if t in (s, s + 1) else 0 for t in range(5)] for s in range(5)])
RING4 = dict(S=4, init=[1, 1, 0, 0], final=[0, 1, 0, 1], trans=[[1 if t in ((s + 1) % 4, (s + 2) % 4 if s == 3 else s) else 0 for t in range(4)] for s in range(4)])
HARNESSES = [
    Harness('forward_backward', fb, about='CompiledGraph.posteriors vs brute-force path sums',
            quick=[dict(S=1, N=3), dict(S=2, N=1), dict(S=2, N=3), dict(S=3, N=2), dict(N=3, **LR), dict(N=4, **LR), dict(N=3, **SKIP), dict(N=8, **LR2), dict(N=6, **LR5), dict(N=3, **RING4)],
            thorough=[dict(S=3, N=3), dict(S=2, N=4), dict(S=2, N=5), dict(N=5, **LR), dict(N=4, **SKIP), dict(S=4, N=2), dict(N=11, **LR2)]),
]
