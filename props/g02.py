from .common import *

BOUNDS = 'Bounds: 1-3 states with arbitrary positive weights and the listed zero patterns (left-to-right up to 5 states, cyclic up to 4), 1-4 frames (5 thorough; 9 and 13 for a left-to-right pair of states) of arbitrary scores; every path enumerated.'


def viterbi(ctx, S, N, init=None, final=None, trans=None):
    """the returned path is admissible and no path has a larger weight"""
    g, wi, wf, wt = compiled_graph(ctx, S, init, final, trans)
    llhs = ctx.tensor('llh', (N, S))
    L = ctx.scalars(llhs)
    best = ctx.scalars(g.best_path(llhs))
    if len(best) != N:
        return ctx.fail('length', 'path of %d states for %d frames' % (len(best), N))
    lw = {}
    for p in paths(S, N):
        if valid(p, wi, wf, wt):
            s = ctx.log(wi[p[0]]) + ctx.log(wf[p[-1]])
            for n, q in enumerate(p):
                s = s + L[n][q]
                if n:
                    s = s + ctx.log(wt[p[n - 1]][q])
            lw[p] = s
    if not lw:
        return
    # score of the returned path, by cases over its (symbolic) states
    for n in range(N):
        ctx.check('state index in range %d' % n, ctx.and_(ctx.le(0, best[n]), ctx.lt(best[n], S)))
    is_p = {p: ctx.and_(*[ctx.equal(best[n], p[n]) for n in range(N)]) for p in lw}
    ctx.check('path has non-zero weight', ctx.or_(*is_p.values()))
    for p, c in is_p.items():
        for q, s in lw.items():
            if p != q:
                ctx.check('optimal: %s vs %s' % (p, q), ctx.or_(ctx.not_(c), ctx.le(s, lw[p] + slack(ctx))))


def slack(ctx):
    return 0 if ctx.symbolic else 1e-9


LR = dict(S=3, init=[1, 0, 0], final=[0, 0, 1], trans=[[1, 1, 0], [0, 1, 1], [0, 0, 1]])
LR2 = dict(S=2, init=[1, 0], final=[0, 1], trans=[[1, 1], [0, 1]])
CYC = dict(S=3, init=[1, 1, 0], final=[0, 1, 1], trans=[[0, 1, 1], [1, 1, 0], [0, 1, 0]])
LR5 = dict(S=5, init=[1, 0, 0, 0, 0], final=[0, 0, 0, 0, 1], trans=[[1 if t in (s, s + 1) else 0 for t in range(5)] for s in range(5)])
RING4 = dict(S=4, init=[1, 1, 0, 0], final=[0, 1, 0, 1], trans=[[1 if t in ((s + 1) % 4, (s + 2) % 4 if s == 3 else s) else 0 for t in range(4)] for s in range(4)])
HARNESSES = [
    Harness('viterbi', viterbi, about='CompiledGraph.best_path vs every path',
            quick=[dict(S=1, N=2), dict(S=2, N=1), dict(S=2, N=3), dict(S=3, N=2), dict(N=4, **LR), dict(N=3, **CYC), dict(N=9, **LR2), dict(N=6, **LR5), dict(N=3, **RING4)],
            thorough=[dict(S=2, N=4), dict(S=3, N=3), dict(N=5, **LR), dict(N=4, **CYC), dict(N=13, **LR2)]),
]
