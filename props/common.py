"""helpers shared by the harnesses"""
import itertools

import torch

from symx.runner import Harness


def compiled_graph(ctx, S, init=None, final=None, trans=None, tag=''):
    """CompiledGraph with arbitrary strictly positive weights where the given
    0/1 pattern is 1 and weight zero elsewhere"""
    from beer.graph import CompiledGraph
    init = init or [1] * S
    final = final or [1] * S
    trans = trans or [[1] * S for _ in range(S)]
    w_i = [ctx.pos('%sinit_%d' % (tag, i)) if init[i] else 0 for i in range(S)]
    w_f = [ctx.pos('%sfinal_%d' % (tag, i)) if final[i] else 0 for i in range(S)]
    w_t = [[ctx.pos('%strans_%d_%d' % (tag, i, j)) if trans[i][j] else 0 for j in range(S)] for i in range(S)]
    g = CompiledGraph(ctx.make(w_i).log(), ctx.make(w_f).log(), ctx.make(w_t).log())
    return g, w_i, w_f, w_t


def paths(S, N):
    return itertools.product(range(S), repeat=N)


def path_weight(p, wi, wf, wt, obs):
    """weight of a complete path; obs[n][s] = exp of the log-likelihood"""
    r = wi[p[0]] * wf[p[-1]]
    for n, s in enumerate(p):
        r = r * obs[n][s]
        if n:
            r = r * wt[p[n - 1]][s]
    return r


def nonzero(x):
    return not (isinstance(x, (int, float)) and x == 0)


def valid(p, wi, wf, wt):
    return (nonzero(wi[p[0]]) and nonzero(wf[p[-1]]) and
            all(nonzero(wt[a][b]) for a, b in zip(p, p[1:])))
