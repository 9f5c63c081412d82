from .common import *

BOUNDS = ('Bounds: up to 4 emitting and 21 non-emitting states (at most 7 in a row); arc weights are arbitrary positive reals (self-loops below one), '
          'presence of the optional arcs is symbolic; shapes as listed in the configurations.')


def build(ctx, pdfs, arcs, optional, start, end):
    """-> graph, {(start, end): weight}"""
    from beer.graph import Graph
    g = Graph()
    for p in pdfs:
        g.add_state(pdf_id=p)
    g.start_state, g.end_state = start, end
    w = {}
    for a, b in arcs:
        w[a, b] = ctx.prob('w_%d_%d' % (a, b)) if a == b else ctx.pos('w_%d_%d' % (a, b))
    for a, b in optional:
        if ctx.flag('has_%d_%d' % (a, b)):
            w[a, b] = ctx.prob('w_%d_%d' % (a, b)) if a == b else ctx.pos('w_%d_%d' % (a, b))
    for (a, b), x in w.items():
        g.add_arc(a, b, x)
    return g, w


def routes(w, pdfs, a, forward=True):
    """{emitting state: summed weight of the routes from a through non-emitting states}"""
    out = {}

    def walk(s, x):
        for (i, j), y in w.items():
            f, t = (i, j) if forward else (j, i)
            if f == s:
                z = x * y
                if pdfs[t] is None:
                    walk(t, z)
                else:
                    out[t] = out.get(t, 0) + z
    walk(a, 1)
    return out


def compile_graph(ctx, pdfs, arcs, optional=(), start=0, end=None):
    end = len(pdfs) - 1 if end is None else end
    g, w = build(ctx, pdfs, arcs, optional, start, end)
    before = [(a.start, a.end, a.weight) for a in sorted(g.arcs(), key=lambda a: (a.start, a.end))]
    em = [s for s, p in enumerate(pdfs) if p is not None]
    init, final = routes(w, pdfs, start), routes(w, pdfs, end, forward=False)
    if not init or not final:
        return ctx.check('nothing to compile', True)
    for s in em:
        r = routes(w, pdfs, s)
        if s in r and len(r) > 1:
            ctx.assume(ctx.lt(r[s], 1))
    c = g.compile()
    after = [(a.start, a.end, a.weight) for a in sorted(g.arcs(), key=lambda a: (a.start, a.end))]
    ctx.check_all_eq('the graph itself is unchanged', [list(x) for x in after], [list(x) for x in before])
    ctx.check('densities', list(c.pdf_id_mapping) == [pdfs[s] for s in em])
    ctx.check('number of states', c.n_states == len(em))
    zi, zf = ctx.sum(init.values()), ctx.sum(final.values())
    ctx.check_all_eq('initial', c.init_log_probs.exp(), [init.get(s, 0) / zi for s in em])
    ctx.check_all_eq('final', c.final_log_probs.exp(), [final.get(s, 0) / zf for s in em])
    want = []
    for s in em:
        r = routes(w, pdfs, s)
        row = [r.get(t, 0) for t in em]
        rest = [t for t in em if t != s and t in r]
        if s in r and rest:
            d = r[s]
            z = ctx.sum([r[t] for t in rest])
            row = [d if t == s else r.get(t, 0) * (1 - d) / z for t in em]
        want.append(row)
    ctx.check_all_eq('transitions', c.trans_log_probs.exp(), want)


N = None
HARNESSES = [
    Harness('compile', compile_graph, about='Graph.compile vs sums over routes', quick=[
        # plain left-to-right unit
        dict(pdfs=[N, 0, 1, 2, N], arcs=[(0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 4)], optional=[(1, 3), (0, 2), (2, 4)]),
        # shared densities, creation order different from the arc order
        dict(pdfs=[5, N, 5, 2, N], arcs=[(1, 3), (3, 0), (0, 2), (2, 4)], optional=[(0, 0), (2, 2), (3, 2), (2, 3)], start=1),
        # non-emitting diamond between emitting states
        dict(pdfs=[N, 0, N, N, N, 1, N], arcs=[(0, 1), (1, 2), (2, 4), (4, 5), (5, 6)], optional=[(1, 3), (3, 4), (1, 1), (1, 5), (3, 5)]),
        # diamonds at both ends
        dict(pdfs=[N, N, N, N, 0, 1, N, N, N, N], arcs=[(0, 1), (1, 3), (3, 4), (4, 5), (5, 6), (6, 8), (8, 9)],
             optional=[(0, 2), (2, 3), (5, 7), (7, 8)]),
        # several routes to one of two states at both ends
        dict(pdfs=[N, N, N, 0, 1, N, N, N], arcs=[(0, 1), (0, 2), (1, 3), (2, 3), (2, 4), (3, 4), (3, 5), (4, 5), (4, 6), (5, 7), (6, 7)],
             optional=[(0, 4), (0, 3), (3, 6), (4, 4), (4, 3)]),
        # loop through a non-emitting hub back to the state itself
        dict(pdfs=[N, N, 0, 1, N, N], arcs=[(0, 1), (1, 2), (2, 4), (4, 1), (4, 5), (1, 3), (3, 4)], optional=[(2, 2), (3, 3), (2, 3)]),
        # emitting start and end neighbours without self-loops; single state
        # seven non-emitting states in a row
        dict(pdfs=[N] * 7 + [0] + [N] * 7 + [1] + [N] * 7, arcs=[(i, i + 1) for i in range(22)], optional=[(8, 14), (0, 6), (15, 22)]),
        dict(pdfs=[N, 7, N], arcs=[(0, 1), (1, 2)], optional=[(1, 1)]),
    ], thorough=[
        dict(pdfs=[N, 0, N, N, 1, N, 2, 3, N], arcs=[(0, 1), (1, 2), (2, 4), (4, 5), (5, 6), (6, 8), (5, 7), (7, 8)],
             optional=[(1, 3), (3, 4), (3, 5), (2, 5), (4, 4), (6, 6), (7, 1), (1, 1)]),
        dict(pdfs=[N, N, N, N, 0, N], arcs=[(0, 1), (3, 4), (4, 5)], optional=[(0, 2), (1, 2), (1, 3), (2, 3), (0, 3), (2, 4), (1, 4), (4, 4), (4, 1)]),
    ]),
]
