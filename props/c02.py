import itertools

from .common import *
from .c01 import topology
from .scripts import Scratch

BOUNDS = ('Bounds: 1-3 units in every assignment to 2 groups, unit sequences of up to 3 units; unit HMMs of 1-2 emitting states with arbitrary weights and every choice '
          'of the optional arcs; transcriptions of 1-3 units in every combination.')
ASSUMPTIONS = ['unit HMMs have one entry and one exit state (the commands refuse others)', 'the start/end group has at least one unit']
DIR = 'beer/cli/subcommands/hmm/'
TIMIT = 'recipes/timit_v2/utils/'
# names contained in one another: nothing may depend on parts of a name
NAMES = ['u1', 'u', 'u1u', 'U1', '1u', 'u11', 'uu', '1']
GROUPS = ['bab', 'b']


def arcs_of(g):
    out = {}
    for a in g.arcs():
        out[a.start, a.end] = out.get((a.start, a.end), 0) + a.weight
    return out


def routes(w, stop, a):
    """{state of stop: summed weight of the routes from a passing through no other state of stop}"""
    out = {}

    def walk(s, x, seen):
        for (i, j), y in w.items():
            if i == s:
                if j in stop:
                    out[j] = out.get(j, 0) + x * y
                elif j not in seen:
                    walk(j, x * y, seen | {j})
    walk(a, 1, {a})
    return out


def loop(ctx, n, group):
    """phone-loop graph of n units"""
    which = [ctx.choice('group%d' % i, 2) if group else 0 for i in range(n)]
    ends = [i for i in range(n) if which[i] == 1] if group else list(range(n))
    if not ends:
        return ctx.assume(ctx.or_(False, False))
    with Scratch(ctx) as s:
        s.text('units', ['%s %s' % (NAMES[i], GROUPS[g]) for i, g in enumerate(which)])
        s.command(DIR + 'mkphoneloopgraph.py', (['-s', 'b'] if group else []) + ['@units', '@out'])
        g = s.unpickle('out')
    return which, ends, g


def unit_states(ctx, g, n):
    st = {}
    for k, v in g.symbols.items():
        if v in NAMES[:n]:
            ctx.check('one state per unit', v not in st)
            st[v] = k
    ctx.check('every unit has a state', len(st) == n)
    return [st[NAMES[i]] for i in range(n)]


def phone_loop(ctx, n, group, length=3):
    which, ends, g = loop(ctx, n, group)
    st = unit_states(ctx, g, n)
    w = arcs_of(g)
    ctx.check('no emitting state', all(g.state_from_id(i).pdf_id is None for i in g.states()))
    for a in {i for i, _ in w}:
        ctx.check_eq('outgoing weights sum to one', ctx.sum([v for (i, _), v in w.items() if i == a]), 1)
    stop = set(st) | {g.end_state}
    nxt = {a: routes(w, stop, a) for a in st + [g.start_state]}
    seen = {}
    for k in range(1, length + 1):
        for seq in itertools.product(range(n), repeat=k):
            x, prev = 1, g.start_state
            for u in seq:
                x, prev = x * nxt[prev].get(st[u], 0), st[u]
            x = x * nxt[prev].get(g.end_state, 0)
            ok = seq[0] in ends and seq[-1] in ends
            ctx.check('exactly the sequences that start and end in the group are accepted', ctx.lt(0, x) if ok else ctx.equal(x, 0))
            if ok:
                pattern = tuple(u in ends for u in seq)
                seen.setdefault(pattern, []).append(x)
    for v in seen.values():
        for x in v[1:]:
            ctx.check_eq('units have the same weight', x, v[0])


def hmm(ctx, tag, E, optional, pdf, turned=False):
    """HMM of a unit, with its normalised weights; turned: the chain goes through the emitting states backwards"""
    from beer.graph import Graph
    g = Graph()
    for k in range(E + 2):
        g.add_state(pdf_id=pdf + k - 1 if 0 < k <= E else None)
    g.start_state, g.end_state = 0, E + 1
    w = topology(ctx, tag, E, [(a, b) for a, b in optional if a <= E and b <= E + 1])
    if turned:
        at = lambda k: E + 1 - k if 0 < k <= E else k
        w = {(at(a), at(b)): v for (a, b), v in w.items()}
    for (a, b), v in w.items():
        g.add_arc(a, b, v)
    tot = {a: ctx.sum([v for (i, _), v in w.items() if i == a]) for a, _ in w}
    return g, {(a, b): v / tot[a] for (a, b), v in w.items()}


def decode_graph(ctx, sizes, group=False, optional=(), reverse=False, turned=False):
    n = len(sizes)
    which, ends, pl = loop(ctx, n, group)
    pst = unit_states(ctx, pl, n)
    pw = arcs_of(pl)
    stop = set(pst) | {pl.end_state}
    nxt = {a: routes(pw, stop, a) for a in pst + [pl.start_state]}
    units, ws, first = {}, {}, {}
    pdf = 0
    order = list(range(n))[::-1] if reverse else list(range(n))
    for i in order:
        units[NAMES[i]], ws[i] = hmm(ctx, 'u%d' % i, sizes[i], optional, pdf, turned)
        first[i] = pdf
        pdf += sizes[i]
    saved = {u: (arcs_of(g), list(g.states())) for u, g in units.items()}
    with Scratch(ctx) as s:
        s.pickle('loop', pl)
        s.pickle('hmms', (units, None))
        s.command(DIR + 'mkdecodegraph.py', ['@loop', '@hmms', '@out'])
        g, start, end = s.unpickle('out')
    names = NAMES[:n]
    low, high = {NAMES[i]: first[i] for i in range(n)}, {NAMES[i]: first[i] + sizes[i] - 1 for i in range(n)}
    ctx.check('entry and exit densities', (start, end) == ((high, low) if turned else (low, high)))
    ctx.check('units in the order of their densities', list(start) == [NAMES[i] for i in order])
    em = [k for k in g.states() if g.state_from_id(k).pdf_id is not None]
    pdfs = [g.state_from_id(k).pdf_id for k in em]
    ctx.check('one state per density, in order', pdfs == list(range(pdf)))
    if pdfs != list(range(pdf)):
        return
    w = arcs_of(g)
    stop = set(em) | {g.end_state}
    owner = [(i, k) for i in order for k in range(1, sizes[i] + 1)]
    enter = lambda i, k: ws[i].get((0, k), 0)
    leave = lambda i, k: ws[i].get((k, sizes[i] + 1), 0)
    r = routes(w, stop, g.start_state)
    for b, (j, l) in enumerate(owner):
        ctx.check_eq('weight of starting in a state', r.get(em[b], 0), nxt[pl.start_state].get(pst[j], 0) * enter(j, l))
    for a, (i, k) in enumerate(owner):
        r = routes(w, stop, em[a])
        for b, (j, l) in enumerate(owner):
            want = leave(i, k) * nxt[pst[i]].get(pst[j], 0) * enter(j, l) + (ws[i].get((k, l), 0) if i == j else 0)
            ctx.check_eq('weight from a state to the next', r.get(em[b], 0), want)
        ctx.check_eq('weight of ending after a state', r.get(g.end_state, 0), leave(i, k) * nxt[pst[i]].get(pl.end_state, 0))


def align(ctx, sizes, lengths, optional=(), missing=False, recipe=False, period=None):
    n = len(sizes)
    units, ws, first = {}, {}, {}
    pdf = 0
    for i in range(n):
        units[NAMES[i]], ws[i] = hmm(ctx, 'u%d' % i, sizes[i], optional, pdf)
        first[i] = pdf
        pdf += sizes[i]
    seqs = [[ctx.choice('s%d_%d' % (a, b), n) for b in range(min(l, period or l))] for a, l in enumerate(lengths)]
    seqs = [[q[b % len(q)] for b in range(l)] for q, l in zip(seqs, lengths)]
    # utterances may be called as a unit
    utts = NAMES[:len(seqs)]
    lines = ['%s %s' % (u, ' '.join(NAMES[i] for i in q)) for u, q in zip(utts, seqs)]
    with Scratch(ctx) as s:
        s.pickle('hmms', units if recipe else (units, None))
        if missing:
            lines.insert(1, 'uttx')
        if recipe:
            s.script(TIMIT + 'prepare-alignments.py', ['@hmms', s.dir], stdin=[l.split() for l in lines])
        else:
            s.command(DIR + 'mkaligraph.py', ['@hmms', s.dir], stdin=lines)
        graphs = [s.loaded('%s.npy' % u)[0] for u in utts]
    for q, c in zip(seqs, graphs):
        owner = [(p, i, k) for p, i in enumerate(q) for k in range(1, sizes[i] + 1)]
        ctx.check('densities of the transcribed units in order', list(c.pdf_id_mapping) == [first[i] + k - 1 for _, i, k in owner])
        if len(c.pdf_id_mapping) != len(owner):
            continue
        enter = lambda i, k: ws[i].get((0, k), 0)
        leave = lambda i, k: ws[i].get((k, sizes[i] + 1), 0)
        init = [enter(i, k) if p == 0 else 0 for p, i, k in owner]
        final = [leave(i, k) if p == len(q) - 1 else 0 for p, i, k in owner]
        rows = [[ws[i].get((k, l), 0) if r == p else leave(i, k) * enter(j, l) if r == p + 1 else 0 for r, j, l in owner] for p, i, k in owner]
        compiled(ctx, c, init, final, rows)


def fixed(v):
    """text of a printed constant"""
    return str(float(v.args if hasattr(v, 'args') else v))


def compiled(ctx, c, init, final, rows):
    """the compiled graph has these weights, normalised"""
    ctx.check_all_eq('initial', c.init_log_probs.exp(), [v / ctx.sum(init) for v in init])
    ctx.check_all_eq('final', c.final_log_probs.exp(), [v / ctx.sum(final) for v in final])
    want = []
    for a, row in enumerate(rows):
        d, rest = row[a], [v for b, v in enumerate(row) if b != a and nonzero(v)]
        if rest:
            z = ctx.sum(rest)
            row = [d if b == a else v * (1 - d) / z for b, v in enumerate(row)]
        want.append(row)
    ctx.check_all_eq('transitions', c.trans_log_probs.exp(), want)


def recipe(ctx, sizes, silence, length=3):
    """phone loop as text, its graph and the model made of it"""
    import beer
    n = len(sizes)
    # the order of the unit list is arbitrary; its first unit is the silence
    order = [list(p) for p in itertools.permutations(range(n))]
    order = order[ctx.choice('order', len(order))]
    names = ['zu', 'u', 'mau', 'ma', 'Zu', 'z'][:n]
    units, ws, first = {}, {}, {}
    pdf = 0
    for i in range(n):
        units[names[i]], ws[i] = hmm(ctx, 'u%d' % i, sizes[i], (), pdf)
        units[names[i]].normalize()     # as the tool that creates them leaves them
        first[i] = pdf
        pdf += sizes[i]
    sil = order[0] if silence else None
    with Scratch(ctx) as s:
        got = s.script(TIMIT + 'create-decode-graph.py', (['--use-silence'] if silence else []) + ['@phones'], dict(phones=[[names[i]] for i in order]))
        txt = [l[:2] + [fixed(got.number(w)) for w in l[2:]] for l in got.out]
        s.script(TIMIT + 'prepare-decode-graph.py', ['@txt', '@graph'], dict(txt=txt))
        g = s.unpickle('graph')
        ids = {v: k for k, v in g.symbols.items()}
        ctx.check('every unit has one state', len(g.symbols) == len(ids) and all(x in ids for x in names))
        st, w = [ids[x] for x in names], arcs_of(g)
        for a in {i for i, _ in w}:
            ctx.check_eq('outgoing weights sum to one', ctx.sum([v for (i, _), v in w.items() if i == a]), 1)
        stop = set(st) | {g.end_state}
        nxt = {a: routes(w, stop, a) for a in st + [g.start_state]}
        seen = {}
        for k in range(1, length + 1):
            for seq in itertools.product(range(n), repeat=k):
                x, prev = 1, g.start_state
                for u in seq:
                    x, prev = x * nxt[prev].get(st[u], 0), st[u]
                x = x * nxt[prev].get(g.end_state, 0)
                ok = not silence or seq[0] == seq[-1] == sil
                ctx.check('exactly the sequences starting and ending in silence are accepted' if silence else 'every sequence is accepted', (x > 0) == ok)
                if ok:
                    seen.setdefault(tuple(u == sil for u in seq), []).append(x)
        ctx.check('units have the same weight', all(abs(x - v[0]) < 1e-12 for v in seen.values() for x in v))
        mean, var = ctx.tensor('mean', (1,)), ctx.tensor('var', (1,), pos=True)
        em = beer.MixtureSet.create(pdf, beer.NormalSet.create(mean, var, size=pdf, prior_strength=1., noise_std=0., cov_type='diagonal'))
        s.pickle('hmms', units)
        s.pickle('emissions', em)
        s.script(TIMIT + 'hmm-create.py', ['@graph', '@hmms', '@emissions', '@hmm'])
        m = s.unpickle('hmm')
        got = s.script(TIMIT + 'hmm-pdf-id-mapping.py', ['@hmms'])
    ctx.check('printed densities', [l for l in got.out] == [[str(first[i] + k), names[i]] for i in range(n) for k in range(sizes[i])])
    c = m.graph
    owner = [(i, k) for i in range(n) for k in range(1, sizes[i] + 1)]
    order = {first[i] + k - 1: (i, k) for i, k in owner}
    ctx.check('every density has one state', sorted(c.pdf_id_mapping) == list(range(pdf)))
    if sorted(c.pdf_id_mapping) != list(range(pdf)):
        return
    owner = [order[x] for x in c.pdf_id_mapping]
    enter = lambda i, k: ws[i].get((0, k), 0)
    leave = lambda i, k: ws[i].get((k, sizes[i] + 1), 0)
    init = [nxt[g.start_state].get(st[i], 0) * enter(i, k) for i, k in owner]
    final = [leave(i, k) * nxt[st[i]].get(g.end_state, 0) for i, k in owner]
    rows = [[leave(i, k) * nxt[st[i]].get(st[j], 0) * enter(j, l) + (ws[i].get((k, l), 0) if i == j else 0) for j, l in owner] for i, k in owner]
    compiled(ctx, c, init, final, rows)


SKIP = ((1, 3),)
BACK = ((2, 1),)
HARNESSES = [
    Harness('loop', phone_loop, quick=[dict(n=n, group=g) for n in (1, 2, 3) for g in (False, True)], thorough=[dict(n=4, group=True), dict(n=4, group=False)], about='phone-loop graph'),
    Harness('decode', decode_graph, quick=[dict(sizes=(2, 1)), dict(sizes=(2, 2), group=True), dict(sizes=(2, 2), optional=BACK, reverse=True), dict(sizes=(1, 1, 1), group=True), dict(sizes=(2,)), dict(sizes=(2, 3), turned=True), dict(sizes=(1,) * 7)],
            thorough=[dict(sizes=(3, 2), optional=BACK), dict(sizes=(2, 1, 2), group=True)], about='decoding graph'),
    Harness('align', align, quick=[dict(sizes=(2, 1), lengths=(2, 1)), dict(sizes=(2, 2), lengths=(3,)), dict(sizes=(2, 1), lengths=(1, 2), optional=BACK, missing=True),
                                     dict(sizes=(1, 2), lengths=(7,), period=3)],
            thorough=[dict(sizes=(2, 1, 2), lengths=(3,)), dict(sizes=(3, 2), lengths=(2,), optional=((1, 3), (2, 1)))], about='alignment graph'),
    Harness('recipe-align', align, quick=[dict(sizes=(2, 1), lengths=(2, 1), recipe=True), dict(sizes=(2, 2), lengths=(3,), recipe=True), dict(sizes=(1, 2), lengths=(7,), recipe=True, period=3)], about='alignment graph of the TIMIT recipe'),
    Harness('recipe', recipe, quick=[dict(sizes=(2,), silence=False), dict(sizes=(2, 1), silence=False), dict(sizes=(2, 1), silence=True), dict(sizes=(1, 2, 1), silence=True), dict(sizes=(1, 1, 1, 1, 1), silence=True)],
            thorough=[dict(sizes=(2, 2, 2, 1), silence=True), dict(sizes=(2, 2, 2), silence=False)], about='decoding graph and model of the TIMIT recipe'),
]
