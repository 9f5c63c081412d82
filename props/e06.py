from .common import *
from .scripts import Scratch, Token, tokens

BOUNDS = ('Bounds: 1-2 utterances of 0-4 tokens or frames with every pattern of equal and different names; 2 units of 1-3 states, sequences of up to 3 visits with 1-2 frames per state; '
          'lexicons of 2 words with 0-2 phones; spelled words of up to 3 characters (letters, marks, punctuation, bracketed noises).')
ASSUMPTIONS = ['decoded state sequences follow left-to-right units', 'consecutive visits of the same unit of one state are one visit', 'names do not contain white space']
AUD, TIMIT = 'recipes/aud/utils/', 'recipes/timit_v2/utils/'


def lines(ctx, label, got, want):
    """the same words in the same lines"""
    ctx.check(label + ': number of lines', len(got) == len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check('%s: line %d' % (label, i), len(g) == len(w) and all(a == b for a, b in zip(g, w)))


def merged(ts):
    return [t for i, t in enumerate(ts) if i == 0 or not ts[i - 1] == t]


def collapse(ctx, lens):
    utts = [tokens(ctx, 'u%d_' % i, n, sum(lens)) for i, n in enumerate(lens)]
    with Scratch(ctx) as s:
        got = s.script(AUD + 'ali2trans.py', ['@ali'], dict(ali=[['utt%d' % i] + u for i, u in enumerate(utts)]))
    lines(ctx, 'runs of equal labels become one', got.out, [['utt%d' % i] + merged(u) for i, u in enumerate(utts)])


def frames(ctx, segments):
    """time alignment to one label per frame"""
    t, segs = 0, []
    for i in range(segments):
        a = t + ctx.choice('gap%d' % i, 2)
        b = a + ctx.choice('len%d' % i, 3)
        segs.append((a, b))
        t = b + 1
    with Scratch(ctx) as s:
        got = s.script(AUD + 'convert_align.py', ['@'], {'utt0.algn': [[str(a), str(b), str(i)] for i, (a, b) in enumerate(segs)], 'utt1.algn': [['0', '0', '7']]}, stdin=[['utt1'], ['utt0']])
    lines(ctx, 'every frame carries the unit of its segment', got.out, [['utt1', 'au7'], ['utt0'] + ['au%d' % i for i, (a, b) in enumerate(segs) for _ in range(b - a + 1)]])


def prefix(ctx, lens, exclude):
    n = sum(lens)
    utts = [tokens(ctx, 'u%d_' % i, k, n) for i, k in enumerate(lens)]
    ex = tokens(ctx, 'e', exclude, n)
    with Scratch(ctx) as s:
        got = s.script(AUD + 'add_prefix.py', (['-e', ex] if ex else []) + ['@trans', 'L1_'], dict(trans=[['utt%d' % i] + u for i, u in enumerate(utts)]))
    text = lambda t: str.__str__(t)
    want = [['utt%d' % i] + [text(t) if any(t == x for x in ex) else 'L1_' + text(t) for t in u] for i, u in enumerate(utts)]
    lines(ctx, 'all but the excluded tokens get the prefix', [[text(w) for w in l] for l in got.out], want)


def lexicon(ctx, sizes, lens, sil):
    n = len(sizes) + sum(lens)
    words = tokens(ctx, 'w', len(sizes), n)
    pron = [tokens(ctx, 'p%d_' % i, k, 2) for i, k in enumerate(sizes)]
    utts = [tokens(ctx, 'u%d_' % i, k, n) for i, k in enumerate(lens)]
    with Scratch(ctx) as s:
        got = s.script(AUD + 'prepare_phone_trans.py', (['--add-sil'] if sil else []) + ['@lex', '@text'], dict(lex=[[w] + p for w, p in zip(words, pron)], text=[['utt%d' % i] + u for i, u in enumerate(utts)]))
    want = []
    for i, u in enumerate(utts):
        ps = [[p for w, p in zip(words, pron) if w == t][-1:] for t in u]
        if all(ps):
            seq = [t for p in ps for t in p[0]]
            want.append(['utt%d' % i] + (['sil'] + seq + ['sil'] if sil else seq))
    lines(ctx, 'words are replaced by their phones, utterances with unknown words left out', got.out, want)


def units(ctx, silence):
    n = ctx.choice('n', 4)
    with Scratch(ctx) as s:
        got = s.script(AUD + 'prepare_lang_aud.py', (['--non-speech-unit'] if silence else []) + [str(n)])
    lines(ctx, 'units', got.out, ([['sil', 'non-speech-unit']] if silence else []) + [['au%d' % i, 'speech-unit'] for i in range(1, n + 1)])


def path(ctx, visits, states, per):
    """a state sequence through left-to-right units -> (states, visited units)"""
    seq, vis = [], []
    for v in range(visits):
        u = ctx.choice('v%d' % v, 2)
        last = states if v < visits - 1 else 1 + ctx.choice('end', states)      # the last unit may be cut
        for q in range(last):
            seq += [u * states + q] * (1 + ctx.choice('d%d_%d' % (v, q), per))
        if not (states == 1 and vis and vis[-1] == u):
            vis.append(u)
    return seq, vis


def from_states(ctx, visits, states, per=2):
    """decoded states to units"""
    seq, vis = path(ctx, visits, states, per)
    names = tokens(ctx, 'n', 2, 2)
    order = [1, 0] if ctx.choice('order', 2) else [0, 1]
    with Scratch(ctx) as s:
        s.script(TIMIT + 'convert_states_to_phone.py', ['@hyp', '@out', '@phones', '@conf'], dict(hyp=[['utt'] + [str(x) for x in seq]], phones=[[names[u], str(u)] for u in order]), config=dict(conf=dict(n_state_per_unit=states)))
        got = s.words('out')
    lines(ctx, 'one unit per visit', got, [['utt'] + [names[u] for u in vis]])


def from_densities(ctx, visits, states, per=2, level=True):
    """densities to units by a mapping"""
    seq, vis = path(ctx, visits, states, per)
    names = ['a', 'b']
    with Scratch(ctx) as s:
        got = s.script(TIMIT + 'pdf2unit.py', (['--phone-level'] if level else []) + ['@map'], dict(map=[[str(u * states + q), names[u]] for u in range(2) for q in range(states)]), stdin=[['utt'] + [str(x) for x in seq]])
    lines(ctx, 'one unit per visit' if level else 'one unit per frame', got.out, [['utt'] + ([names[u] for u in vis] if level else [names[x // states] for x in seq])])


def best_path(ctx, lens, states=3):
    """alignment to a sequence of unit numbers"""
    import numpy as np
    names = tokens(ctx, 'n', states, 2)
    ali = {'utt%d' % i: [ctx.choice('a%d_%d' % (i, j), states) for j in range(n)] for i, n in enumerate(lens)}
    distinct = [t for i, t in enumerate(names) if not any(t == x for x in names[:i])]
    number = lambda t: 10 + 3 * [i for i, x in enumerate(distinct) if x == t][0]
    with Scratch(ctx) as s:
        s.archive('ali.npz', ali)
        s.script(TIMIT + 'convert-ali-to-best-path.py', ['@ali.npz', '@map', '@units', '@'], dict(map=[[str(i), t] for i, t in enumerate(names)], units=[[t, str(number(t))] for t in distinct]))
        for u, a in ali.items():
            got = [int(x) for x in s.loaded(u + '.npy')]
            ctx.check('sequence of unit numbers', got == merged([number(names[x]) for x in a]))


def integers(ctx, lens, phones=3):
    """transcriptions to unit numbers, and from those to states"""
    names = tokens(ctx, 'n', phones, phones)
    for i in range(phones):
        for j in range(i):
            ctx.assume(not names[i] == names[j])
    ids = [2, 0, 1]
    utts = [[ctx.choice('u%d_%d' % (i, j), phones) for j in range(n)] for i, n in enumerate(lens)]
    states = 1 + ctx.choice('states', 3)
    with Scratch(ctx) as s:
        files = dict(phones=[[t, str(k)] for t, k in zip(names, ids)])
        s.script(TIMIT + 'prepare_trans.py', ['@phones', '@int.npz'], files, stdin=[['utt%d' % i] + [names[k] for k in u] for i, u in enumerate(utts)])
        got = s.loaded('int.npz')
        for i, u in enumerate(utts):
            ctx.check('unit numbers', [int(x) for x in got['utt%d' % i]] == [ids[k] for k in u])
        ctx.check('utterances', len(got.keys()) == len(utts))
        s.script(TIMIT + 'prepare_state_labels.py', ['@phones', '@int.npz', '@conf', '@'], files, config=dict(conf=dict(n_state_per_unit=states)))
        got = s.loaded('states.int.npz')
        for i, u in enumerate(utts):
            ctx.check('states of every unit in order', [int(x) for x in got['utt%d' % i]] == [ids[k] * states + q for k in u for q in range(states)])


def speakers(ctx, utts):
    spk = tokens(ctx, 's', utts, utts)
    with Scratch(ctx) as s:
        got = s.script(TIMIT + 'prepare-spk-labels.py', ['@map', '@out.npz'], dict(map=[['utt%d' % i, t] for i, t in enumerate(spk)]))
        lab = s.loaded('out.npz')
        lab = [[int(x) for x in lab['utt%d' % i]] for i in range(utts)]
    ctx.check('one label per utterance', all(len(l) == 1 for l in lab))
    for i in range(utts):
        for j in range(i):
            ctx.check('equal labels exactly for equal speakers', (lab[i] == lab[j]) == bool(spk[i] == spk[j]))
        ctx.check('printed numbers', [int(l[1]) for l in got.out if l[0] == spk[i]] == lab[i])


def reduce(ctx, which, lens, recipe):
    """phone set of TIMIT mapped to a smaller one"""
    n = 3
    full = tokens(ctx, 'f', n + 1, n + 1)
    small = tokens(ctx, 's', n, n)
    for i in range(n + 1):
        for j in range(i):
            ctx.assume(not full[i] == full[j])
    mid = [str.__str__(t) for t in ('m0', 'm1', 'm1')]      # two phones become one in the first step
    final = [small[0], small[1], small[1]]
    source = [full[0], full[1], full[2], full[3]] if which == '60-48' else ['m0', 'm1']
    pick = [[ctx.choice('u%d_%d' % (i, j), len(source)) for j in range(k)] for i, k in enumerate(lens)]
    utts = [[source[k] for k in u] for u in pick]
    table = [[full[i], mid[i], final[i]] for i in range(n)]
    gone = full[3]
    table.insert(ctx.choice('at', n + 1), [gone])
    with Scratch(ctx) as s:
        got = s.script('recipes/%s/timit-norm-trans.py' % recipe, ['--map-' + which, '@map'], dict(map=table), stdin=[['utt%d' % i] + u for i, u in enumerate(utts)])
    image = (mid + [None]) if which == '60-48' else [final[0], final[1]]
    lines(ctx, 'phones are mapped, the phone without image is left out', got.out, [['utt%d' % i] + [image[k] for k in u if image[k] is not None] for i, u in enumerate(pick)])


def label_file(ctx, segments, srate=16000, frate=100):
    """labelled segments to one label per frame"""
    import os
    unit = srate // frate
    point = lambda tag: ctx.choice(tag + 'f', 3) * unit + [0, 1, unit - 1][ctx.choice(tag + 's', 3)]
    t, segs = 0, []
    t = point('start')
    for i in range(segments):
        e = t + point('len%d' % i)
        segs.append((t, e))
        t = e
    names = tokens(ctx, 'n', segments, segments)
    with Scratch(ctx) as s:
        os.mkdir(s.path('spk'))
        files = {'spk/utt.phn': [[str(a), str(b), n] for (a, b), n in zip(segs, names)]}
        files['list'] = [[s.path('spk/utt.phn')]]
        got = s.script('recipes/aud/local/timit/phone_ali.py', ([] if srate == 16000 else ['--srate', str(srate)]) + ([] if frate == 100 else ['--frate', str(frate)]) + ['@list'], files)
    want = [n for (a, b), n in zip(segs, names) for t in range(a // unit, b // unit)]
    lines(ctx, 'every frame carries the label of its segment', got.out, [['spk_utt'] + want])


def language(ctx, recipe):
    """lists of phones of the reduced phone sets"""
    table = [['aa', 'aa', 'aa'], ['pau', 'sil', 'sil'], ['q'], ['ao', 'ao', 'aa'], ['epi', 'epi', 'sil'], ['b', 'b', 'b'], ['h#', 'sil', 'sil'], ['ax', 'aa', 'aa']]
    k = ctx.choice('rotate', len(table))
    table = table[k:] + table[:k]
    out = 'phones.txt' if recipe == 'timit_v2/local' else 'units'
    with Scratch(ctx) as s:
        s.script('recipes/%s/timit_lang_prep.py' % recipe, ['@lang', '@map'], dict(map=table))
        first, both, last = s.words('lang/' + out), s.words('lang/phones_48_to_39.txt'), s.words('lang/phones_39.txt')
    if out == 'units':
        want = [['sil', 'non-speech-unit'], ['aa', 'speech-unit'], ['ao', 'speech-unit'], ['b', 'speech-unit'], ['epi', 'non-speech-unit']]
    else:
        want = [[x, str(i)] for i, x in enumerate(['sil', 'aa', 'ao', 'b', 'epi'])]
    lines(ctx, 'units', first, want)
    lines(ctx, 'map', both, [['sil', 'sil'], ['aa', 'aa'], ['ao', 'aa'], ['b', 'b'], ['epi', 'sil']])
    lines(ctx, 'reduced units', last, [['sil', '0'], ['aa', '1'], ['b', '2']])


def pronunciations(ctx, sizes, lens, known=None, speech=None, keep=False):
    """words to phone numbers; known: list of numbers made before, speech: list of the phones that are no silences"""
    n, total = len(sizes) + sum(lens), sum(sizes)
    words = tokens(ctx, 'w', len(sizes), n)
    for i in range(len(sizes)):
        for j in range(i):
            ctx.assume(not words[i] == words[j])
    pron = [tokens(ctx, 'p%d_' % i, k, max(total, 1)) for i, k in enumerate(sizes)]
    utts = [tokens(ctx, 'u%d_' % i, k, n) for i, k in enumerate(lens)]
    files = {'local/lexicon.txt': [[w] + p for w, p in zip(words, pron)], 'text': [['utt%d' % i] + u for i, u in enumerate(utts)]}
    import os
    with Scratch(ctx) as s:
        os.mkdir(s.path('local'))
        if known is not None:
            listed = tokens(ctx, 'k', known, max(total, 1))
            for i in range(known):
                for j in range(i):
                    ctx.assume(not listed[i] == listed[j])
            os.mkdir(s.path('lang'))
            os.mkdir(s.path('data'))        # as for every set but the first
            files['lang/phones.txt'] = [[t, 'L_%d' % (7 - i)] for i, t in enumerate(listed)]
        if speech is not None:
            sounds = tokens(ctx, 's', speech, max(total, 1))
            files['local/nonsilence_phones.txt'] = [[t] for t in sounds]
        s.script('recipes/aud/local/alffa/prepare_transcripts.py', ['--lang', 'L'] + (['--keep-sil-phones'] if keep else []) + ['@text', '@local/lexicon.txt', '@data'], files)
        table, got = s.words('lang/phones.txt'), s.words('data/trans')
    phones = [p for ps in pron for p in ps]
    if known is None:
        distinct = [t for i, t in enumerate(phones) if not any(t == x for x in phones[:i])]
        listed = distinct
        ids = ['L_%d' % (i + 1) for i in range(len(distinct))]
    else:
        ids = ['L_%d' % (7 - i) for i in range(known)]
    lines(ctx, 'numbers of the phones', table, [[t, i] for t, i in zip(listed, ids)])
    want = []
    for i, u in enumerate(utts):
        seq, whole = [], True
        for t in u:
            ps = [p for w, p in zip(words, pron) if w == t]
            whole = whole and bool(ps)
            for p in (ps[0] if ps else []):
                if keep or speech is None and known is None or any(p == x for x in (sounds if speech is not None else listed)):
                    num = [k for x, k in zip(listed, ids) if x == p]
                    whole = whole and bool(num)
                    seq += num
        if whole:
            want.append(['utt%d' % i, 'sil'] + seq + ['sil'])
    lines(ctx, 'words are replaced by the numbers of their phones, utterances with unknown words left out', got, want)


def letters(ctx, lens, tones, sil):
    """spelled words to numbers of sounds"""
    alphabet = ['a', 'G', 'b', "'"] + (['\u0301', '\u0323'] if tones else ['\u0301'])
    utts = []
    for i, sizes in enumerate(lens):
        u = []
        for j, k in enumerate(sizes):
            if k == 0:
                u.append('[noise]')
            else:
                # a mark follows a letter
                first = alphabet[ctx.choice('c%d_%d_0' % (i, j), 4)]
                w = [first]
                for l in range(1, k):
                    c = alphabet[ctx.choice('c%d_%d_%d' % (i, j, l), len(alphabet))]
                    ctx.assume(not (c in '\u0301\u0323' and (w[-1] == "'" or c in w[-1:] or c in w[-2:-1])))
                    w.append(c)
                u.append(''.join(w))
        utts.append(u)
    with Scratch(ctx) as s:
        s.script('recipes/aud/local/google_lr/prepare_transcripts.py', ['--lang', 'L'] + (['--diacritics'] if tones else []) + (['--add-sil'] if sil else []) + ['@text', '@data'], dict(text=[['utt%d' % i] + u for i, u in enumerate(utts)]))
        table, got = s.words('lang/phones.txt'), s.words('data/trans')
    marks = '\u0301\u0323'
    ids, want = {}, []
    for i, u in enumerate(utts):
        seq = []
        for w in u:
            if w.startswith('['):
                if seq and seq[-1] != 'sil':
                    seq.append('sil')
                continue
            sounds = []         # (letter, marks)
            for c in w.lower():
                if c == "'":
                    continue
                if c in marks:
                    if tones:
                        sounds[-1] = (sounds[-1][0], sounds[-1][1] | {c})
                elif c == 'b' and sounds and sounds[-1] == ('g', frozenset()):
                    sounds[-1] = ('gb', frozenset())
                else:
                    sounds.append((c, frozenset()))
            for x in sounds:
                ids.setdefault(x, 'L_%d' % (len(ids) + 2))
                seq.append(ids[x])
        want.append(['utt%d' % i] + (['sil'] + seq + ['sil'] if sil else seq))
    lines(ctx, 'every sound has its number', got, want)
    ctx.check('list of numbers', sorted(l[1] for l in table) == sorted(['sil'] + list(ids.values())) and len(set(l[0] for l in table)) == len(table))
    for (c, m), k in ids.items():
        ctx.check('sound of a number', [sorted(l[0]) for l in table if l[1] == k] == [sorted(list(c) + list(m))])


HARNESSES = [
    Harness('collapse', collapse, about='frame labels to transcription', quick=[dict(lens=(3,)), dict(lens=(1, 2)), dict(lens=(4,))], thorough=[dict(lens=(5,))]),
    Harness('frames', frames, about='segments to frame labels', quick=[dict(segments=1), dict(segments=2)], thorough=[dict(segments=3)]),
    Harness('prefix', prefix, about='prefix', quick=[dict(lens=(2,), exclude=0), dict(lens=(2,), exclude=1), dict(lens=(1, 1), exclude=2)]),
    Harness('lexicon', lexicon, about='words to phones', quick=[dict(sizes=(2, 1), lens=(2,), sil=False), dict(sizes=(1,), lens=(1, 1), sil=True), dict(sizes=(0, 2), lens=(1, 0), sil=False), dict(sizes=(1, 2), lens=(2, 1), sil=True)]),
    Harness('units', units, about='list of units', quick=[dict(silence=False), dict(silence=True)]),
    Harness('from_states', from_states, about='states to units', quick=[dict(visits=1, states=3), dict(visits=2, states=2), dict(visits=3, states=1)], thorough=[dict(visits=2, states=3), dict(visits=3, states=2)]),
    Harness('from_densities', from_densities, about='densities to units', quick=[dict(visits=2, states=2), dict(visits=1, states=3), dict(visits=3, states=1), dict(visits=2, states=2, level=False)], thorough=[dict(visits=3, states=2), dict(visits=2, states=3)]),
    Harness('best_path', best_path, about='alignment to unit numbers', quick=[dict(lens=(2,)), dict(lens=(3,)), dict(lens=(1, 1))]),
    Harness('integers', integers, about='transcriptions to numbers and states', quick=[dict(lens=(2,)), dict(lens=(1, 1)), dict(lens=(0, 2))]),
    Harness('speakers', speakers, about='speaker labels', quick=[dict(utts=2), dict(utts=3)]),
    Harness('reduce', reduce, about='reduced phone sets', quick=[dict(which=w, lens=l, recipe=r) for w in ('60-48', '48-39') for l, r in (((2,), 'timit_v2/local'), ((1, 1), 'aud/local/timit'))]),
    Harness('label_file', label_file, about='label files to frames', quick=[dict(segments=1), dict(segments=2), dict(segments=1, srate=8000, frate=50)]),
    Harness('language', language, about='lists of phones', quick=[dict(recipe='timit_v2/local'), dict(recipe='aud/local/timit')]),
    Harness('pronunciations', pronunciations, about='words to phone numbers', quick=[dict(sizes=(2, 1), lens=(2,)), dict(sizes=(1,), lens=(1, 1)), dict(sizes=(2,), lens=(1,), known=2), dict(sizes=(1, 1), lens=(2,), speech=1), dict(sizes=(2,), lens=(1,), speech=1, keep=True), dict(sizes=(2,), lens=(1,), known=1, keep=True)]),
    Harness('letters', letters, about='spelling to phone numbers', quick=[dict(lens=((3,),), tones=True, sil=False), dict(lens=((2, 0, 1), (1,)), tones=False, sil=True), dict(lens=((2,), (0, 2)), tones=True, sil=True), dict(lens=((1, 0, 0, 1),), tones=False, sil=False)]),
]
