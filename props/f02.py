from .common import *
from .scripts import numeric, load, same, vector, values
from .f01 import triangles

PATH = 'beer/features.py'
BOUNDS = ('Bounds: signals of 4-9 samples with arbitrary values, frames of 2-4 samples shifted by 1-4 samples, arbitrary pre-emphasis and window; derivatives '
          'of 1-5 frames of 1-2 coefficients, windows of 1-3 frames, orders 0-3; 1-4 cosine coefficients of 1-4 filters.')
ASSUMPTIONS = ['a signal has at least one frame']


def dft(ctx, x, n):
    """magnitudes of the first n/2 coefficients, squared"""
    import math
    from symx import npx
    out = []
    for k in range(n // 2):
        re, im = ctx.frac(0), ctx.frac(0)
        for t, v in enumerate(x):
            if ctx.symbolic:
                c, s = npx.twiddle(k * t, n)
            else:
                c, s = math.cos(2 * math.pi * k * t / n), math.sin(2 * math.pi * k * t / n)
            re, im = re + v * c, im + v * s
        out.append(re * re + im * im)
    return out


def square(a):
    return a * a


def spectrum(ctx, N, L, shift, window='hamming', srate=8):
    import numpy as np
    m = numeric(ctx, PATH)
    x = [ctx.real('x%d' % i) for i in range(N)]
    sig = vector(ctx, x)
    kw = {}
    if window == 'hamming':
        w = [float(v) for v in np.hamming(L)]
        w = [ctx.frac(0) + v for v in w]
    else:
        w = [ctx.real('w%d' % i) for i in range(L)]
        kw['window'] = lambda n: vector(ctx, w) if n == L else None
    if window == 'hamming':
        p = 0.97
    else:
        p = kw['preemph'] = ctx.real('preemph')
    got, n = m.short_term_mspec(sig, flen=L / srate, frate=shift / srate, srate=srate, **kw)
    fft = 1
    while fft <= L:
        fft *= 2
    ctx.check('FFT length', int(n) == fft)
    mean = ctx.sum(x) / N
    want = []
    for s in range(0, N - L + 1, shift):
        f = [v - mean for v in x[s:s + L]]
        e = [f[t] - p * f[max(t - 1, 0)] for t in range(L)]
        want.append(dft(ctx, [a * b for a, b in zip(e, w)], fft))
    same(ctx, 'squared magnitudes', square(got), want)
    same(ctx, 'the signal of the caller', sig, x)
    for a in range(len(want)):
        for b in range(len(want[0])):
            ctx.check_le('magnitudes are not negative', 0, values(ctx, got)[a][b])


def fbank(ctx, N, L, shift, srate, lfreq=0, preemph=False):
    """filter bank features of a signal"""
    import math
    import numpy as np
    m = numeric(ctx, PATH)
    x = [ctx.real('x%d' % i) for i in range(N)]
    sig = vector(ctx, x)
    hi = srate / 2
    pre, kw = 0.97, {}
    if preemph:
        pre = kw['preemph'] = ctx.real('preemph')
    got = m.fbank(sig, flen=L / srate, frate=shift / srate, hifreq=hi, lowfreq=lfreq, nfilters=1, srate=srate, **kw)
    fft = 1
    while fft <= L:
        fft *= 2
    mel = 1127 * (math.log(1 + hi / 700) + math.log(1 + lfreq / 700)) / 2
    cen = [math.floor(fft * lfreq / srate), math.floor(fft * 700 * (math.exp(mel / 1127) - 1) / srate), math.floor(fft * hi / srate)]
    fil = triangles(ctx, [ctx.frac(c) for c in cen], fft // 2)[0]
    e = [x[t] - pre * x[max(t - 1, 0)] for t in range(N)]
    w = [float(v) for v in np.hamming(L)]
    want = []
    for s in range(0, N - L + 1, shift):
        mag = [ctx.sqrt(v) for v in dft(ctx, [a * b for a, b in zip(e[s:s + L], w)], fft)]
        want.append([1 + ctx.sum([a * b for a, b in zip(mag, fil)])])
    got = values(ctx, got)
    same(ctx, 'features', [[ctx.exp(v) for v in r] for r in got], want, 1e-4)
    same(ctx, 'the signal of the caller', sig, x)


def deltas(ctx, T, D, win):
    m = numeric(ctx, PATH)
    x = [[ctx.real('x%d_%d' % (t, d)) for d in range(D)] for t in range(T)]
    fea = vector(ctx, x)
    want, cur = [list(r) for r in x], x
    for w in win:
        norm = 4 * sum(k * k for k in range(1, w + 1))
        cur = [[ctx.sum([k * cur[min(max(t + k, 0), T - 1)][d] for k in range(-w, w + 1)]) / ctx.frac(norm) for d in range(D)] for t in range(T)]
        want = [a + b for a, b in zip(want, cur)]
    same(ctx, 'features and derivatives', m.add_deltas(fea, win) if win != (2, 2) else m.add_deltas(fea), want)
    same(ctx, 'the features of the caller', fea, x)


def cosine(ctx, F, C):
    """cosine transform of arbitrary log energies"""
    import math
    m = load('beer/cli/subcommands/features/extract.py')
    b = m.compute_dct_bases(F, C)
    x = [ctx.real('x%d' % i) for i in range(F)]
    got = vector(ctx, x) @ b
    same(ctx, 'cosine coefficients', got, [ctx.sum([v * math.cos((c + 1) * math.pi / F * (i + .5)) for i, v in enumerate(x)]) for c in range(C)], 1e-9)


HARNESSES = [
    Harness('spectrum', spectrum, about='short-term magnitude spectrum',
            quick=[dict(N=7, L=4, shift=2), dict(N=8, L=4, shift=2, window='any'), dict(N=5, L=2, shift=1, window='any'), dict(N=4, L=4, shift=4), dict(N=7, L=3, shift=4),
                   dict(N=8, L=3, shift=2, srate=1000)],
            thorough=[dict(N=9, L=4, shift=1, window='any'), dict(N=12, L=7, shift=5, window='any')]),
    Harness('fbank', fbank, quick=[dict(N=6, L=4, shift=2, srate=800), dict(N=7, L=4, shift=3, srate=1600), dict(N=6, L=4, shift=2, srate=1600, lfreq=250, preemph=True)], about='filter bank features', thorough=[dict(N=12, L=7, shift=2, srate=800)]),
    Harness('deltas', deltas, quick=[dict(T=4, D=2, win=(2, 2)), dict(T=1, D=1, win=(1, 1)), dict(T=3, D=1, win=(3, 1)), dict(T=2, D=2, win=()), dict(T=5, D=1, win=(1, 2, 1))],
            thorough=[dict(T=6, D=2, win=(3, 2, 3))], about='derivatives'),
    Harness('cosine', cosine, quick=[dict(F=3, C=2), dict(F=4, C=4), dict(F=1, C=1)], about='cosine transform'),
]


def pipeline(ctx, N, L, shift, srate, dct=True, energy=True, order=1, mnorm=False, fb=True, nd=2, recipe=False, source='files', lfreq=0, winlen=1,
             preemph=None, nf=2, lift=4):
    """the command that extracts the features of a list of files"""
    import argparse
    import logging
    import math
    import os
    import shutil
    import sys
    import tempfile
    import types
    import numpy as np
    import beer
    from symx.npx import Namespace
    m = numeric(ctx, 'recipes/timit_v2/utils/features-extract-parallel.py' if recipe else 'beer/cli/subcommands/features/extract.py')
    fresh = numeric(ctx, PATH)
    for k, v in list(vars(m).items()):
        if v is beer:
            m.__dict__[k] = types.SimpleNamespace(features=fresh)
        elif v is beer.features:
            m.__dict__[k] = fresh
    saved = {}
    save = lambda path, a: saved.__setitem__(os.path.basename(path), a)
    x = {u: [ctx.real('%s_x%d' % (u, i)) for i in range(N)] for u in ('a', 'b')}
    m.read = lambda path: (srate, vector(ctx, x[os.path.basename(path)[0] if isinstance(path, str) else path.read().decode()]))
    real_np = m.np
    if ctx.symbolic:
        m.np.__dict__['save'] = save
    else:
        m.np = Namespace(np, dict(save=save))
    hi = srate / 2
    conf = dict(srate=srate, window_len=L / srate, framerate=shift / srate, nfilters=nf, cutoff_hfreq=hi, cutoff_lfreq=lfreq, apply_deltas=order > 0, delta_order=order,
                delta_winlen=winlen, apply_dct=dct, n_dct_coeff=nd, lifter_coeff=lift, utt_mnorm=mnorm, apply_fbank=fb)
    if not recipe:
        conf['add_energy'] = energy
    pre = 0.97
    if preemph:
        pre = ctx.real('preemph')
        conf['preemph'] = 'any' if ctx.symbolic else pre
        if ctx.symbolic:
            real = m.yaml
            loads = lambda f, *a, **k: {k: pre if k == 'preemph' and v == 'any' else v for k, v in real.load(f, real.SafeLoader).items()}
            m.yaml = Namespace(real, dict(safe_load=loads, load=loads))
    old = sys.stdin, sys.argv
    d = tempfile.mkdtemp()
    try:
        with open(d + '/conf', 'w') as f:
            f.write('\n'.join('%s: %s' % (k, str(v).lower() if isinstance(v, bool) else v) for k, v in conf.items()))
        with open(d + '/list', 'w') as f:
            # the second file may be the output of a command
            second = 'printf b |' if source != 'files' else d + '/b.wav'
            f.write('utt1 %s/a.wav\nutt2 %s\n' % (d, second))
        if recipe or source == 'stdin':
            sys.stdin = open(d + '/list')
        if recipe:
            sys.argv = ['script', d + '/conf', d]
            m.main()
        else:
            m.main(argparse.Namespace(feaconf=d + '/conf', wav_list='-' if source == 'stdin' else d + '/list', outdir=d), logging.getLogger('verif'))
    finally:
        sys.stdin, sys.argv = old
        shutil.rmtree(d)
    fft = 1
    while fft <= L:
        fft *= 2
    top, low = 1127 * math.log(1 + hi / 700), 1127 * math.log(1 + lfreq / 700)
    cen = [math.floor(fft * 700 * (math.exp((low + (top - low) * i / (nf + 1)) / 1127) - 1) / srate) for i in range(nf + 1)] + [math.floor(fft * hi / srate)]
    fil = triangles(ctx, [ctx.frac(c) for c in cen], fft // 2)
    w = [float(v) for v in np.hamming(L)]
    norm = float(np.sqrt(2. / nf))
    base = [[math.cos((c + 1) * math.pi / nf * (i + .5)) for c in range(nd)] for i in range(nf)]
    lf = [1 + lift / 2 * math.sin(math.pi * (1 + c) / lift) for c in range(nd)]
    for u, name in (('a', 'utt1'), ('b', 'utt2')):
        mean = ctx.sum(x[u]) / N
        rows = []
        for s in range(0, N - L + 1, shift):
            f = [v - mean for v in x[u][s:s + L]]
            e = [f[t] - pre * f[max(t - 1, 0)] for t in range(L)]
            mag = [ctx.sqrt(v) for v in dft(ctx, [a * b for a, b in zip(e, w)], fft)]
            lo = [ctx.log(ctx.frac(1, 10 ** 6) + v) for v in ([ctx.sum([a * b for a, b in zip(mag, r)]) for r in fil] if fb else mag)]
            row = [ctx.sum([v * base[i][c] for i, v in enumerate(lo)]) * norm * lf[c] for c in range(nd)] if dct else list(lo)
            if energy:
                row = [ctx.sum(lo) * norm] + row
            rows.append(row)
        T = len(rows)
        cur, full = rows, [list(r) for r in rows]
        for _ in range(order):
            norm2 = 4 * sum(j * j for j in range(1, winlen + 1))
            cur = [[ctx.sum([j * cur[min(max(t + j, 0), T - 1)][k] for j in range(-winlen, winlen + 1)]) / norm2 for k in range(len(cur[0]))] for t in range(T)]
            full = [a + b for a, b in zip(full, cur)]
        if mnorm:
            mu = [ctx.sum(c) / T for c in zip(*full)]
            full = [[a - b for a, b in zip(r, mu)] for r in full]
        same(ctx, name, saved.get(name, []), full, 1e-6)


HARNESSES.append(Harness('pipeline', pipeline, about='feature extraction command',
                         quick=[dict(N=6, L=4, shift=2, srate=1600), dict(N=4, L=4, shift=2, srate=1600, nd=1), dict(N=7, L=4, shift=2, srate=1600, mnorm=True, order=2, energy=False), dict(N=4, L=4, shift=2, srate=1600, dct=False, order=0),
                                dict(N=6, L=4, shift=2, srate=1600, fb=False, dct=False), dict(N=4, L=4, shift=2, srate=1600, source='commands'), dict(N=4, L=4, shift=2, srate=1600, source='stdin', order=0),
                                dict(N=4, L=4, shift=2, srate=1600, preemph=True, order=0, dct=False, energy=False), dict(N=6, L=4, shift=2, srate=1600, nf=1, nd=1, lfreq=250, lift=22, winlen=2, preemph=True),
                                dict(N=8, L=4, shift=2, srate=1600, nf=1, dct=False, winlen=2, order=2, energy=False), dict(N=4, L=4, shift=2, srate=1600, lift=22, order=0)]))
HARNESSES.append(Harness('recipe', pipeline, about='feature extraction of the TIMIT recipe',
                         quick=[dict(N=4, L=4, shift=2, srate=1600, recipe=True, energy=False, nd=1), dict(N=6, L=4, shift=2, srate=1600, recipe=True, energy=False), dict(N=6, L=4, shift=2, srate=1600, recipe=True, energy=False, mnorm=True, order=2, source='commands'),
                                dict(N=4, L=4, shift=2, srate=1600, recipe=True, energy=False, dct=False, order=0),
                                dict(N=6, L=4, shift=2, srate=1600, recipe=True, energy=False, nf=1, dct=False, lfreq=250, winlen=2, preemph=True),
                                dict(N=4, L=4, shift=2, srate=1600, recipe=True, energy=False, lift=22, order=0)]))


def refused(ctx, recipe, reason):
    """unknown settings and signals of another sampling rate stop the command before anything is written"""
    import argparse
    import io
    import logging
    import os
    import shutil
    import sys
    import tempfile
    m = numeric(ctx, 'recipes/timit_v2/utils/features-extract-parallel.py' if recipe else 'beer/cli/subcommands/features/extract.py')
    rate, other = (8000, 16000) if ctx.choice('rates', 2) else (16000, 8000)
    m.read = lambda path: (other if reason == 'rate' else rate, vector(ctx, [ctx.real('x%d' % i) for i in range(1000)]))
    d, old = tempfile.mkdtemp(), (sys.stdin, sys.argv)
    log = logging.getLogger('verif-refused')
    log.disabled, logging.root.disabled = True, True
    try:
        with open(d + '/conf', 'w') as f:
            f.write('srate: %d\ncutoff_hfreq: 4000\n' % rate + ('window: 3\n' if reason == 'setting' else ''))
        with open(d + '/list', 'w') as f:
            f.write('utt %s/a.wav\n' % d)
        os.mkdir(d + '/out')
        status = 0
        try:
            if recipe:
                sys.argv, sys.stdin = ['script', d + '/conf', d + '/out'], open(d + '/list')
                m.main()
            else:
                m.main(argparse.Namespace(feaconf=d + '/conf', wav_list=d + '/list', outdir=d + '/out'), log)
        except SystemExit as e:
            status = e.code
        ctx.check('the command reports an error', status not in (0, None))
        ctx.check('nothing is written', os.listdir(d + '/out') == [])
    finally:
        sys.stdin, sys.argv = old
        logging.root.disabled = False
        shutil.rmtree(d)


HARNESSES.append(Harness('refused', refused, about='configurations that are refused', quick=[dict(recipe=r, reason=w) for r in (False, True) for w in ('rate', 'setting')]))
