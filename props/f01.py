from .common import *
from .scripts import numeric, same, vector, values

PATH = 'beer/features.py'
BOUNDS = ('Bounds: every frequency for the scales; banks of 1-3 filters on 8-16 FFT points with arbitrary cut-off frequencies and sampling rates '
          '(linear and affine scales), the default mel scale with one filter.')
ASSUMPTIONS = ['the frequency resolution separates the centres of neighbouring filters: distinct FFT bins when centres are aligned, at least one bin '
               'per side otherwise']


def scales(ctx, kind):
    m = numeric(ctx, PATH)
    to, back = (m.hz2mel, m.mel2hz) if kind == 'mel' else (m.hz2bark, m.bark2hz)
    f, g = ctx.real('f', 0), ctx.real('g', 0)
    v = ctx.real('v', 0) if kind == 'mel' else ctx.real('v', 0, 29, hi_strict=True)
    ctx.check_eq('back from the scale', back(to(f)), f)
    ctx.check_eq('to the scale', to(back(v)), v)
    eps = 0 if ctx.symbolic else 1e-12
    ctx.check('increasing', ctx.or_(ctx.le(g, f), ctx.le(to(f), to(g) + eps)))
    ctx.check('strictly increasing', ctx.or_(ctx.equal(g, f), ctx.not_(ctx.equal(to(f), to(g)))) if ctx.symbolic else True)
    fs = vector(ctx, [f, g])
    same(ctx, 'arrays', to(fs), [to(f), to(g)])
    same(ctx, 'arrays back', back(to(fs)), [f, g])


def triangles(ctx, centers, n):
    """rows of the bank by definition"""
    rows = []
    for i in range(1, len(centers) - 1):
        a, c, b = centers[i - 1:i + 2]
        row = []
        for f in range(n):
            up = ctx.frac(0) + (f - a) / (c - a)
            down = ctx.frac(0) + (b - f) / (b - c)
            if f >= a and f <= c:
                row.append(up)
            elif f >= c and f <= b:
                row.append(down)
            else:
                row.append(ctx.frac(0))
        rows.append(row)
    return rows


def grid(ctx, lo, hi, n):
    return [lo + (hi - lo) * ctx.frac(i, n + 1) for i in range(n + 2)]


def resolution(ctx, centers, aligned, n):
    """assume the precondition"""
    for a, b in zip(centers, centers[1:]):
        if aligned:
            ctx.assume(ctx.lt(a, b))
        else:
            ctx.assume(ctx.or_(*[ctx.and_(ctx.le(a, f), ctx.le(f, b)) for f in range(n)]))
    ctx.assume(ctx.le(centers[-2], n - 1))


def floor(ctx, x):
    import math
    from symx import terms as T
    return T.floor(x) if ctx.symbolic else math.floor(float(x) + 1e-12)


def bank(ctx, nf, fft, aligned, scale, vary=None):
    m = numeric(ctx, PATH)
    low, high = ctx.real('low', 0), ctx.real('high', 0)
    if scale == 'linear':
        to, back = (lambda f: f), (lambda f: f)
        kw = dict(hz2scale=to, scale2hz=back)
    elif scale == 'affine':
        a, b = ctx.pos('slope'), ctx.real('offset')
        to, back = (lambda f: a * f + b), (lambda v: (v - b) / a)
        kw = dict(hz2scale=to, scale2hz=back)
    else:
        kw = {}
        to = lambda f: 1127 * ctx.log(1 + f / 700)
        back = lambda v: 700 * (ctx.exp(v / 1127) - 1)

    def expected(nf, fft, srate, low, high, aligned):
        c = [fft * back(v) / srate for v in grid(ctx, to(low), to(high), nf)]
        return [floor(ctx, v) for v in c] if aligned else c
    first = dict(nf=nf, fft=fft, srate=ctx.pos('srate'), low=low, high=high, aligned=aligned)
    settings = [first]
    if vary:
        other = dict(nf=nf + 1, fft=2 * fft, aligned=not aligned)
        settings.append(dict(first, **{vary: other[vary] if vary in other else ctx.pos('srate2') if vary == 'srate' else ctx.real(vary + '2', 0)}))
    all_c = []
    for i, t in enumerate(settings):
        ctx.assume(ctx.lt(t['low'], t['high']))
        ctx.assume(ctx.le(2 * t['high'], t['srate']))
        c = expected(**t)
        resolution(ctx, c, t['aligned'], t['fft'] // 2)
        if not ctx.symbolic:    # away from rounding at the bin borders
            raw = [t['fft'] * back(v) / t['srate'] for v in grid(ctx, to(t['low']), to(t['high']), t['nf'])]
            ctx.assume(all(abs(float(x) - round(float(x))) > 1e-7 for x in raw))
        all_c.append(c)
    # each bank, and once more when both were requested: nothing that is kept from one request may reach another
    for i in [0, 1, 0] if vary else [0]:
        t = settings[i]
        got = m.create_fbank(t['nf'], t['fft'], srate=t['srate'], lowfreq=t['low'], highfreq=t['high'], align_filt_center=t['aligned'], **kw)
        same(ctx, 'bank %d' % i, got, triangles(ctx, all_c[i], t['fft'] // 2))


def nyquist(ctx, nf, fft):
    """without an upper cut-off the bank goes up to half the sampling rate"""
    m = numeric(ctx, PATH)
    low, s = ctx.real('low', 0), ctx.pos('srate')
    one = lambda f: f
    ctx.assume(ctx.lt(2 * low, s))
    c = [fft * v / s for v in grid(ctx, low, s / 2, nf)]
    resolution(ctx, c, False, fft // 2)
    if not ctx.symbolic:
        ctx.assume(all(abs(float(x) - round(float(x))) > 1e-7 for x in c[:-1]))
    same(ctx, 'bank', m.create_fbank(nf, fft, srate=s, lowfreq=low, hz2scale=one, scale2hz=one, align_filt_center=False), triangles(ctx, c, fft // 2))


HARNESSES = [
    Harness('scales', scales, quick=[dict(kind='mel'), dict(kind='bark')], about='conversions'),
    Harness('bank', bank, about='filters',
            quick=[dict(nf=1, fft=8, aligned=True, scale='linear'), dict(nf=1, fft=8, aligned=False, scale='linear'), dict(nf=2, fft=8, aligned=True, scale='linear'),
                   dict(nf=1, fft=8, aligned=True, scale='affine'), dict(nf=1, fft=8, aligned=False, scale='mel'), dict(nf=1, fft=8, aligned=True, scale='linear', vary='srate'),
                   *[dict(nf=1, fft=8 if v in ('nf', 'low', 'high') else 4, aligned=True, scale='linear', vary=v) for v in ('low', 'high', 'nf', 'fft', 'aligned')]],
            thorough=[dict(nf=2, fft=8, aligned=False, scale='linear'), dict(nf=3, fft=16, aligned=True, scale='linear'), dict(nf=2, fft=16, aligned=True, scale='affine')]),
    Harness('nyquist', nyquist, quick=[dict(nf=1, fft=8)], thorough=[dict(nf=2, fft=8)], about='default upper cut-off'),
]
