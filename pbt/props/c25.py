"""C25 fractional octave filter banks, smoothing and band levels."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C25', 'fractions 1..12, 65..8193 bins, rates, band limits '
                  'inside and outside of the spectrum, overlaps, slopes and '
                  'modes; spectra of 1..300 bins; non-trivial: at least two '
                  'bands that do not collapse')


@st.composite
def banks(draw):
    fs = draw(st.sampled_from([8000, 44100, 48000, 48001, 96000]))
    lo = draw(st.one_of(st.sampled_from([50, 100, 125, 250, 1000]),
                        gen.floats(20., fs / 8)))
    hi = draw(st.one_of(st.none(), st.sampled_from([4000, 8000, 16000]),
                        gen.floats(fs / 8, 1.2 * fs)))
    return dict(fs=fs, lo=lo, hi=hi, n=draw(st.sampled_from([1, 1, 2, 3, 3,
                                                             6, 12])),
                bins=draw(st.sampled_from([65, 129, 513, 1025, 4097, 8193,
                                           100])),
                mode=draw(st.sampled_from([None, 'energy', 'amplitude',
                                           'pressure'])),
                overlap=draw(st.one_of(st.sampled_from([None, 0., .5, .25]),
                                       gen.floats(0., .5))),
                slope=draw(st.sampled_from([None, 0, 1, 2, 3, 5])))


@R.sub(banks(), quick=300, weight=2)
def filterbank(c, t):
    """Conservation, edges and gains of a filter bank."""
    kw = {}
    if c['hi'] is not None:
        kw['f_high'] = c['hi']
    for k, key in (('mode', 'mode'), ('overlap', 'overlap'),
                   ('slope', 'slope_l')):
        if c[k] is not None:
            kw[key] = c[k]
    fs, n, nb = c['fs'], c['n'], c['bins']
    mode = c['mode'] or 'energy'
    ov = .5 if c['overlap'] is None else c['overlap']
    slope = 3 if c['slope'] is None else c['slope']
    lim = min(fs // 2, np.inf if c['hi'] is None else c['hi'])
    h = 2 ** (1 / (2 * n))
    if c['lo'] / h >= lim:
        t.skip('first band above the limit')
    # bands: centre f_low times powers of 2^(1/n), until the limit is covered
    m, near = 0, False
    while c['lo'] * h ** (2 * m + 1) < lim:
        near |= abs(c['lo'] * h ** (2 * m + 1) / lim - 1) < 1e-9
        m += 1
    if near or abs(c['lo'] * h ** (2 * m + 1) / lim - 1) < 1e-9:
        t.skip('limit on an edge')
    fc = c['lo'] * h ** (2. * np.arange(m + 1))
    edges = fc / h
    N = 2 * (nb - 1)
    exact = edges * N / fs
    half = ov * (fc - edges) * N / fs
    if np.any(np.abs(exact - np.round(exact)) < 1e-7) or \
            np.any(np.abs(half % 1 - .5) < 1e-7):
        t.skip('edge on a bin')
    k = np.floor(exact).astype(int)
    P = np.round(half).astype(int)
    if np.any(k[:-1] + P[:-1] >= k[1:] - P[1:]) or k[0] - P[0] < 1:
        t.skip('bands collapse')
    g, ff = spa.process.frac_octave_filterbank(n, nb, fs, c['lo'], **kw)
    t.nt(len(ff) > 2)
    t.label(mode)
    t.label(f'1/{n} octave')
    t.require(g.shape == (len(edges) + 1, nb) and
              ff.shape == (len(edges) + 1, 3), f'shapes {g.shape} {ff.shape}')
    q = 2 if mode == 'energy' else 1
    t.close(np.sum(g ** q, axis=0), np.ones(nb), f'sum of {mode}', rtol=0,
            atol=1e-10)
    t.require(g.min() >= -1e-12 and g.max() <= 1 + 1e-12, 'gain range')
    # edges
    lows, highs = np.r_[0, edges], np.r_[edges, fs / 2]
    t.close(ff[:, 0], lows, 'lower edges')
    t.close(ff[:, 2], highs, 'upper edges')
    mid = np.sqrt(np.r_[1, edges] * highs)
    mid[1:-1] = fc[:-1]
    t.close(ff[:, 1], mid, 'centres')
    # gains: slope recursion around the edges
    want = np.ones((len(edges) + 1, nb))
    f = np.arange(nb)
    for b, (kb, p) in enumerate(zip(k, P)):
        x = np.clip((f - kb) / p, -1, 1) if p else np.where(f >= kb, 1., -1.)
        for _ in range(slope):
            x = np.sin(np.pi / 2 * x)
        up = np.sin(np.pi / 4 * (x + 1))
        want[b + 1] *= up
        want[b] *= np.sqrt(np.maximum(0, 1 - up ** 2))
    if mode != 'energy':
        want = want ** 2
    t.close(g, want, 'gains', rtol=0, atol=2e-8)


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 300),
            frac=st.sampled_from([1, 2, 3, 6, 12, 24]),
            weighted=st.sampled_from([None, True, False]),
            data=st.sampled_from(['real', 'positive', 'complex', 'int']),
            kind=gen.kinds, const=gen.floats(-1e3, 1e3)), quick=200)
def smoothing(c, t):
    """Local weighted means: constants stay, range stays, linear."""
    r = gen.rng(c['seed'])
    n = c['n']
    x = r.standard_normal(n)
    if c['data'] == 'positive':
        x = np.abs(x)
    elif c['data'] == 'complex':
        x = x + 1j * r.standard_normal(n)
    elif c['data'] == 'int':
        x = r.integers(-9, 10, n)
    kw = {} if c['weighted'] is None else {'WEIGHTED': c['weighted']}

    def f(v):
        return spa.process.frac_octave_smoothing(v, c['frac'], **kw)
    t.nt(n > 2)
    t.label(c['data'])
    keep = x.copy()
    y = f(gen.as_kind(x, c['kind']))
    t.close(f(x), y, 'array and list')
    t.close(x, keep, 'argument changed', rtol=0, atol=0)
    q = 2 ** (1 / (2 * c['frac']))
    want = []
    for i in range(n):
        lo, hi = int(np.floor(i / q)), int(np.ceil(i * q))
        hi = max(1, min(hi, n))
        m = hi - lo
        w = np.ones(m)
        if c['weighted'] is not False and m > 1:
            w = .54 - .46 * np.cos(2 * np.pi * np.arange(m) / (m - 1))
        want.append(np.dot(w, x[lo:hi]) / w.sum())
        if not np.iscomplexobj(x):
            t.require(x[lo:hi].min() - 1e-9 <= y[i] <= x[lo:hi].max() + 1e-9,
                      f'bin {i} outside of the range of its band')
    t.close(y, np.array(want), 'smoothed')
    t.close(f(np.full(n, c['const'])), np.full(n, c['const']), 'constant',
            atol=1e-7)
    z = r.standard_normal(n)
    t.close(f(2. * x + z), 2 * y + f(z), 'linear')


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 6), n=st.integers(1, 60),
            fs=st.sampled_from([44100, 48000]), axis=st.sampled_from(
                [None, -1, 1, 0]), power=st.sampled_from([None, True,
                                                          False])),
       quick=100)
def band_levels(c, t):
    """Levels relative to the band width, per band."""
    r = gen.rng(c['seed'])
    x = r.standard_normal((c['C'], c['n']))
    if c['seed'] % 2:
        x = x + 1j * r.standard_normal(x.shape)
    axis = -1 if c['axis'] is None else c['axis']
    m = x.shape[1 - axis % 2]
    w = r.uniform(10, 1e3, m)
    kw = {}
    if c['axis'] is not None:
        kw['axis'] = c['axis']
    if c['power'] is not None:
        kw['power'] = c['power']
    t.nt(c['C'] > 1)
    e = np.sum(np.abs(x) ** 2, axis=axis) * c['fs'] / (2 * w)
    want = e / x.shape[1] if c['power'] else np.sqrt(e)
    got = spa.process.subband_levels(x, w, c['fs'], **kw)
    t.close(got, want, 'levels')
    t.close(spa.process.subband_levels(3 * x, w, c['fs'], **kw),
            got * (9 if c['power'] else 3), 'scaled')


@R.sub(dict(seed=gen.seeds, n=st.sampled_from([1, 3]),
            mode=st.sampled_from(['energy', 'amplitude']),
            nb=st.sampled_from([513, 2049])), quick=40)
def reconstruction(c, t):
    """Filtering with all bands and adding up gives back the signal
    (amplitude), or its energy (energy)."""
    r = gen.rng(c['seed'])
    N = 2 * (c['nb'] - 1)
    x = r.standard_normal(N)
    lo = {1: 500, 3: 1000}[c['n']]
    g, ff = spa.process.frac_octave_filterbank(c['n'], c['nb'], 48000, lo,
                                               mode=c['mode'])
    y = np.fft.irfft(g * np.fft.rfft(x), n=N)
    t.nt()
    if c['mode'] == 'amplitude':
        t.close(y.sum(0), x, 'sum of the bands', atol=1e-9)
    else:
        t.close(np.sum(y ** 2), np.sum(x ** 2), 'energy of the bands',
                rtol=1e-9)
        t.close(np.fft.irfft(np.sum(g * np.fft.rfft(y), 0), n=N), x,
                'filtered twice', atol=1e-9)


@R.sub(dict(seed=gen.seeds, n=st.one_of(st.integers(1, 80),
                                        st.sampled_from([129, 513, 1025,
                                                         2049])),
            frac=st.sampled_from([1, 3, 12, 48, 1.5]),
            weighted=st.booleans(), cplx=st.booleans()), quick=60, weight=2)
def smoothing_levels(c, t):
    """Any level, any sum, any number type and layout; long spectra."""
    r = gen.rng(c['seed'])
    n = c['n']
    x = r.standard_normal(n) * 10. ** r.integers(-8, 4, n)
    if c['cplx']:
        x = x + 1j * r.standard_normal(n) * np.abs(x)

    def f(v):
        return spa.process.frac_octave_smoothing(v, c['frac'], c['weighted'])
    t.nt(n > 2)
    q = 2 ** (1 / (2 * c['frac']))
    y = f(x)
    for i in range(0, n, max(1, n // 100)):
        lo, hi = int(np.floor(i / q)), int(np.ceil(i * q))
        m = max(1, min(hi, n)) - lo
        w = np.ones(m)
        if c['weighted'] and m > 1:
            w = .54 - .46 * np.cos(2 * np.pi * np.arange(m) / (m - 1))
        s = x[lo:lo + m]
        t.close(y[i], np.dot(w, s) / w.sum(), f'bin {i}',
                atol=1e-12 * np.max(np.abs(s)))
    t.linear(f, x, 'smoothing', columns=False)
    t.forms(f, x, 'smoothing')


@R.sub(dict(seed=gen.seeds, C=gen.block, n=gen.block, cplx=st.booleans(),
            axis=st.sampled_from([-1, 0]), power=st.booleans(),
            wk=st.sampled_from(['array', 'int', 'scalar'])), quick=60)
def level_batches(c, t):
    """Band levels: any level, each band on its own, any form."""
    t.single = 1e-4  # parts work in single precision
    r = gen.rng(c['seed'])
    x = r.standard_normal((c['C'], c['n'])) * 10. ** r.integers(-6, 5, (
        c['C'], 1))
    if c['cplx']:
        x = x + 1j * r.standard_normal(x.shape) * np.abs(x)
    ax, p = c['axis'], c['power']
    m = x.shape[0] if ax == -1 else x.shape[1]
    w = r.integers(1, 2000, m)
    w = float(w[0]) if c['wk'] == 'scalar' else w if c['wk'] == 'int' \
        else w * 1.

    def f(v, w=w):
        return spa.process.subband_levels(v, w, 44100, power=p, axis=ax)
    t.nt(x.size > 1)
    y = f(x)
    e = np.sum(np.abs(x) ** 2, axis=ax) / w * 22050
    t.close(y, e / c['n'] if p else np.sqrt(e), 'levels', rtol=1e-9,
            atol=1e-300)
    for s in (1e-7, 1e-3, -1., 1e5):
        t.close(f(x * s) / (s * s if p else abs(s)), y, f'at level {s}',
                rtol=1e-9, atol=1e-300)
    t.forms(f, x, 'subband_levels')
    if np.ndim(w):
        t.forms(lambda v: f(x, v + 2000), w * 1., 'width')
        if ax == -1:
            t.rows(lambda i: f(x[i], w[i]), m, 'subband_levels', c['seed'])
        else:
            t.rows(lambda i: f(x[:, i] * (np.sqrt(len(i)) if p else 1),
                               w[i]), m, 'subband_levels', c['seed'])


@R.sub(dict(b=banks(), ty=st.sampled_from(['int', 'int64', 'float'])),
       quick=60)
def bank_arguments(c, t):
    """Number types of the arguments, their order, and refusals."""
    b = c['b']
    lo, fs = round(b['lo']), b['fs']
    F = spa.process.frac_octave_filterbank
    if lo * 2 >= min(fs // 2, b['hi'] or fs):
        t.skip('one band')
    kw = dict(f_high=b['hi'], mode=b['mode'] or 'energy',
              overlap=.5 if b['overlap'] is None else b['overlap'],
              slope_l=3 if b['slope'] is None else b['slope'])
    t.nt()
    cast = dict(int=int, int64=np.int64, float=float)[c['ty']]
    try:
        g, ff = F(b['n'], b['bins'], fs, float(lo), **kw)
    except (IndexError, ValueError):
        t.skip('bands collapse')
    t.same(F(cast(b['n']), b['bins'], fs, cast(lo), **kw), (g, ff), c['ty'])
    t.same(F(b['n'], np.int64(b['bins']), np.int64(fs), lo, b['hi'],
             kw['mode'], kw['overlap'], kw['slope_l']), (g, ff), 'positional')
    t.raises(ValueError, lambda: F(b['n'], b['bins'], fs, lo, b['hi'],
                                   mode='intensity'), 'unknown mode')
    t.raises(AssertionError, lambda: F(b['n'], b['bins'], fs, lo, b['hi'],
                                       overlap=.51), 'overlap')
