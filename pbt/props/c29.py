"""C29 interaural level and time differences, common transfer function."""
from functools import partial

import numpy as np
from hypothesis import strategies as st
from scipy import signal
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C29', 'random decaying HRIR sets of 2..10 directions, '
                  'known gains and delays; non-trivial: the built in cue is '
                  'not zero / the set is coloured')
FS = st.sampled_from([44100, 48000, 96000])


def pulse(r, n=64):
    c = r.normal(size=n) * np.exp(-np.arange(n) / r.uniform(4, 12))
    c[0] += 3
    return c


def make(L, Rr, fs, r):
    azi, zen = r.uniform(0, 2 * np.pi, len(L)), np.arccos(
        r.uniform(-1, 1, len(L)))
    return spa.sig.HRIRs(L, Rr, azi, zen, fs)


def noise_set(c):
    r = gen.rng(c['seed'])
    G, n = c['G'], c['taps']
    env = np.exp(-np.arange(n) / (n / 6))
    L, Rr = r.normal(size=(2, G, n)) * env
    return make(L, Rr, c['fs'], r), r


base = dict(seed=gen.seeds, G=st.integers(2, 10),
            taps=st.sampled_from([128, 200, 255, 256, 512]), fs=FS)


@R.sub(dict(base, db=st.booleans(),
            cut=st.sampled_from([None, [500, 8000], [2000, 16000]])),
       quick=200)
def level(c, t):
    """Gain of an ear, swapped ears, and each direction on its own."""
    h, r = noise_set(c)
    kw = {} if c['cut'] is None else {'f_cut': tuple(c['cut'])}
    if not c['db']:
        kw['TODB'] = False
    keep = h.left.copy(), h.right.copy()
    f = spa.process.ilds_from_hrirs
    ild = f(h, **kw)
    t.nt(True)
    t.label('dB' if c['db'] else 'difference')
    t.require(np.shape(ild) == (c['G'],), f'shape {np.shape(ild)}')
    t.close(h.left, keep[0], 'left changed', rtol=0, atol=0)
    t.close(h.right, keep[1], 'right changed', rtol=0, atol=0)
    sw = spa.sig.HRIRs(h.right, h.left, h.azi, h.zen, h.fs)
    t.close(f(sw, **kw), -ild, 'swapped ears', atol=1e-8)
    same = spa.sig.HRIRs(h.left, h.left, h.azi, h.zen, h.fs)
    t.close(f(same, **kw), np.zeros(c['G']), 'equal ears', atol=1e-8)
    g = 10 ** r.uniform(-1, 1, c['G'])
    lo = spa.sig.HRIRs(h.left * g[:, None], h.right, h.azi, h.zen, h.fs)
    if c['db']:
        t.close(f(lo, **kw), ild + 20 * np.log10(g), 'gain of the left ear',
                atol=1e-7)
    own = spa.sig.HRIRs(h.left * g[:, None], h.left, h.azi, h.zen, h.fs)
    a = f(own, **kw)
    t.require(np.array_equal(np.sign(a), np.sign(np.log10(g))),
              'positive when the left ear is louder')
    both = spa.sig.HRIRs(h.left * 3, h.right * 3, h.azi, h.zen, h.fs)
    t.close(f(both, **kw), ild if c['db'] else 3 * ild, 'common gain',
            atol=1e-8)
    p = r.permutation(c['G'])
    pm = spa.sig.HRIRs(h.left[p], h.right[p], h.azi[p], h.zen[p], h.fs)
    t.close(f(pm, **kw), ild[p], 'order of the directions', atol=1e-8)


@R.sub(dict(seed=gen.seeds, fs=FS, gl=gen.floats(-18, 18),
            gh=gen.floats(-18, 18), band=st.sampled_from(['default', 'low',
                                                          'high'])),
       quick=120)
def level_band(c, t):
    """Only the band counts: two bursts with different level differences."""
    fs, n = c['fs'], 4096
    w = np.hanning(n)
    tt = np.arange(n) / fs
    lo, hi = w * np.cos(2 * np.pi * 150 * tt), w * np.cos(
        2 * np.pi * 5000 * tt)
    if c['band'] == 'low':
        kw, g, atol = {'f_cut': (60, 400)}, c['gl'], .5
    else:
        kw, g, atol = {}, c['gh'], .5
        if c['band'] == 'high':
            kw = {'f_cut': (2e3, 12e3)}
    dis = .02 if c['band'] == 'default' else .1
    A, B = (1, dis) if c['band'] == 'low' else (dis, 1)
    L = A * lo * 10 ** (c['gl'] / 20) + B * hi * 10 ** (c['gh'] / 20)
    Rr = A * lo + B * hi
    t.nt(abs(c['gl'] - c['gh']) > 2)
    t.label(c['band'])
    h = spa.sig.HRIRs(np.array([L, Rr]), np.array([Rr, Rr]), [0., 1.],
                      [1., 1.], fs)
    ild = spa.process.ilds_from_hrirs(h, **kw)
    t.close(ild, [g, 0.], 'level difference of the band', atol=atol)
    lin = spa.process.ilds_from_hrirs(h, TODB=False, **kw)
    q = np.sqrt(np.mean((w * np.cos(2 * np.pi * 5000 * tt)) ** 2))
    t.close(lin, [q * (10 ** (g / 20) - 1), 0.], 'RMS difference',
            rtol=.15, atol=.1 * q)


@R.sub(dict(seed=gen.seeds, fs=FS, lo=gen.floats(200, 6e3),
            ratio=gen.floats(1.3, 30), default=st.booleans(),
            lev=gen.levels), quick=120)
def passband(c, t):
    """Cutoff frequencies are where the band ends: the level difference of a
    tone in one ear alone shows how much of it counts."""
    fs, n = c['fs'], 8192
    lo, hi = (1e3, 20e3) if c['default'] else \
        (c['lo'], min(c['lo'] * c['ratio'], .44 * fs))
    w = np.hanning(n)
    tt = np.arange(n) / fs
    # the frequency of a digital band-pass that is its centre
    warp = np.tan(np.pi * np.array([lo, hi]) / fs)
    mid = np.arctan(np.sqrt(warp[0] * warp[1])) * fs / np.pi
    f = np.array([mid, lo, hi, lo / 4, lo / 64])
    x = c['lev'] * w * np.cos(2 * np.pi * f[:, None] * tt)
    h = spa.sig.HRIRs(x, 0 * x, np.arange(5.), np.ones(5), fs)
    kw = {} if c['default'] else {'f_cut': (lo, hi)}
    g = spa.process.ilds_from_hrirs(h, TODB=False, **kw) / np.sqrt(
        np.mean((c['lev'] * w) ** 2) / 2)
    t.nt()
    t.label('default' if c['default'] else 'own limits')
    t.close(g[0], 1., 'centre of the band', rtol=.05)
    t.require(np.all((g[1:3] > .4) & (g[1:3] < .8)), f'{g[1:3]} at the '
              'cutoff frequencies')
    t.require(g[3] < .3 and g[4] < .03, f'{g[3:]} below the band')


@R.sub(dict(seed=gen.seeds, G=st.integers(2, 8), fs=FS,
            taps=st.sampled_from([256, 300, 301, 512, 513]),
            up=st.sampled_from([None, 1, 2, 3, 4, 8])), quick=150)
def time_difference(c, t):
    """The delay between the ears, positive when left comes first."""
    r = gen.rng(c['seed'])
    G, n, fs = c['G'], c['taps'], c['fs']
    D = r.integers(-80, 81, G)
    L, Rr = np.zeros((2, G, n))
    for g in range(G):
        p = pulse(r)
        a = n // 2 - 20 - D[g] // 2
        L[g, a:a + len(p)] = p * r.uniform(.3, 1)
        Rr[g, a + D[g]:a + D[g] + len(p)] = p * r.uniform(.3, 1)
    kw = {} if c['up'] is None else {'upsample': c['up']}
    step = 1 / (fs * (c['up'] or 4))
    h = make(L, Rr, fs, r)
    f = spa.process.itds_from_hrirs
    itd = f(h, **kw)
    t.nt(np.any(D != 0))
    t.label(f"upsampling {c['up']}")
    t.close(itd, D / fs, 'time difference', rtol=0, atol=1.01 * step)
    sw = f(spa.sig.HRIRs(Rr, L, h.azi, h.zen, fs), **kw)
    t.close(sw, -D / fs, 'swapped ears', rtol=0, atol=1.01 * step)
    t.close(h.left, L, 'left changed', rtol=0, atol=0)


@R.sub(dict(seed=gen.seeds, fs=st.sampled_from([44100, 48000]),
            dl=gen.floats(-30, 30), dh=st.integers(-30, 30),
            hi=st.booleans(), up=st.sampled_from([None, 2, 4])), quick=120)
def time_band(c, t):
    """Fractional delays, in the band that is selected."""
    fs, n = c['fs'], 512
    k = np.arange(n) - n / 2

    def burst(d, f, width):
        x = k - d
        return np.exp(-.5 * (x / width) ** 2) * np.cos(2 * np.pi * f / fs * x)

    a, b = (.1, 1) if c['hi'] else (1, .1)
    lo, hi = 30, 10
    L = a * burst(-c['dl'] / 2, 600, lo) + b * burst(-c['dh'] / 2, 9000, hi)
    Rr = a * burst(c['dl'] / 2, 600, lo) + b * burst(c['dh'] / 2, 9000, hi)
    kw = {} if c['up'] is None else {'upsample': c['up']}
    if c['hi']:
        kw['f_cut'] = (5e3, 14e3)
    d = c['dh'] if c['hi'] else c['dl']
    t.nt(abs(c['dl'] - c['dh']) > 4)
    t.label('high band' if c['hi'] else 'default band')
    h = spa.sig.HRIRs(np.array([L, Rr]), np.array([Rr, L]), [0., 1.],
                      [1., 1.], fs)
    itd = spa.process.itds_from_hrirs(h, **kw)
    t.close(itd * fs, [d, -d], 'delay in samples', rtol=0,
            atol=1.5 / (c['up'] or 4) + .1)


def colour(r, fs, n, amp):
    f = np.fft.rfftfreq(4096, 1 / fs)
    lf = np.log2(np.maximum(f, 60) / 1000)
    db = sum(r.uniform(-1, 1) * amp * np.cos(
        2 * np.pi * lf / r.uniform(5, 9) + r.uniform(0, 6)) for _ in range(3))
    mag = 10 ** (db / 20)
    h = signal.minimum_phase(np.fft.fftshift(np.fft.irfft(mag ** 2)))
    return h[:n]


def coloured(c, G=None, r=None):
    r = r or gen.rng(c['seed'])
    fs, n = c['fs'], c['taps']
    v = spa.grids.load_t_design(c.get('deg', 6))
    azi, zen, _ = ref.sph(v)
    h = colour(r, fs, n // 2, c['amp'])
    L, Rr = np.zeros((2, len(v), n))
    for X in (L, Rr):
        for x in X:
            d = r.integers(0, 20)
            x[d:d + len(h)] = r.uniform(.3, 1.5) * h
    return spa.sig.HRIRs(L, Rr, azi, zen, fs)


def spectrum(h, lo, hi, w=None):
    f = np.fft.rfftfreq(16384, 1 / h.fs)
    p = np.average(np.abs(np.fft.rfft(h.left, 16384)) ** 2 +
                   np.abs(np.fft.rfft(h.right, 16384)) ** 2, axis=0,
                   weights=w)
    s = (f > lo) & (f < hi)
    return 10 * np.log10(p[s]), f[s]


eqbase = dict(seed=gen.seeds, fs=FS, taps=st.sampled_from([200, 255, 256]),
              amp=gen.floats(1, 3))


@R.sub(dict(eqbase, minph=st.sampled_from([None, True, False]),
            auto=st.booleans()), quick=24, weight=3)
def flattens(c, t):
    """The diffuse response of the equalised set is flat, its level stays
    that at 1 kHz."""
    h = coloured(c)
    a, f = spectrum(h, 300, 8e3)
    keep = h.left.copy(), h.right.copy()
    kw = {} if c['minph'] is None else {'MIN_PHASE': c['minph']}
    eq = spa.process.hrirs_ctf(h, **kw)
    t.close(h.left, keep[0], 'left changed', rtol=0, atol=0)
    t.require(np.shape(eq) == (c['taps'],), f'shape {np.shape(eq)}')
    n = c['taps']
    g = h.copy()
    if c['auto'] and c['minph'] is None:
        g.apply_ctf_eq()
    else:
        g.apply_ctf_eq(eq)
    t.nt(a.std() > .5)
    t.require(g.num_samples == 2 * n - 1 == g.left.shape[1],
              f'{g.num_samples} samples')
    for x, y in ((g.left, keep[0]), (g.right, keep[1])):
        t.close(x, np.array([np.convolve(q, eq) for q in y]), 'convolution',
                atol=1e-8 * np.abs(y).max())
    b, _ = spectrum(g, 300, 8e3)
    t.require(b.std() < .4 * a.std() + .15, f'spread {a.std():.2f} dB '
              f'before and {b.std():.2f} dB after equalisation')
    k = np.argmin(np.abs(f - 1000))
    t.require(abs(b[k] - a[k]) < .3 * c['amp'] + .3, 'level at 1 kHz')
    # nothing happens outside of the limits
    E = 20 * np.log10(np.abs(np.fft.rfft(eq, 4096)))
    fe = np.fft.rfftfreq(4096, 1 / c['fs'])
    top = E[fe > .47 * c['fs']]
    t.require(np.abs(top).max() < 1.5, f'{top} dB above the limits')
    if c['minph'] is False:
        return
    e = np.cumsum(eq ** 2) / np.sum(eq ** 2)
    t.require(e[min(24, n - 1)] > .5, 'energy of a minimum phase filter')


@R.sub(dict(eqbase, how=st.sampled_from(['scale', 'weights', 'order', 'ears',
                                         'delay', 'subset', 'default'])),
       quick=30, weight=6)
def invariants(c, t):
    """The filter depends on the diffuse response only."""
    r = gen.rng(c['seed'])
    h = coloured(c, r=r)

    f = spa.process.hrirs_ctf
    if c['seed'] % 3:
        f = partial(f, MIN_PHASE=False)
    G = len(h.azi)
    how = c['how']
    t.nt(True)
    t.label(how)
    if how == 'subset':
        # directions of weight zero do not contribute
        other = coloured(dict(c, amp=3), r=r)
        m = np.arange(G) < G // 2
        both = spa.sig.HRIRs(np.where(m[:, None], h.left, other.left),
                             np.where(m[:, None], h.right, other.right),
                             h.azi, h.zen, h.fs)
        w = r.uniform(.5, 1.5, G) * m
        sub = spa.sig.HRIRs(h.left[m], h.right[m], h.azi[m], h.zen[m], h.fs)
        t.close(f(both, grid_weights=w), f(sub, grid_weights=w[m]),
                'directions without weight', atol=1e-7)
        return
    e = f(h)
    if how == 'default':
        w = spa.grids.calculate_grid_weights(h.azi, h.zen, 5)
        f = spa.process.hrirs_ctf
        t.close(f(h, MIN_PHASE=True, freq_lims=(125, 10e3), grid_weights=w),
                f(h), 'default arguments', atol=1e-9)
    elif how == 'scale':
        t.close(f(spa.sig.HRIRs(.01 * h.left, .01 * h.right, h.azi, h.zen,
                                h.fs)), e, 'level of the set', atol=1e-7)
    elif how == 'weights':
        w = r.uniform(.5, 1.5, G)
        a = f(h, grid_weights=w)
        t.close(f(h, grid_weights=7 * w), a, 'scaled weights', atol=1e-7)
    elif how == 'order':
        p = r.permutation(G)
        t.close(f(spa.sig.HRIRs(h.left[p], h.right[p], h.azi[p], h.zen[p],
                                h.fs)), e, 'order of directions', atol=1e-6)
    elif how == 'ears':
        t.close(f(spa.sig.HRIRs(h.right, h.left, h.azi, h.zen, h.fs)), e,
                'swapped ears', atol=1e-7)
    else:
        L = np.array([np.roll(x, k) for x, k in
                      zip(h.left, r.integers(0, 60, G))])
        t.close(f(spa.sig.HRIRs(L, h.right, h.azi, h.zen, h.fs)), e,
                'delays', atol=1e-6)


@R.sub(dict(eqbase, lims=st.sampled_from([[125, 10e3], [500, 4e3],
                                          [200, 15e3]])), quick=10, weight=6)
def limits(c, t):
    """Both phase versions have the same magnitude; inversion takes place
    between the limits and fades to none outside."""
    c = dict(c, taps=512, amp=c['amp'] + 1)
    h = coloured(c)
    w = np.ones(len(h.azi))
    kw = dict(freq_lims=tuple(c['lims']), grid_weights=w)
    a = spa.process.hrirs_ctf(h, **kw)
    b = spa.process.hrirs_ctf(h, MIN_PHASE=False, **kw)
    f = np.fft.rfftfreq(8192, 1 / c['fs'])
    A, B = [20 * np.log10(np.abs(np.fft.rfft(x, 8192))) for x in (a, b)]
    lo, hi = c['lims']
    s = (f > 500) & (f < .45 * c['fs'])
    t.nt(True)
    t.close(A[s], B[s], 'magnitudes of both versions', rtol=0, atol=1.)
    full = 20 * np.log10(np.abs(np.fft.rfft(spa.process.hrirs_ctf(
        h, freq_lims=(60, .4 * c['fs']), grid_weights=w), 8192)))
    s = (f > max(2 * lo, 400)) & (f < hi * .9)
    t.close(A[s], full[s], 'between the limits', rtol=0, atol=1.)
    own, fo = spectrum(h, 0, 1e6)
    s = (f > max(2 * lo, 300)) & (f < hi * .8)
    left = A[s] + np.interp(f[s], fo, own)
    t.require(np.ptp(left) < 2.5, f'{np.ptp(left):.2f} dB are left between '
              'the limits')
    t.require(np.abs(A[f > .48 * c['fs']]).max() < 1., 'above the limits')
    low = np.abs(A[f < lo / 8]).max()
    t.require(low < 1.5, f'{low:.2f} dB below the limits')


@R.sub(dict(seed=gen.seeds, G=gen.bulk, fs=FS, itd=st.booleans(),
            taps=st.sampled_from([96, 127, 200, 256]),
            lev=st.sampled_from([1e-6, 1e-3, 1., 1e3, 1e6])), quick=40)
def large_sets(c, t):
    """Each direction on its own for sets of any size and level; whatever the
    memory layout and number type of the responses."""
    r = gen.rng(c['seed'])
    G, n, fs = min(c['G'], 1500 if c['itd'] else 5000), c['taps'], c['fs']
    env = np.exp(-np.arange(n) / (n / 6))
    L, Rr = c['lev'] * r.normal(size=(2, G, n)) * env
    a, z = gen.rand_dirs(r, G)
    p = spa.process
    kw = {} if c['seed'] % 2 else {'f_cut': (300, 6000)}
    f = p.itds_from_hrirs if c['itd'] else p.ilds_from_hrirs
    t.nt(G > 20)
    t.label('time' if c['itd'] else 'level')

    def g(i, q=1., L=L, Rr=Rr):
        return f(spa.sig.HRIRs(q * L[i], q * Rr[i], a[i], z[i], fs), **kw)
    # equal maxima of the correlation are resolved by rounding
    t.rows(g, G, 'set', c['seed'], rtol=1e-8, atol=1e-9)
    i = np.arange(min(G, 30))
    y = g(i)
    for q in (1e-7, 1e-3, 1e4):
        t.same(g(i, q), y, f'level {q}', rtol=1e-6, atol=1e-8)
    if G < 3:
        return
    k = min(G, 12)

    def both(x):
        return f(spa.sig.HRIRs(x[0], x[1], a[:k], z[:k], fs), **kw)
    x = np.array([L[:k], Rr[:k]])
    y = both(x)
    for name, v in (('column major', np.asfortranarray(x)),
                    ('reversed', x[:, ::-1].copy()[:, ::-1]),
                    ('float32 values', x.astype(np.float32).astype(float)),
                    ('float32', x.astype(np.float32))):
        if name[:5] == 'float':
            t.close(both(v), y, name, rtol=0,
                    atol=2. / fs if c['itd'] else 1e-3)
        else:
            t.same(both(v), y, name, rtol=1e-7, atol=1e-9)
    xi = np.rint(x * 2000 / np.abs(x).max())
    t.same(both(xi.astype(int)), both(xi), 'whole numbers', rtol=1e-7,
           atol=1e-9)
    t.same(both(xi.astype(np.int16)), both(xi), '16 bit', rtol=1e-7,
           atol=1e-9)


@R.sub(dict(seed=gen.seeds, fs=FS, amp=gen.floats(1, 3),
            taps=st.sampled_from([200, 255, 256]),
            how=st.sampled_from(['level', 'int16', 'apply', 'layout'])),
       quick=16, weight=3)
def filter_forms(c, t):
    """The equalising filter of sets at any level, and of any number type;
    its application to any."""
    h = coloured(c)
    r = gen.rng(c['seed'])
    w = r.uniform(.5, 1.5, len(h.azi))
    f = partial(spa.process.hrirs_ctf, MIN_PHASE=False, grid_weights=w)

    def put(L, Q):
        return spa.sig.HRIRs(L, Q, h.azi, h.zen, h.fs)
    t.nt()
    t.label(c['how'])
    e = f(h)
    if c['how'] == 'level':
        for q in (1e-6, 1e-3, 300., 1e6):
            t.same(f(put(q * h.left, q * h.right)), e, f'level {q}',
                   rtol=1e-6, atol=1e-7)
    elif c['how'] == 'int16':
        m = 3e4 / max(np.abs(h.left).max(), np.abs(h.right).max())
        L, Q = np.rint(m * h.left), np.rint(m * h.right)
        a = f(put(L, Q))
        t.same(f(put(L.astype(np.int16), Q.astype(np.int16))), a, '16 bit',
               rtol=1e-6, atol=1e-7)
        t.same(f(put(L.astype(np.float32), Q.astype(np.float32))), a,
               'single precision', rtol=1e-3, atol=1e-4)
        t.close(a, e, 'quantised set', rtol=0, atol=.05 * np.abs(e).max())
    elif c['how'] == 'layout':
        t.same(f(put(np.asfortranarray(h.left),
                     h.right[:, ::-1].copy()[:, ::-1])), e, 'memory layout',
               rtol=1e-7, atol=1e-8)
    else:
        for q in (1e-6, 1., 1e5):
            g = put(q * h.left, q * h.right)
            g.apply_ctf_eq(e)
            for x, y in ((g.left, h.left), (g.right, h.right)):
                t.same(x / q, np.array([np.convolve(k, e) for k in y]),
                       f'applied at level {q}', rtol=1e-8, atol=1e-9)
        ei = np.rint(100 * e).astype(int)
        g = put(h.left, h.right)
        g.apply_ctf_eq(ei)
        t.same(g.left, np.array([np.convolve(k, ei) for k in h.left]),
               'integer filter', rtol=1e-8, atol=1e-9)
