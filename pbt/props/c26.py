"""C26 resampling of signals, spectra and HRIR sets."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C26', 'sums of sinusoids below 0.8 of both Nyquist '
                  'frequencies, pulses, rate pairs up and down, 1-D and 2-D '
                  'arrays along both axes; non-trivial: different rates')
PAIRS = [[44100, 48000], [48000, 44100], [48000, 96000], [96000, 48000],
         [48000, 16000], [16000, 48000], [44100, 96000], [8000, 11025],
         [100, 101], [3, 2], [48000, 192000], [44100, 192000],
         [192000, 48000], [96000, 192000], [48000, 48000],
         # close to each other, and fractional (clock drift, pull-down)
         [48000, 47999], [47952, 48000], [1000, 1001], [47952.048, 48000.],
         [44099.5, 48000], [48000, 44100.25], [1.5, 3.], [.5, 1], [3, 1.5]]
pairs = st.sampled_from(PAIRS)


def length(n, a, b):
    return int(n * float(b) / float(a))


def longer(a, b):
    return max(1, int(a // b))


def tones(c, n):
    """-> function of time in seconds giving (C, time)."""
    a, b = c['fs']
    r = gen.rng(c['seed'])
    f = r.uniform(0, .4, (c['C'], 3)) * min(a, b)
    ph, am = r.uniform(0, 2 * np.pi, f.shape), r.uniform(.2, 1, f.shape)
    return lambda t: np.sum(am[..., None] * np.cos(
        2 * np.pi * f[..., None] * t + ph[..., None]), axis=1)


@R.sub(dict(seed=gen.seeds, fs=pairs, C=st.integers(1, 4),
            n=st.integers(500, 900), axis=st.sampled_from([None, -1, 1, 0]),
            flat=st.booleans()), quick=120)
def sinusoids(c, t):
    """resample_signal keeps tones in frequency, amplitude, phase, position
    and row."""
    a, b = c['fs']
    n = c['n'] * longer(a, b)
    s = tones(c, n)
    x = s(np.arange(n) / a)
    one = c['C'] == 1 and c['flat']
    kw = {} if c['axis'] is None else {'axis': c['axis']}
    arg = x[0] if one else x
    if c['axis'] == 0:
        if c['C'] == 1:
            t.skip('single row')
        arg = x.T
    keep = arg.copy()
    y = spa.process.resample_signal(arg, a, b, **kw)
    t.close(arg, keep, 'argument changed', rtol=0, atol=0)
    if c['axis'] == 0:
        y = y.T
    t.nt(a != b)
    t.label(f'{a} to {b}')
    m = length(n, a, b)
    t.require(y.shape == ((m,) if c['C'] == 1 else (c['C'], m)),
              f'shape {y.shape}, {m} samples expected')
    want = s(np.arange(m) / b)
    y = np.atleast_2d(y)
    if a == b:
        t.close(y, x, 'same rate', rtol=0, atol=0)
        return
    g = int(np.ceil(66 * max(1, b / a)))
    t.close(y[:, g:-g], want[:, g:-g], 'tones', rtol=0, atol=3e-3)


@R.sub(dict(seed=gen.seeds, fs=st.sampled_from([p for p in PAIRS
                                                if p[0] != p[1]]),
            n=st.integers(500, 800)), quick=60)
def limits(c, t):
    """Silence stays silent, tones above the target's range vanish, single
    samples stay in place, and the operation is linear."""
    a, b = c['fs']
    n = c['n'] * longer(a, b)
    r = gen.rng(c['seed'])
    f = spa.process.resample_signal
    t.nt()
    t.close(f(np.zeros(n), a, b), np.zeros(length(n, a, b)), 'silence')
    x, y = r.standard_normal((2, n))
    t.close(f(2 * x - y, a, b), 2 * f(x, a, b) - f(y, a, b), 'linear',
            rtol=1e-6, atol=1e-6)
    t.linear(lambda v: f(v, a, b), x, 'resampled', columns=False)
    k = int(r.integers(100, n - 100))
    p = np.zeros(n)
    p[k] = 1
    peak = np.argmax(f(p, a, b))
    t.require(abs(peak - k * b / a) <= .5 + .5 * b / a,
              f'pulse moved from {k / a} s to {peak / b} s')
    if b < .9 * a:
        w = r.uniform(b / 2 * 1.02, min(a / 2, b), 1)
        z = f(np.cos(2 * np.pi * w / a * np.arange(n)), a, b)
        g = 66
        t.require(np.max(np.abs(z[g:-g])) < 2e-2,
                  f'alias of {np.max(np.abs(z[g:-g]))}')


def burst(r, n, fs, top):
    """Band-limited pulse in the middle of the signal and its function."""
    f, ph = r.uniform(.1, .7) * top / 2, r.uniform(0, 6)
    mid, w = .5 * n / fs, 8 / top
    return lambda u: np.exp(-((u - mid) / w) ** 2) * \
        np.cos(2 * np.pi * f * (u - mid) + ph)


@R.sub(dict(seed=gen.seeds, fs=pairs, C=st.integers(1, 3),
            n=st.integers(150, 400), axis=st.sampled_from([None, -1, 1, 0]),
            flat=st.booleans()), quick=100)
def spectra(c, t):
    """resample_spectrum: the spectrum of the resampled signal."""
    a, b = c['fs']
    n = 2 * c['n']
    r = gen.rng(c['seed'])
    fs = [burst(r, n, a, min(a, b)) for _ in range(c['C'])]
    X = np.fft.rfft([f(np.arange(n) / a) for f in fs])
    arg, kw = X, {}
    if c['axis'] is not None:
        kw['axis'] = c['axis']
    if c['axis'] == 0:
        if c['C'] == 1:
            t.skip('single row')
        arg = X.T
    elif c['C'] == 1 and c['flat']:
        arg = X[0]
    Y = spa.process.resample_spectrum(arg, a, b, **kw)
    if c['axis'] == 0:
        Y = Y.T
    t.nt(a != b)
    m = length(n, a, b)
    want = np.fft.rfft([f(np.arange(m) / b) for f in fs])
    if c['C'] == 1:
        want = want[0]
    t.close(Y, want, 'spectrum', rtol=0, atol=3e-3 * np.max(np.abs(want)))
    # at common frequencies, per sample of duration
    if n * b % a == 0 and a != b:
        k = int(.35 * n * min(a, b) / a)
        t.label('common frequencies')
        t.close(np.atleast_2d(Y)[:, :k] / b, X[:, :k] / a,
                'common frequencies', rtol=0,
                atol=3e-3 * np.max(np.abs(X)) / a)


@R.sub(dict(seed=gen.seeds, fs=pairs, g=st.integers(1, 6),
            n=st.integers(150, 400), jobs=st.sampled_from([None, 1, 1, 1])),
       quick=60)
def hrir_sets(c, t):
    """resample_hrirs: per direction and ear, with the new rate."""
    a, b = c['fs']
    r = gen.rng(c['seed'])
    n, g = c['n'], c['g']
    fs = [[burst(r, n, a, min(a, b)) for _ in range(g)] for _ in (0, 1)]
    x = np.array([[f(np.arange(n) / a) for f in e] for e in fs])
    keep = x.copy()
    kw = {} if c['jobs'] is None else {'jobs_count': c['jobs']}
    left, right, fs_new = spa.process.resample_hrirs(x[0], x[1], a, b, **kw)
    t.nt(a != b)
    t.close(x, keep, 'HRIRs changed', rtol=0, atol=0)
    t.require(fs_new == b, f'rate {fs_new}')
    m = length(n, a, b)
    want = np.array([[f(np.arange(m) / b) for f in e] for e in fs])
    t.close(left, want[0], 'left', rtol=0, atol=3e-3)
    t.close(right, want[1], 'right', rtol=0, atol=3e-3)


@R.sub(dict(seed=gen.seeds, fs=pairs, C=st.integers(1, 3),
            n=st.integers(500, 700)), quick=40)
def objects(c, t):
    """Signal objects are resampled in place, with their rate."""
    a, b = c['fs']
    n = c['n'] * longer(a, b)
    s = tones(c, n)
    x = s(np.arange(n) / a)
    o = spa.sig.MonoSignal(x[0], a) if c['C'] == 1 else \
        spa.sig.MultiSignal([*x], fs=a)
    o.resample(b)
    t.nt(a != b)
    t.require(o.fs == b, f'rate {o.fs}')
    y = o.signal[None] if c['C'] == 1 else o.get_signals()
    m = length(n, a, b)
    g = int(np.ceil(66 * max(1, b / a)))
    t.require(y.shape == (c['C'], m), f'shape {y.shape}')
    t.close(y[:, g:-g], s(np.arange(m) / b)[:, g:-g], 'tones', rtol=0,
            atol=3e-3)


@R.sub(dict(seed=gen.seeds, fs=pairs, C=gen.block, n=st.integers(40, 130),
            jobs=st.sampled_from([1, 1, 1, 1, 2]), ty=st.sampled_from(
                [int, float, np.int64, np.float64]).map(
                    lambda k: k.__name__)), quick=30, weight=2,
       examples=[dict(seed=5, fs=[48000, 96000], C=19, n=60, jobs=2,
                      ty='int')])
def batches(c, t):
    """Channels, directions and spectra one by one, at any level and in any
    form; several jobs give what one gives."""
    a, b = c['fs']
    n = max(c['n'] * longer(a, b), 60)
    n += n % 2
    r = gen.rng(c['seed'])
    C = c['C'] if n < 300 else min(c['C'], 20)
    lev = 10. ** r.integers(-6, 4, (C, 1))
    x = r.standard_normal((C, n)) * lev
    ty = dict(int=int, float=float, int64=np.int64,
              float64=np.float64)[c['ty']]
    if a % 1 == b % 1 == 0:
        a, b = ty(a), ty(b)
    P = spa.process
    t.nt(a != b)
    t.label(f'{C} rows')

    def sig(v):
        return np.atleast_2d(P.resample_signal(v, a, b))

    def hrirs(v):
        # the same, and reversed, as the other ear
        p, q, f = P.resample_hrirs(v, v[::-1], a, b)
        t.require(f == b, f'rate {f}')
        t.close(q, p[::-1], 'ears', rtol=1e-9, atol=0)
        return p

    def spec(v):
        return np.atleast_2d(P.resample_spectrum(v, a, b))
    t.rows(lambda i: sig(x[i] / lev[i]), C, 'resample_signal', c['seed'])
    t.rows(lambda i: P.resample_signal(x[i].T, a, b, axis=0).reshape(
        -1, len(i)) / lev[i].T, C, 'resample_signal, columns', c['seed'],
        axis=1) if len(x) > 1 and a != b else None
    t.rows(lambda i: hrirs(x[i] / lev[i]), C, 'resample_hrirs', c['seed'])
    X = np.fft.rfft(x / lev)
    t.rows(lambda i: spec(X[i]), C, 'resample_spectrum', c['seed'],
           atol=1e-9)
    for f, v, nm in ((sig, x, 'signal'), (hrirs, x, 'hrirs'),
                     (spec, X * lev, 'spectrum')):
        y = f(v)
        e = f(v / lev)
        t.close(y / lev, e, f'{nm}: level per row', rtol=1e-9,
                atol=1e-9 * np.max(np.abs(e)))
        t.linear(f, v, nm, columns=False)
        t.forms(f, v[:5] / lev[:5], nm, ints=False)
        if nm != 'spectrum':
            # the interpolator works in single precision for these
            k = np.rint(v[:5] / lev[:5] * 100)
            e = f(k)
            for ty in (np.int64, np.int16, np.float32):
                t.close(f(k.astype(ty)), e, f'{nm}: {ty.__name__}', rtol=0,
                        atol=1e-5 * np.max(np.abs(e)))
    if c['jobs'] > 1:
        y = P.resample_hrirs(x, x[::-1], a, b, jobs_count=c['jobs'])
        z = P.resample_hrirs(x, x[::-1], a, b)
        t.same(y, z, 'several jobs', rtol=1e-9)
