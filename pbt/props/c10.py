"""C10 pseudo intensity."""
import numpy as np
from scipy import signal
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C10', 'B-format signals of 20..900 samples, odd windows, '
                  'smoothing orders, band limits; non-trivial: at least one '
                  'full window')
base = dict(n=st.one_of(*[st.integers(20, 200)] * 4, st.integers(200, 900)),
            win=st.sampled_from([3, 5, 9, 15, 33, 65]),
            smooth=st.sampled_from([0, 1, 3, 5, 7, 9]), seed=gen.seeds,
            f_bp=st.sampled_from([None, None, (100., 5000.), (2000., 9000.)]),
            fs=st.sampled_from([44100, 48000, 32000]))
AZI = np.pi


def model(b, win_len, smooth, f_bp, fs):
    """(n, 3) intensity vectors and the mask of judged samples."""
    W, X, Y, Z = [np.asarray(x, float) for x in b]
    if f_bp is not None:
        bb, aa = signal.butter(2, np.array(f_bp) / (fs / 2), 'bandpass')
        W, X, Y, Z = [signal.filtfilt(bb, aa, x) for x in (W, X, Y, Z)]
    n = len(W)
    win = np.hanning(win_len)
    h = win_len // 2
    I = np.zeros((n, 3))
    for i in range(n - win_len):
        for k, V in enumerate((X, Y, Z)):
            I[i + h, k] = np.sum(win * W[i:i + win_len] * V[i:i + win_len])
    # the very last full window may or may not be used
    judged = np.ones(n, bool)
    last = n - win_len + h
    if 0 <= n - win_len:
        s = max(smooth // 2, 0)
        judged[max(last - s, 0):last + s + 1] = False
    if smooth > 0:
        k = np.hanning(smooth)
        I = np.stack([np.convolve(I[:, j], k, 'full')[
            smooth // 2:smooth // 2 + n] for j in range(3)], axis=1)
    return I, judged


def run(b, c, **kw):
    amb = spa.sig.AmbiBSignal([*b], fs=c['fs'])
    bp = None if c['f_bp'] is None else tuple(c['f_bp'])
    return spa.parsa.pseudo_intensity(amb, win_len=c['win'], f_bp=bp,
                                      smoothing_order=c['smooth'], **kw)


def compare(I, judged, azi, zen, r, t, what):
    rr = np.linalg.norm(I, axis=1)
    sc = max(np.max(rr), 1e-300)
    j = judged
    t.close(r[j], rr[j], f'{what}: magnitude', atol=1e-9 * sc)
    ok = j & (rr > 1e-6 * sc)
    v = ref.cart(azi[ok], zen[ok])
    t.close(v, I[ok] / rr[ok, None], f'{what}: direction', atol=1e-5)
    t.require(np.all(np.isfinite(azi)) and np.all(np.isfinite(zen)),
              f'{what}: undefined angles')
    return ok


@R.sub(dict(base, src=gen.direction, level=st.sampled_from([1., 1e-3, 40.]),
            kind=st.sampled_from(['noise', 'impulses'])), quick=150)
def plane_wave(c, t):
    """The direction of the wave wherever there is signal."""
    r = gen.rng(c['seed'])
    s = r.standard_normal(c['n']) * c['level']
    if c['kind'] == 'impulses':
        s[r.uniform(size=c['n']) < .8] = 0.
    azi, zen = c['src']
    b = s * np.r_[1., ref.cart(azi, zen)][:, None]
    bp = c['f_bp'] and tuple(c['f_bp'])
    I, j = model(b, c['win'], c['smooth'], bp, c['fs'])
    rr = np.linalg.norm(I, axis=1)
    t.nt(c['n'] > c['win'] and np.any(rr > 0))
    t.label(f"smooth {c['smooth']}")
    A, Z, Rr = run(b, c)
    t.require(len(A) == len(Z) == len(Rr) == c['n'], 'length')
    ok = compare(I, j, A, Z, Rr, t, 'model')
    t.close(ref.cart(A[ok], Z[ok]),
            np.tile(ref.cart(azi, zen), (int(np.sum(ok)), 1)),
            'direction of the wave', atol=1e-4)


@R.sub(dict(base, gain=st.sampled_from([.25, 3., -2., 1e-6, 1e-3,
                                                  1e4])), quick=100)
def reference_model(c, t):
    """Any sound field: windowed product of pressure and velocity."""
    r = gen.rng(c['seed'])
    b = r.standard_normal((4, c['n']))
    keep = b.copy()
    bp = c['f_bp'] and tuple(c['f_bp'])
    t.nt(c['n'] > c['win'])
    I, j = model(b, c['win'], c['smooth'], bp, c['fs'])
    A, Z, Rr = run(b, c)
    compare(I, j, A, Z, Rr, t, 'model')
    t.close(b, keep, 'input changed', atol=0, rtol=0)
    A2, Z2, R2 = run(c['gain'] * b, c)
    sc = np.max(np.abs(I)) or 1.
    t.close(R2, c['gain'] ** 2 * Rr, 'square of the level', rtol=1e-7,
            atol=1e-7 * sc * c['gain'] ** 2)
    # (below 1e-14 the zenith is steered to the horizon)
    ok = j & (Rr > 1e-5 * sc) & (R2 > 1e-13)
    t.close(ref.cart(A2[ok], Z2[ok]), ref.cart(A[ok], Z[ok]),
            'direction at another level', atol=1e-5)
    # no window reaches the ends
    h = c['win'] // 2 - max(c['smooth'] // 2, 0)
    if h > 0 and c['smooth'] in (0, 1, 3, 5):
        t.close(Rr[:h], np.zeros(min(h, c['n'])), 'begin', atol=1e-12)


@R.sub(dict(base, jobs=st.sampled_from([2, 3, 5])), quick=6, thorough=120)
def parallel(c, t):
    """Jobs do not matter."""
    r = gen.rng(c['seed'])
    b = r.standard_normal((4, c['n']))
    t.nt(c['n'] > c['win'])
    bp = c['f_bp'] and tuple(c['f_bp'])
    I, j = model(b, c['win'], c['smooth'], bp, c['fs'])
    A, Z, Rr = run(b, c, jobs_count=c['jobs'])
    compare(I, j, A, Z, Rr, t, f"{c['jobs']} jobs")


@R.sub(dict(n=st.integers(1, 60), win=st.integers(1, 40),
            smooth=st.integers(-2, 12), seed=gen.seeds), quick=60)
def even_lengths_refused(c, t):
    """Even windows or smoothing orders are rejected, odd ones accepted;
    silence has zero intensity and finite angles."""
    b = np.zeros((4, c['n']))
    amb = spa.sig.AmbiBSignal([*b], fs=48000)

    def call():
        return spa.parsa.pseudo_intensity(amb, win_len=c['win'],
                                          smoothing_order=c['smooth'])
    t.nt(True)
    if c['win'] % 2 == 0 or (c['smooth'] > 0 and c['smooth'] % 2 == 0):
        t.raises(AssertionError, call, 'even length')
        return
    if c['smooth'] > c['n']:
        t.skip('smoothing longer than the signal')
    A, Z, Rr = call()
    t.close(Rr, np.zeros(c['n']), 'silence')
    t.require(np.all(np.isfinite(A)) and np.all(np.isfinite(Z)), 'angles')


@R.sub(dict(n=st.integers(30, 2300), win=st.sampled_from([3, 9, 33]),
            smooth=st.sampled_from([0, 3, 5]), seed=gen.seeds), quick=25,
       thorough=300)
def local(c, t):
    """The intensity of a sample does not depend on signal that is further
    away than the window and the smoothing; long signals are cut anywhere."""
    n, win, sm = c['n'], c['win'], c['smooth']
    r = gen.rng(c['seed'])
    b = r.standard_normal((4, n)) * 10. ** r.uniform(-3, 3)
    c = dict(c, fs=48000, f_bp=None)
    m = win + sm
    i = int(r.integers(0, n))
    j = int(min(n, i + 3 * m + 10))
    t.nt(j - i > 2 * m + 2)
    A, Z, Q = run(b, c)
    a, z, q = run(b[:, i:j], c)
    k = slice(m, j - i - m)
    if j - i > 2 * m:
        sc = max(np.max(Q), 1e-300)
        t.close(q[k], Q[i:j][k], 'magnitude of a section',
                atol=1e-9 * sc)
        ok = Q[i:j][k] > 1e-6 * sc
        t.close(ref.cart(a[k][ok], z[k][ok]),
                ref.cart(A[i:j][k][ok], Z[i:j][k][ok]),
                'direction in a section', atol=1e-6)
    if n < 400:
        def f(x):
            o = run(x, c)
            return o[2] * ref.cart(o[0], o[1]).T
        t.forms(f, b, 'signals', rtol=1e-6, atol=1e-6)
