"""C27 small signal tools."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

pr, ut = spa.process, spa.utils
R = core.Registry('C27', 'arrays of 1..400 values of any sign and scale, '
                  'orders 0..12, delays, thresholds, axes; non-trivial: more '
                  'than one value that is not zero')
scales = st.sampled_from([1., 1., 1e-6, 1e4])


@R.sub(dict(N=st.integers(0, 10), d=st.one_of(
    gen.floats(0., 1.), st.sampled_from([0., .5, 1.])), seed=gen.seeds),
    quick=150)
def lagrange(c, t):
    """Polynomials up to the order are delayed exactly."""
    N = c['N']
    d = c['d'] * N
    h = pr.lagrange_delay(N, d)
    t.nt(N > 0)
    t.require(h.shape == (N + 1,), f'shape {h.shape}')
    t.close(np.sum(h), 1., 'gain at DC')
    x = np.arange(-N, 30.)
    p = gen.rng(c['seed']).standard_normal(N + 1)
    q = np.polyval(p, (x - 10) / 10)
    y = np.convolve(q, h)[N:len(x)]
    t.close(y, np.polyval(p, (x[N:] - d - 10) / 10), 'delayed polynomial',
            rtol=1e-7, atol=1e-7)
    k = int(round(d))
    t.close(pr.lagrange_delay(N, k), np.eye(N + 1)[k], 'integer delay',
            atol=1e-12)
    # the mirrored delay has the mirrored filter
    t.close(pr.lagrange_delay(N, N - d), h[::-1], 'mirrored', rtol=1e-7,
            atol=1e-7)


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 60), th=gen.floats(.01, 50.),
            scale=scales, two=st.booleans()), quick=150)
def clipping(c, t):
    """Identity up to the threshold, then monotonic and below 6 dB."""
    th = c['th']
    r = gen.rng(c['seed'])
    g = np.sort(np.r_[r.uniform(-2, 6, c['n']) * th, th, 0., th * 1.0001,
                      c['scale'] * th])
    arg = np.stack([g, g]) if c['two'] else g
    keep = arg.copy()
    y = pr.gain_clipping(arg, th)
    t.close(arg, keep, 'argument changed', rtol=0, atol=0)
    t.require(y.shape == arg.shape, 'shape')
    if c['two']:
        t.close(y[0], y[1], 'rows')
        y = y[0]
    t.nt()
    low = g <= th
    t.close(y[low], g[low], 'below the threshold', rtol=1e-12, atol=1e-12)
    t.close(y[~low], th * (1 + np.tanh(g[~low] / th - 1)),
            'above the threshold', atol=1e-9 * th)
    t.require(np.all(np.diff(y) >= -1e-12 * th), 'not monotonic')
    t.require(np.all(y <= 2 * th * (1 + 1e-12)), 'more than 6 dB')


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 200), tail=st.integers(0, 5),
            scale=scales), quick=150)
def decay(c, t):
    """Share of the energy that is still to come, in dB."""
    r = gen.rng(c['seed'])
    n = c['n']
    p = r.standard_normal(n) * np.exp(-np.arange(n) / 40) * c['scale']
    p[r.integers(0, n)] += c['scale']
    if c['tail'] < n:
        p[n - c['tail']:] = 0
    if not np.any(p):
        t.skip('silence')
    keep = p.copy()
    with np.errstate(divide='ignore'):
        y = pr.energy_decay(p)
    t.close(p, keep, 'argument changed', rtol=0, atol=0)
    t.nt(n > 1)
    e = p ** 2
    with np.errstate(divide='ignore'):
        want = 10 * np.log10([e[i:].sum() / e.sum() for i in range(n)])
    t.close(y, want, 'decay', rtol=1e-8, atol=1e-8)
    t.close(y[0], 0., 'start', atol=1e-8)


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 100), C=st.integers(0, 4),
            C2=st.integers(0, 4), s1=scales, s2=scales), quick=150)
def loudness(c, t):
    """The loudest channel gets the level of the target's loudest channel,
    or the peak is one."""
    r = gen.rng(c['seed'])
    x = r.standard_normal((c['n'], c['C']) if c['C'] else c['n']) * c['s1']
    y = r.standard_normal((c['n'] + 3, c['C2']) if c['C2'] else c['n']) \
        * .2 * c['s2']
    keep = x.copy(), y.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        z = pr.match_loudness(x, y)
    t.close(x, keep[0], 'input changed', rtol=0, atol=0)
    t.close(y, keep[1], 'target changed', rtol=0, atol=0)
    t.nt(c['n'] > 1)

    def lev(v):
        return np.max(np.sqrt(np.mean(v ** 2, axis=0)))
    want = x * lev(y) / lev(x)
    if np.max(np.abs(want)) > 1:
        t.label('normalised')
        want = want / np.max(np.abs(want))
    t.close(z, want, 'matched', rtol=1e-9, atol=1e-14)
    t.require(np.max(np.abs(z)) <= 1 + 1e-9, 'clipped')


@R.sub(dict(N=st.integers(3, 300)), quick=60)
def window(c, t):
    """half_sided_Hann: ones, then the falling half of a Hann window."""
    N = c['N']
    w = pr.half_sided_Hann(N)
    t.nt()
    M = (N + 1) // 2
    want = np.ones(N + 1)
    want[N + 2 - M:] = .5 + .5 * np.cos(np.pi * np.arange(1, M) / M)
    t.close(w, want, 'window', atol=1e-12)


@R.sub(dict(seed=gen.seeds, a=st.integers(1, 60), b=st.integers(0, 40),
            f=st.integers(0, 30), reps=st.integers(1, 5),
            fs=st.sampled_from([100, 1000, 44100]), pink=st.booleans(),
            norm=st.booleans()), quick=120)
def pulses(c, t):
    """Length, pauses, fades, independence and level of noise pulses."""
    a, b, f, fs = c['a'], c['b'], min(c['f'], c['a']), c['fs']

    def make(f, norm=False, reps=c['reps']):
        np.random.seed(c['seed'] % 2**31)
        return pr.pulsed_noise((a + .5) / fs, (b + .5) / fs, fs, reps=reps,
                               t_fade=(f + .5) / fs if f else 0.,
                               pink_noise=c['pink'], normalize=norm)
    x = make(f)
    t.nt(a > 1)
    t.label('pink' if c['pink'] else 'white')
    t.require(x.shape == (c['reps'] * (a + b),), f'{x.shape} samples')
    y = x.reshape(c['reps'], a + b)
    t.require(np.all(y[:, a:] == 0), 'sound in the pause')
    t.require(np.all(np.isfinite(x)), 'finite')
    full = make(0).reshape(y.shape)
    m = np.ones(a)
    if f:
        u = np.linspace(0, np.pi / 2, f) if f > 1 else np.zeros(1)
        m[:f] *= np.sin(u) ** 2
        m[a - f:] *= np.cos(u) ** 2
    t.close(y[:, :a], full[:, :a] * m, 'fades', atol=1e-10)
    if c['reps'] > 1 and a > 3:
        t.require(not np.allclose(full[0, :a], full[1, :a]),
                  'pulses repeat')
    if np.max(np.abs(x)) > 0 and c['norm']:
        z = make(f, True)
        t.close(z, x / np.max(np.abs(x)), 'normalised', atol=1e-12)


@R.sub(dict(seed=gen.seeds, n=st.sampled_from([1000, 1023]),
            pink=st.booleans()), quick=8)
def spectra(c, t):
    """White pulses are flat, pink ones fall with 3 dB per octave."""
    np.random.seed(c['seed'])
    reps = 200
    x = pr.pulsed_noise(c['n'] / 1000 + 1e-6, 0, 1000, reps=reps, t_fade=0,
                        pink_noise=c['pink'], normalize=False)
    P = np.mean(np.abs(np.fft.rfft(x.reshape(reps, -1))) ** 2, 0) / c['n']
    k = np.arange(1, len(P) - 1)
    want = 1 / (k + 1) if c['pink'] else np.ones(len(k))
    t.nt()
    for lo, hi in ((1, 8), (8, 60), (60, 250), (250, 490)):
        s = (k >= lo) & (k < hi)
        q = np.mean(P[1:-1][s] / want[s])
        t.require(abs(q - 1) < .2, f'bins {lo}..{hi}: {q}')


@R.sub(dict(seed=gen.seeds, shape=st.lists(st.integers(1, 5), min_size=0,
                                           max_size=3), scale=scales,
            power=st.sampled_from([None, True, False]), z=st.booleans()),
       quick=120)
def decibel(c, t):
    """db and from_db for scalars and arrays, zero and negative values."""
    r = gen.rng(c['seed'])
    x = r.standard_normal(c['shape']) * c['scale']
    if c['z']:
        x = x * np.exp(1j)
    kw = {} if c['power'] is None else {'power': c['power']}
    k = 10 if c['power'] else 20
    t.nt(np.size(x) > 1)
    y = ut.db(x, **kw)
    t.close(y, k * np.log(np.abs(x)) / np.log(10), 'db')
    t.close(ut.from_db(y, **kw), np.abs(x), 'back')
    t.close(ut.db(ut.from_db(y, **kw), **kw), y, 'forth', atol=1e-8)
    t.close(ut.from_db(0., **kw), 1., 'zero dB')
    t.require(ut.db(0., **kw) == -np.inf, 'silence')
    t.close(ut.db(np.abs(x).tolist(), **kw), y, 'list')


@R.sub(dict(seed=gen.seeds, shape=st.lists(st.integers(1, 6), min_size=1,
                                           max_size=3), scale=scales,
            ax=st.integers(-3, 2), z=st.booleans(), off=st.booleans()),
       quick=120)
def mean_square(c, t):
    """rms along any axis, of real and complex values."""
    r = gen.rng(c['seed'])
    x = (r.standard_normal(c['shape']) + 2 * c['off']) * c['scale']
    if c['z']:
        x = x * np.exp(2j * r.standard_normal(c['shape']))
    nd = len(c['shape'])
    ax = (c['ax'] + 3) % nd - (nd if c['ax'] < 0 else 0)
    t.nt(np.size(x) > 1)
    want = np.sqrt(np.sum(np.abs(x) ** 2, axis=ax) / x.shape[ax])
    t.close(ut.rms(x, axis=ax), want, f'axis {ax}', rtol=1e-9,
            atol=1e-12 * c['scale'])
    want = np.sqrt(np.sum(np.abs(x) ** 2, axis=-1) / x.shape[-1])
    t.close(ut.rms(x), want, 'default axis', rtol=1e-9,
            atol=1e-12 * c['scale'])


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 6), n=st.integers(1, 9),
            ssr=st.booleans(), d=st.sampled_from([[0, 0], [0, 0], [1, 0],
                                                  [0, 1]])), quick=100)
def interleave(c, t):
    """Left and right channels alternate, mismatching sizes are refused."""
    r = gen.rng(c['seed'])
    C = 360 if c['ssr'] and c['seed'] % 2 else c['C']
    if c['ssr'] and c['seed'] % 8 < 4 and C != 360:
        C = [720, 361, 359, 180][c['seed'] // 8 % 4]
    a = r.standard_normal((C, c['n']))
    b = r.standard_normal((C + c['d'][0], c['n'] + c['d'][1]))
    kw = {'style': 'SSR'} if c['ssr'] else {}
    if any(c['d']) or (c['ssr'] and C != 360):
        t.label('refused')
        t.raises(ValueError, lambda: ut.interleave_channels(a, b, **kw),
                 'sizes')
        return
    t.nt()
    y = ut.interleave_channels(a, b, **kw)
    t.require(y.shape == (2 * C, c['n']), f'shape {y.shape}')
    t.close(y[0::2], a, 'left', atol=0)
    t.close(y[1::2], b, 'right', atol=0)


@R.sub(dict(seed=gen.seeds, m=st.integers(1, 5), n=st.integers(1, 5),
            m2=st.integers(1, 5), n2=st.integers(1, 5),
            eq=st.booleans()), quick=150)
def stacking(c, t):
    """Rows are stacked to rows and columns to columns."""
    m, n = c['m'], c['n']
    m2, n2 = (m, n) if c['eq'] else (c['m2'], c['n2'])
    r = gen.rng(c['seed'])
    a, b = r.standard_normal((m, n)), r.standard_normal((m2, n2))
    if (m, n) == (m2, n2) and m != n:
        t.nt()
        want = np.vstack([a, b]) if m < n else np.hstack([a, b])
        t.close(ut.stack(a, b), want, 'stack', atol=0)
        if m == 1:
            t.close(ut.stack(a[0], b[0]), want, '1-D', atol=0)
    elif m != m2 and n != n2:
        t.label('refused')
        t.raises(ValueError, lambda: ut.stack(a, b), 'no common size')


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 8), shape=st.integers(0, 4),
            how=gen.kinds, lim=st.sampled_from([1e-6, 1e-3, 10.]),
            same=st.booleans(), quiet=st.booleans()), quick=120)
def vectors(c, t):
    """asarray_1d strips singleton dimensions, test_diff sums deviations."""
    r = gen.rng(c['seed'])
    x = r.standard_normal(c['n'])
    arg = [x, x[None], x[:, None], x[None, :, None], x][c['shape']]
    t.nt(c['n'] > 1)
    t.close(ut.asarray_1d(gen.as_kind(arg, c['how'])), x, 'asarray_1d',
            atol=0)
    t.close(ut.asarray_1d(3.5), [3.5], 'scalar', atol=0)
    t.close(ut.asarray_1d(x, dtype=np.float32), x.astype(np.float32),
            'dtype', atol=0)
    if c['n'] > 1:
        t.raises(ValueError, lambda: ut.asarray_1d(np.stack([x, x])),
                 'matrix')
    y = x.copy() if c['same'] else x + .01 * r.standard_normal(c['n'])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        d = ut.test_diff(arg, gen.as_kind(y, c['how']), msg='abc',
                         test_lim=c['lim'], VERBOSE=not c['quiet'])
    want = np.sum(np.abs(x - y))
    t.close(d, want, 'test_diff')
    text = out.getvalue()
    t.require((text == '') == c['quiet'], f'printed {text!r}')
    if not c['quiet']:
        t.require('abc' in text, 'message')
        t.require(('Close' in text) == (want <= c['lim']), 'verdict')


def hush(f):
    def g(*a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            return f(*a, **k)
    return g


@R.sub(dict(seed=gen.seeds, n=gen.bulk, C=gen.block, th=gen.floats(.1, 10.),
            lev=st.integers(-8, 5), d=gen.floats(0., 1.)), quick=60)
def forms(c, t):
    """Levels, sizes and forms of the arguments."""
    t.single = 1e-4  # parts work in single precision
    r = gen.rng(c['seed'])
    n, C = c['n'], c['C']
    C = max(1, min(C, 20000 // n))
    t.nt(n > 1)
    x = r.standard_normal((n, C)) * 10. ** c['lev']
    x[:, 0] *= 1e-3
    # rms
    t.forms(ut.rms, x, 'rms')
    t.rows(lambda i: ut.rms(x[i]), n, 'rms', c['seed'],
           atol=1e-14 * np.max(np.abs(x)))
    t.rows(lambda i: ut.rms(x[:, i], axis=0), C, 'rms, axis 0', c['seed'],
           atol=1e-14 * np.max(np.abs(x)))
    for s in (1e-9, -1., 1e9):
        t.close(ut.rms(x * s, axis=0), abs(s) * ut.rms(x, axis=0),
                f'rms at {s}', atol=1e-12 * abs(s))
    # clipping
    th = c['th']
    g = r.uniform(-2, 4, (n, C)) * th
    t.forms(lambda v: pr.gain_clipping(v, th), g, 'gain_clipping')
    t.rows(lambda i: pr.gain_clipping(g[i], th), n, 'gain_clipping',
           c['seed'])
    t.close(pr.gain_clipping(g[:, 0] * 1e5, th * 1e5) / 1e5,
            pr.gain_clipping(g[:, 0], th), 'gain_clipping scaled')
    # energy decay
    p = x[:, -1]
    with np.errstate(divide='ignore'):
        y = pr.energy_decay(p)
        e = np.cumsum((p / np.max(np.abs(p)))[::-1] ** 2)[::-1]
        t.close(y, 10 * np.log10(e / e[0]), 'energy_decay', atol=1e-7)
        for s in (1e-8, -1., 1e5):
            t.close(pr.energy_decay(p * s), y, f'energy_decay at {s}',
                    atol=1e-7)
        k = p / np.max(np.abs(p)) * 9
        k[-1] = 9
        t.forms(pr.energy_decay, k, 'energy_decay')
    # loudness
    ml = hush(pr.match_loudness)
    y = r.standard_normal((n, 2)) * .01
    t.forms(lambda v: ml(v, y), x + .1, 'match_loudness')
    t.forms(lambda v: ml(x, v + 1e-3), y, 'match_loudness, target')
    for s in (1e-6, 1e3):
        t.close(ml(x * s, y), ml(x, y), f'match_loudness at {s}', atol=1e-12)
    # decibels
    t.forms(lambda v: ut.db(np.abs(v) + 1), x, 'db')
    t.forms(ut.from_db, x / np.max(np.abs(x)) * 40, 'from_db', single=1e-3)
    t.rows(lambda i: ut.db(x[i]), n, 'db', c['seed'])
    # channels
    z = r.standard_normal(x.shape)
    t.forms(lambda v: ut.interleave_channels(v, z), x, 'left', ints=False)
    t.forms(lambda v: ut.interleave_channels(z, v), x, 'right', ints=False)
    y = ut.interleave_channels(x, z)
    t.close(y[::2], x, 'left', atol=0)
    t.close(y[1::2], z, 'right', atol=0)
    k = np.rint(9 * z)
    y = ut.interleave_channels(k.astype(int), x)
    t.close(y[::2], k, 'integer left', atol=0)
    t.close(y[1::2], x, 'right with integer left', atol=0, rtol=1e-12)
    if x.shape[0] != x.shape[1]:
        t.forms(lambda v: ut.stack(v, z), x, 'stack')
    # delays
    for N in (1, 2, 7):
        h = pr.lagrange_delay(N, c['d'] * N)
        t.close(h, [np.prod([(c['d'] * N - j) / (i - j) for j in
                             range(N + 1) if j != i])
                    for i in range(N + 1)], f'lagrange {N}', atol=1e-12)
        for i in range(N + 1):
            for ty in (int, np.int64, np.float32, np.array):
                t.close(pr.lagrange_delay(N, ty(i)), np.eye(N + 1)[i],
                        f'lagrange {ty.__name__}', atol=1e-9)
