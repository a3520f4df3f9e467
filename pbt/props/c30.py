"""C30 SDM post equalisation."""
import warnings

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C30', 'impulses and noise on random octahedral layouts '
                  'with random distances and exponents; non-trivial: the '
                  'equaliser gain differs from one')
P = spa.parsa
AX = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1],
               [0, 0, -1]], float)


def layout(c, r):
    d = np.ones(6) if c.get('unit') else r.uniform(1, 3, 6)
    ls = spa.decoder.LoudspeakerSetup(*(AX * d[:, None]).T)
    ls.a = c.get('a', 1)
    return ls, d ** c.get('a', 1)


def clip(g, soft):
    return 1 + np.tanh(g - 1) if soft and g > 1 else g


def response(y, fs, *f):
    Y = np.abs(np.fft.rfft(y, 2 ** 15))
    F = np.fft.rfftfreq(2 ** 15, 1 / fs)
    return np.array([Y[np.argmin(np.abs(F - k))] for k in f])


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a, **k)


geo = dict(seed=gen.seeds, a=st.sampled_from([0, 1, 1, 2]),
           fs=st.sampled_from([44100, 48000]))


@R.sub(dict(geo, g=gen.floats(-18, 14), soft=st.sampled_from([None, True,
                                                              False]),
            n=st.integers(64, 700), k=st.integers(1, 6),
            level=gen.levels), quick=5, weight=8, examples=[
    dict(seed=1, a=1, fs=48000, g=12., soft=None, n=400, k=2, level=1.),
    dict(seed=2, a=2, fs=44100, g=9., soft=False, n=300, k=3, level=1.)])
def impulse(c, t):
    """Impulses stay in place, and are scaled with the level of the reference
    over that of all loudspeakers at the listener: amplitude sum below 44 Hz,
    energy sum above 350 Hz, soft limited to 6 dB."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    n, fs = c['n'], c['fs']
    p0 = int(r.integers(0, n))
    e = np.zeros(6)
    e[r.permutation(6)[:c['k']]] = 1
    e *= r.uniform(.2, 1, 6) * r.choice([-1, 1], 6)
    # the smallest levels that count are about 1e-9
    e *= max(c['level'], 1e-3)
    S = np.zeros((6, n))
    S[:, p0] = e
    s = np.abs(e) / da
    inc, coh = np.sqrt(np.sum(s ** 2)), np.sum(s)
    ref = np.zeros(n)
    ref[p0] = inc * 10 ** (c['g'] / 20)
    keep = S.copy(), ref.copy()
    kw = {} if c['soft'] is None else {'soft_clip': c['soft']}
    soft = c['soft'] is not False
    y = quiet(P.sdm_post_equalization, S, ref, fs, ls, **kw)
    t.close(S, keep[0], 'signals changed', rtol=0, atol=0)
    t.close(ref, keep[1], 'reference changed', rtol=0, atol=0)
    t.nt(True)
    t.label('soft' if soft else 'hard')
    t.require(y.shape == S.shape, f'shape {y.shape}')
    t.require(np.all(np.isfinite(y)), 'not finite')
    off = e == 0
    t.require(np.all(y[off] == 0), 'silent loudspeakers play')
    on = np.flatnonzero(~off)
    t.close(y[on] / e[on, None], np.tile(y[on[0]] / e[on[0]], (len(on), 1)),
            'same filter for all loudspeakers', atol=1e-7)
    q = y[on[0]] / e[on[0]]
    t.require(np.argmax(np.abs(q)) == p0, f'impulse moved from {p0} to '
              f'{np.argmax(np.abs(q))}')
    pr = ref[p0]
    want = np.array([clip(pr / x, soft) for x in (coh, inc)])
    # cut off low frequencies when the impulse is at the border
    hi = response(q, fs, 1500, 4000, 8000)
    t.close(hi, np.full(3, want[1]), 'gain at high frequencies', rtol=.06)
    if n > 300 and n // 4 < p0 < 3 * n // 4 and not (
            np.ptp(want) > .6 * want[1]):
        lo = response(q, fs, 10)
        t.close(lo, want[:1], 'gain at low frequencies', rtol=.15)
    if c['soft'] is None or c['soft']:
        t.require(np.max(np.abs(q)) < 2.1, 'limit exceeded')


@R.sub(dict(geo, soft=st.booleans(), n=st.sampled_from([3000]),
            coh=st.sampled_from([2, 4]),
            up=st.sampled_from([.45, .45, 1.2, 3.])), quick=4, weight=8)
def bands(c, t):
    """The transition from amplitude to energy summation, octave by
    octave."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    n, fs = c['n'], c['fs']
    e = np.zeros(6)
    e[:c['coh']] = r.uniform(.8, 1, c['coh']) * da[:c['coh']]
    S = np.zeros((6, n))
    S[:, n // 2] = e
    s = np.abs(e) / da
    inc, coh = np.sqrt(np.sum(s ** 2)), np.sum(s)
    ref = np.zeros(n)
    ref[n // 2] = coh * c['up']
    y = quiet(P.sdm_post_equalization, S, ref, fs, ls, soft_clip=c['soft'])
    t.nt(True)
    q = y[0] / e[0]
    mid = [.5 * coh + .5 * inc, .25 * coh + .75 * inc]
    want = [ref[n // 2] / x for x in [coh, *mid, inc, inc, inc, inc]]
    want = [clip(x, c['soft']) for x in want]
    got = response(q, fs, 12, 62.5, 125, 320, 700, 3000, 12000)
    t.close(got, want, 'gain per octave', rtol=.1)


@R.sub(dict(geo, soft=st.booleans(), amp=gen.floats(.1, .6)), quick=4,
       weight=8)
def whitening(c, t):
    """A single loudspeaker with a white impulse gets the magnitudes of the
    reference, without a delay."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    n, fs = 1500, c['fs']
    S = np.zeros((6, n))
    j = int(r.integers(0, 6))
    S[j, 500] = da[j]
    ref = np.zeros(n)
    lag = int(r.integers(2, 6))
    ref[500] = .5
    ref[500 + lag] = .5 * c['amp'] * r.choice([-1, 1])
    y = quiet(P.sdm_post_equalization, S, ref, fs, ls, soft_clip=c['soft'])
    t.nt(True)
    Y = np.abs(np.fft.rfft(y[j] / da[j], 2 ** 13))
    H = np.abs(np.fft.rfft(ref, 2 ** 13))
    f = np.fft.rfftfreq(2 ** 13, 1 / fs)
    b = (f > 300) & (f < 15e3)
    t.close(Y[b], H[b], 'magnitude of the reference', rtol=.1, atol=.05)
    q = np.abs(y[j])
    t.require(np.argmax(q) == 500, f'moved to {np.argmax(q)}')
    t.require(np.sum(q[450:550] ** 2) > .95 * np.sum(q ** 2), 'smeared')


@R.sub(dict(geo, n=st.integers(300, 900), soft=st.booleans(),
            how=st.sampled_from(['level', 'order', 'sign'])), quick=3,
       weight=16)
def relations(c, t):
    """Common level, order and polarity of the loudspeakers carry through."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    n, fs = c['n'], c['fs']
    ref = r.normal(size=n) * np.exp(-np.arange(n) / (n / 4))
    S = np.zeros((6, n))
    S[r.integers(0, 5, n), np.arange(n)] = ref
    f = P.sdm_post_equalization
    y = quiet(f, S, ref, fs, ls, soft_clip=c['soft'])
    t.nt(True)
    t.label(c['how'])
    t.require(y.shape == S.shape, f'shape {y.shape}')
    t.require(np.all(y[5] == 0), 'silent loudspeaker plays')
    atol = 1e-6 * np.abs(y).max()
    if c['how'] == 'level':
        for q in (8., 1e-5):
            t.close(quiet(f, q * S, q * ref, fs, ls, soft_clip=c['soft']) / q,
                    y, f'common level {q}', atol=atol if q > 1 else
                    1e-3 * np.abs(y).max(), rtol=1e-5)
    elif c['how'] == 'sign':
        g = r.choice([-1, 1], 6)
        t.close(quiet(f, S * g[:, None], -ref, fs, ls, soft_clip=c['soft']),
                y * g[:, None], 'polarity', atol=atol)
    else:
        p = r.permutation(6)
        l2 = spa.decoder.LoudspeakerSetup(ls.x[p], ls.y[p], ls.z[p])
        l2.a = ls.a
        t.close(quiet(f, S[p], ref, fs, l2, soft_clip=c['soft']), y[p],
                'order of loudspeakers', atol=atol)


@R.sub(dict(geo, n=st.integers(200, 1500), post=st.sampled_from(
    ['default', None, 'own', 'own', None, 'two']), heavy=st.booleans()),
    quick=30, weight=4)
def render(c, t):
    """Binaural rendering applies the chosen equaliser to the loudspeaker
    signals and binauralises the result."""
    r = gen.rng(c['seed'])
    n, fs = c['n'], c['fs']
    post = c['post']
    if post == 'default' and (not c['heavy'] or c['seed'] % 2):
        post = 'own'
    ls, da = layout(c, r)
    G = 3
    azi, zen = r.uniform(0, 6, 40), np.arccos(r.uniform(-1, 1, 40))
    h = spa.sig.HRIRs(r.normal(size=(40, 16)), r.normal(size=(40, 16)), azi,
                      zen, fs)
    from unittest import mock
    with mock.patch.object(spa.io, 'load_hrirs', lambda *a, **k: h):
        ls2 = spa.decoder.LoudspeakerSetup(ls.x, ls.y, ls.z)
        ls2.a = ls.a
        ref = r.normal(size=n) * np.exp(-np.arange(n) / (n / 4))
        gains = np.zeros((n, 6))
        gains[np.arange(n), r.integers(0, 6, n)] = 1
        S = ls2.loudspeaker_signals(gains, ref)
        calls = []

        def own(s, p, f, setup, **k):
            calls.append((s.copy(), p.copy(), f, setup, k))
            return .5 * s[:, ::-1]

        kw = {}
        if post == 'own':
            arg, eq, kw = own, lambda: .5 * S[:, ::-1], {'x': G}
        elif post == 'two':
            kw = {'blocksize': 1024}
            arg = lambda *a, **k: P.sdm_post_equalization2(*a, **k)[0]
            eq = lambda: quiet(P.sdm_post_equalization2, S, ref, fs, ls2,
                               blocksize=1024)[0]
        elif post == 'default':
            kw = {'soft_clip': False} if c['seed'] % 4 == 0 else {}
            arg = 'default'
            eq = lambda: quiet(P.sdm_post_equalization, S, ref, fs, ls2, **kw)
        else:
            arg, eq = None, lambda: S
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if arg == 'default' and not kw:
                y = P.render_binaural_loudspeaker_sdm(ref, gains, ls2, fs)
            else:
                y = P.render_binaural_loudspeaker_sdm(
                    ref, gains, ls2, fs, post_eq_func=arg, **kw)
        want = ls2.binauralize(eq(), fs)
    t.nt(True)
    t.label(post)
    if post is None:
        t.require(any('No post EQ' in str(x.message) for x in w),
                  'no warning without equaliser')
    if post == 'own':
        t.require(len(calls) == 1 and calls[0][2] == fs and
                  calls[0][3] is ls2 and calls[0][4] == {'x': G},
                  'arguments of the custom equaliser')
        t.close(calls[0][0], S, 'signals for the equaliser')
        t.close(calls[0][1], ref, 'reference for the equaliser')
    for a, b, k in zip(y, want, ('left', 'right')):
        t.close(a, b, k, atol=1e-8 * max(1, np.abs(b).max()))


blk = dict(geo, bs=st.sampled_from([None, 1024, 2048, 4096]))


def kwargs(c):
    return {} if c['bs'] is None else {'blocksize': c['bs']}


@R.sub(dict(blk, g=gen.floats(-20, 10), k=st.integers(1, 6),
            blocks=gen.floats(.02, 4)), quick=60, weight=2)
def impulse2(c, t):
    """Version 2: an impulse stays in place, is scaled with the level of the
    reference, never boosted, and the gains of all blocks are reported."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    B = c['bs'] or 4096
    n, fs = max(20, int(c['blocks'] * B)), c['fs']
    p0 = int(r.integers(0, n))
    e = np.zeros(6)
    e[r.permutation(6)[:c['k']]] = 1
    e *= r.uniform(.2, 1, 6) * r.choice([-1, 1], 6)
    S = np.zeros((6, n))
    S[:, p0] = e
    s = np.abs(e) / da
    inc, coh = np.sqrt(np.sum(s ** 2)), np.sum(s)
    ref = np.zeros(n)
    ref[p0] = inc * 10 ** (c['g'] / 20)
    y, gains = quiet(P.sdm_post_equalization2, S, ref, fs, ls,
                     smoothing_order=1, **kwargs(c))
    t.nt(True)
    t.label(f"block size {c['bs']}")
    t.require(y.shape == S.shape, f'shape {y.shape}')
    t.require(np.all(np.isfinite(y)), 'not finite')
    off = e == 0
    t.require(np.all(y[off] == 0), 'silent loudspeakers play')
    on = np.flatnonzero(~off)
    q = y[on[0]] / e[on[0]]
    t.close(y[on] / e[on, None], np.tile(q, (len(on), 1)),
            'same filter for all loudspeakers', atol=1e-7)
    t.require(np.argmax(np.abs(q)) == p0, f'impulse moved from {p0} to '
              f'{np.argmax(np.abs(q))}')
    t.require(np.max(np.abs(q)) <= 1.02, 'boosted')
    w = min(1, ref[p0] / inc), min(1, ref[p0] / coh)
    if B >= 2048 and p0 > 300 and n - p0 > 300:
        t.close(response(q, fs, 1500, 4000, 8000), np.full(3, w[0]),
                'gain at high frequencies', rtol=.06)
    H = B // 2
    cnt = (n + 2 * B - B) // H + 1 - 4
    t.require(len(gains) == max(0, cnt), f'{len(gains)} gains, {cnt} blocks')
    for i, g in enumerate(gains):
        t.require(np.all(g <= 1 + 1e-12) and np.all(g >= 0), f'gains {g}')
        a = (i + 2) * H - B
        win = np.hanning(B + 1)[:-1]
        if 0 <= p0 - a < B and win[p0 - a] > 1e-3 and B > 1024:
            t.close(g[3:], np.full(len(g) - 3, w[0]), 'gains of the block',
                    rtol=1e-6)
            t.close(g[0], w[1], 'gain of the lowest band', rtol=1e-6)
            lo = sorted(w)
            t.require(lo[0] - 1e-9 <= min(g) and max(g) <= lo[1] + 1e-9,
                      'gains between both sums')
        elif p0 < a or p0 >= a + B:
            t.close(g, np.ones(len(g)), 'gains of silence')


@R.sub(dict(blk, order=st.sampled_from([None, 1, 2, 3, 5, 8]),
            lo=gen.floats(.05, .9), blocks=st.integers(6, 10)), quick=20,
       weight=2)
def applied2(c, t):
    """Version 2: the reported gains are those that are applied, and follow
    the reference smoothly."""
    r = gen.rng(c['seed'])
    c = dict(c, bs=c['bs'] if c['bs'] in (1024, 2048) else 1024)
    B = c['bs']
    H, fs = B // 2, c['fs']
    ls, da = layout(c, r)
    n = c['blocks'] * H + B
    j = int(r.integers(0, 6))
    # one impulse per hop, the reference changes level in the middle
    pos = np.arange(H // 2, n, H)
    S = np.zeros((6, n))
    S[j, pos] = da[j]
    step = np.where(np.arange(n) < n // 2, 1., c['lo'])
    if c['seed'] % 2:
        step = step[::-1]
    ref = S[j] / da[j] * step
    kw = {} if c['order'] is None else {'smoothing_order': c['order']}
    y, gains = quiet(P.sdm_post_equalization2, S, ref, fs, ls, blocksize=B,
                     **kw)
    raw = quiet(P.sdm_post_equalization2, S, ref, fs, ls, blocksize=B,
                smoothing_order=1)[1]
    t.nt(True)
    t.label(f"order {c['order']}")
    win = np.hanning(B + 1)[:-1]
    t.require(len(gains) == len(raw), 'number of gains')
    g = np.array([np.mean(x[4:]) for x in gains])
    want, got = [], []
    for p in pos:
        use = [(i, p - ((i + 2) * H - B)) for i in range(len(gains))]
        use = [(i, k) for i, k in use if 0 <= k < B]
        if abs(sum(win[k] for _, k in use) - 1) > 1e-6:
            continue            # overlaps a block that is not reported
        want.append(sum(win[k] * g[i] for i, k in use))
        got.append(y[j, p] / da[j])
    t.require(len(want) >= 2, 'too few blocks reported')
    t.close(got, want, 'level of the impulses against the reported gains',
            rtol=.03, atol=.01)
    a, b = min(1, c['lo']), 1
    t.require(np.all(np.array(gains) >= a - 1e-6) and
              np.all(np.array(gains) <= b + 1e-6), 'smoothed beyond the data')
    # never faster than the unsmoothed gains, and settled after a while
    d = np.abs(np.diff(np.array(gains), axis=0))
    d0 = np.abs(np.diff(np.array(raw), axis=0))
    if (c['order'] or 5) > 2:
        t.require(d.max() <= d0.max() + 1e-9, 'smoothing amplifies steps')
        if c['lo'] < .8:
            t.require(d[:, 5].max() < .95 * d0[:, 5].max(), 'not smoothed')


@R.sub(dict(geo, order=st.sampled_from([None, 2, 3, 4]),
            lo=gen.floats(.05, .6)), quick=3, weight=4, examples=[
    dict(seed=1, a=1, fs=48000, order=None, lo=.1)])
def settles2(c, t):
    """Version 2: smoothed gains leave the old level and settle at the new
    one."""
    r = gen.rng(c['seed'])
    B, hops = 1024, 34
    H, fs = B // 2, c['fs']
    ls, da = layout(c, r)
    n = hops * H
    j = int(r.integers(0, 6))
    pos = np.arange(H // 2, n, H)
    S = np.zeros((6, n))
    S[j, pos] = da[j]
    ref = S[j] / da[j] * np.where(np.arange(n) < 8 * H, 1., c['lo'])
    kw = {} if c['order'] is None else {'smoothing_order': c['order']}
    t.nt(True)
    t.label(f"order {c['order']}")
    g = quiet(P.sdm_post_equalization2, S, ref, fs, ls, blocksize=B, **kw)[1]
    g = np.mean(np.array(g)[:, 4:], axis=1)
    t.close(g[:4], np.ones(4), 'gains before the step', atol=1e-6)
    t.require(np.all(np.diff(g) < 1e-9), 'not monotonic')
    # the last blocks reach into the silence behind the signal
    t.close(g[-4], c['lo'], 'gain long after the step',
            atol=.08 * (1 - c['lo']))


@R.sub(dict(blk, n=st.integers(100, 9000), order=st.sampled_from([1, 3, 5]),
            how=st.sampled_from(['level', 'order', 'sign'])), quick=24,
       weight=2)
def relations2(c, t):
    """Version 2: level, order and polarity of the loudspeakers."""
    r = gen.rng(c['seed'])
    ls, da = layout(c, r)
    n, fs = c['n'], c['fs']
    ref = r.normal(size=n) * np.exp(-np.arange(n) / (n / 4))
    S = np.zeros((6, n))
    S[r.integers(0, 5, n), np.arange(n)] = ref

    def f(*a):
        return quiet(P.sdm_post_equalization2, *a,
                     smoothing_order=c['order'], **kwargs(c))

    keep = S.copy(), ref.copy()
    y, g = f(S, ref, fs, ls)
    t.close(S, keep[0], 'signals changed', rtol=0, atol=0)
    t.close(ref, keep[1], 'reference changed', rtol=0, atol=0)
    t.nt(True)
    t.label(c['how'])
    t.require(y.shape == S.shape, f'shape {y.shape}')
    t.require(np.all(y[5] == 0), 'silent loudspeaker plays')
    t.require(all(np.all(x <= 1 + 1e-12) for x in g), 'gain above one')
    atol = 1e-8 * np.abs(y).max()
    if c['how'] == 'level':
        for q in (1e-5, 8.):
            y2, g2 = f(q * S, q * ref, fs, ls)
            y2, want = y2 / q, y
            t.close(y2, y, f'common level {q}', atol=1e-3 * np.abs(y).max())
            t.close(np.array(g2), np.array(g), f'gains, common level {q}',
                    atol=1e-3)
    elif c['how'] == 'sign':
        s = r.choice([-1, 1], 6)
        y2, g2 = f(S * s[:, None], -ref, fs, ls)
        want = y * s[:, None]
    else:
        p = r.permutation(6)
        l2 = spa.decoder.LoudspeakerSetup(ls.x[p], ls.y[p], ls.z[p])
        l2.a = ls.a
        y2, g2 = f(S[p], ref, fs, l2)
        want = y[p]
    t.close(y2, want, 'signals', atol=8 * atol)
    t.close(np.array(g2), np.array(g), 'gains', atol=1e-8)


def bigger(c, r, L):
    """L loudspeakers around the listener, at random distances."""
    v = gen.rand_vecs(r, L)
    v[:6] = AX
    v += 1e-2 * r.normal(size=v.shape)
    v /= np.linalg.norm(v, axis=1)[:, None]
    d = r.uniform(1, 3, L)
    ls = spa.decoder.LoudspeakerSetup(*(v * d[:, None]).T)
    ls.a = c['a']
    return ls, d ** c['a']


def dense(r, L, n):
    """Signals of several loudspeakers at once, and a reference."""
    x = r.normal(size=n) * np.exp(-np.arange(n) / (n / 4))
    S = np.zeros((L, n))
    for _ in range(3):
        S[r.integers(0, L, n), np.arange(n)] = x * r.uniform(.3, 1)
    return S, x


def version(c):
    two = c['two']

    def f(S, p, fs, ls, **k):
        if two:
            k = dict(kwargs(c), smoothing_order=c['order'])
            y, g = quiet(P.sdm_post_equalization2, S, p, fs, ls, **k)
            return y, np.array(g)
        return quiet(P.sdm_post_equalization, S, p, fs, ls)
    return f


HOW = ['silent', 'merged', 'levels', 'forms', 'distance', 'quiet']


def carried(c, t):
    r = gen.rng(c['seed'])
    n, fs, L, how = c['n'], c['fs'], c['L'], c['how']
    f = version(c)
    ls, da = bigger(c, r, L)
    S, ref = dense(r, L, n)
    t.nt()
    t.label(f"{how}, {'second' if c['two'] else 'first'} version")

    def near(a, b, msg, rtol=1e-5):
        if c['two']:
            t.close(a[1], b[1], f'{msg}: gains', rtol=rtol, atol=1e-6)
            a, b = a[0], b[0]
        t.close(a, b, msg, rtol=rtol,
                atol=1e-6 * np.abs(b).max())
    y = f(S, ref, fs, ls)
    if how == 'silent':
        # more loudspeakers that do not play change nothing
        k = int(r.integers(1, 9))
        v = np.c_[ls.x, ls.y, ls.z]
        v = np.r_[v, gen.rand_vecs(r, k) * r.uniform(1, 3, (k, 1))]
        more = spa.decoder.LoudspeakerSetup(*v.T)
        more.a = c['a']
        q = f(np.r_[S, np.zeros((k, n))], ref, fs, more)
        z = q[0] if c['two'] else q
        t.require(z.shape == (L + k, n), f'shape {z.shape}')
        t.require(np.all(z[L:] == 0), 'silent loudspeakers play')
        near((z[:L], q[1]) if c['two'] else z[:L], y, 'silent loudspeakers')
    elif how == 'merged':
        # what arrives counts: levels and distances in exchange
        j = int(r.integers(L))
        g = float(r.uniform(.4, 2.5))
        v = np.c_[ls.x, ls.y, ls.z]
        v[j] *= g
        far = spa.decoder.LoudspeakerSetup(*v.T)
        far.a = c['a']
        S2 = S.copy()
        S2[j] *= g ** c['a']
        q = f(S2, ref, fs, far)
        z = (q[0] if c['two'] else q).copy()
        z[j] /= g ** c['a']
        near((z, q[1]) if c['two'] else z, y, 'distance against level')
    elif how == 'levels':
        for q in (1e-3, 30., 1e4) if c['two'] else (30., 1e-4):
            z = f(q * S, q * ref, fs, ls)
            near((z[0] / q, z[1]) if c['two'] else z / q, y,
                 f'common level {q}')
    elif how == 'forms':
        m = 1e3 / np.abs(S).max()
        Si, ri = np.rint(m * S), np.rint(m * ref)
        a = f(Si, ri, fs, ls)
        near(f(Si.astype(int), ri.astype(int), fs, ls), a, 'whole numbers')
        near(f(np.asfortranarray(Si), ri[::-1].copy()[::-1], fs, ls), a,
             'memory layout')
        near(f(Si.astype(np.float32), ri.astype(np.float32), fs, ls), a,
             'single precision', rtol=1e-3)
    elif how == 'distance':
        # all further away: louder reference needed
        far = spa.decoder.LoudspeakerSetup(2 * ls.x, 2 * ls.y, 2 * ls.z)
        far.a = c['a']
        near(f(S, ref / 2. ** c['a'], fs, far), y, 'all twice as far')
    else:
        # silence before, and behind, in whole blocks
        k = (c['bs'] or 4096) if c['two'] else 0
        if not k:
            t.skip('blocks of several sizes')
        S2 = np.pad(S, [(0, 0), (k, 3 * k)])
        z = f(S2, np.pad(ref, (k, 3 * k)), fs, ls)[0]
        # the filters ring before and after, faintly
        t.require(np.abs(z[:, :k // 4]).max() < 1e-3 * np.abs(z).max(),
                  'silence before')
        if c['order'] == 1:
            t.close(z[:, k:k + n], y[0], 'after silence', rtol=1e-6,
                    atol=1e-6 * np.abs(y[0]).max())


more = dict(blk, L=st.integers(6, 24), n=st.integers(100, 4000),
            order=st.sampled_from([1, 2, 3, 5]), how=st.sampled_from(HOW))


@R.sub(dict(more, two=st.just(True)), quick=24, weight=2)
def carried2(c, t):
    """Version 2: layouts of many loudspeakers, levels, silence, forms."""
    carried(c, t)


@R.sub(dict(more, two=st.just(False), L=st.integers(6, 9),
            n=st.integers(64, 300), how=st.sampled_from(HOW[:5])), quick=2,
       weight=16)
def carried1(c, t):
    """Version 1: more loudspeakers, levels, forms."""
    carried(c, t)
