"""C19 binaural and stereo renderers against direct models."""
import os
import tempfile
from unittest import mock

import numpy as np
import soundfile as sf
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C19', 'random HRIR sets of 1..40 directions and 1..50 '
                  'taps, layouts of 5..14 loudspeakers, signals of 1..60 '
                  'samples with silent, quiet and loud channels, any '
                  'orientation; non-trivial: at least two channels or '
                  'samples with different HRIRs sound')


def hrir_set(seed, g, taps, fs=48000, scale=1.):
    r = gen.rng(seed)
    a, z = gen.rand_dirs(r, g)
    left, right = scale * r.standard_normal((2, g, taps))
    return spa.sig.HRIRs(left, right, a, z, fs)


def nearest(h, azi, zen, t):
    """Own search; cases with ties are not judged."""
    d = ref.cart(azi, zen) @ ref.cart(h.azi, h.zen).T
    if d.shape[-1] > 1:
        s = np.sort(d, axis=-1)
        if np.any(s[..., -1] - s[..., -2] < 1e-9):
            t.skip('tie between HRIRs')
    return np.argmax(d, axis=-1)


def render(sigs, idx, h):
    """Sum of convolutions, written as a matrix product per channel."""
    S, T = sigs.shape[1], len(h)
    out = np.zeros((2, S + T - 1))
    for x, k in zip(sigs, idx):
        for e, ir in enumerate((h.left[k], h.right[k])):
            for n in range(T):
                out[e, n:n + S] += ir[n] * x
    return out


levels = st.lists(st.sampled_from([0., 1e-7, 2e-5, 1e-4, 1., 30.]),
                  min_size=14, max_size=14)


@R.sub(dict(s=setups.specs(lo=5, hi=14, radii=(0., .1, .5)), seed=gen.seeds,
            g=st.integers(1, 40), taps=st.integers(1, 50),
            S=st.integers(1, 60), lev=levels,
            orient=st.one_of(st.just([0., 0.]), gen.direction),
            sparse=st.booleans(), default=st.booleans()), quick=220,
       weight=2)
def loudspeakers(c, t):
    """LoudspeakerSetup.binauralize."""
    h = setups.build(c['s'])
    hr = hrir_set(c['seed'], c['g'], c['taps'])
    r = gen.rng(c['seed'] + 1)
    L = h.npoints
    x = r.uniform(.5, 1, (L, c['S'])) * r.choice([-1, 1], (L, c['S']))
    if c['sparse']:
        keep = np.zeros(x.shape)
        keep[np.arange(L), r.integers(0, c['S'], L)] = 1
        x = x * keep
    x = x * np.resize(c['lev'], L)[:, None]
    p = setups.rel_points(c['s'])
    a, z, d = ref.sph(p)
    idx = nearest(hr, a - c['orient'][0], z - c['orient'][1], t)
    y = x / (d ** h.a)[:, None]
    quiet = np.max(np.abs(y), axis=1) <= 10e-6
    t.nt(np.sum(~quiet) > 1 and len(set(idx[~quiet])) > 1)
    t.label('quiet channels' if np.any(quiet & (np.max(np.abs(y), 1) > 0))
            else 'no quiet channels')
    keep = x.copy()
    if c['default']:
        with mock.patch.object(spa.io, 'load_hrirs',
                               lambda fs, *a, **k: hr):
            got = h.binauralize(x, 48000, orientation=tuple(c['orient']))
    else:
        got = h.binauralize(x, 48000, orientation=tuple(c['orient']),
                            hrirs=hr)
    t.close(x, keep, 'input changed', rtol=0, atol=0)
    want = render(y[~quiet], idx[~quiet], hr)
    top = max(1e-5, np.max(np.abs(y))) * np.max(np.abs(np.r_[hr.left,
                                                            hr.right]))
    # whatever is left out may not be audible
    slack = np.sum(quiet & np.any(y != 0, axis=1)) * 10e-6 * \
        np.max(np.sum(np.abs(np.r_[hr.left, hr.right]), axis=1))
    t.require(len(got) == 2, 'two ears')
    for e in (0, 1):
        t.close(got[e], want[e], f'ear {e}', rtol=0,
                atol=slack + 1e-10 * L * c['taps'] * top)


@R.sub(dict(seed=gen.seeds, L=st.integers(4, 12), S=st.integers(1, 30),
            given=st.booleans(), kind=gen.kinds), quick=80)
def loudspeaker_gains(c, t):
    """loudspeaker_signals: gain times input, per loudspeaker."""
    r = gen.rng(c['seed'])
    v = gen.rand_vecs(r, c['L'])
    h = spa.decoder.LoudspeakerSetup(*v.T)
    G = r.standard_normal((c['S'], c['L']))
    s = r.standard_normal(c['S'])
    t.nt(c['S'] > 1)
    if c['given']:
        got = h.loudspeaker_signals(G, gen.as_kind(s, c['kind']))
        want = np.stack([G[:, k] * s for k in range(c['L'])])
    else:
        got = h.loudspeaker_signals(G)
        want = G.T
    t.close(got, want, 'signals', atol=1e-14)
    if c['S'] == 1:
        t.close(h.loudspeaker_signals(G[0], s), (G * s[:, None]).T, 'one row')


@R.sub(dict(seed=gen.seeds, N=st.integers(0, 4), S=st.integers(1, 80),
            taps=st.integers(1, 60), scale=st.sampled_from([1., 1e-4, 1e3])),
       quick=200)
def sh_domain(c, t):
    """sh2bin: sum over SH channels of convolutions, any length."""
    r = gen.rng(c['seed'])
    M = (c['N'] + 1) ** 2
    x = c['scale'] * r.standard_normal((M, c['S']))
    h = r.standard_normal((2, M, c['taps']))
    t.nt(M > 1)
    t.label(f"order {c['N']}")
    want = np.stack([np.sum([np.convolve(x[m], h[e, m]) for m in range(M)],
                            axis=0) for e in (0, 1)])
    keep = x.copy(), h.copy()
    got = spa.decoder.sh2bin(x, h)
    tol = 1e-10 * c['scale'] * M * 10
    t.close(got, want, 'binaural', rtol=1e-9, atol=tol)
    t.close(x, keep[0], 'signal changed', rtol=0, atol=0)
    t.close(h, keep[1], 'filters changed', rtol=0, atol=0)
    t.close(spa.decoder.sh2bin(x, h[::-1]), got[::-1], 'ears swapped',
            atol=tol)


@R.sub(dict(seed=gen.seeds, dirs=gen.dirs(1, 8), n=st.integers(1, 50),
            g=st.integers(1, 40), taps=st.integers(1, 40), kind=gen.kinds,
            zero=st.booleans()), quick=150)
def binaural_sdm(c, t):
    """render_bsdm: every sample adds its HRIR."""
    r = gen.rng(c['seed'])
    hr = hrir_set(c['seed'] + 1, c['g'], c['taps'])
    p = r.standard_normal(c['n'])
    if c['zero']:
        p[::3] = 0
    phi, theta = gen.rand_dirs(r, c['n'])
    a, z = gen.split(c['dirs'])
    k = min(len(a), c['n'])
    phi[:k], theta[:k] = a[:k], z[:k]
    idx = nearest(hr, phi, theta, t)
    t.nt(len(set(idx)) > 1)
    want = np.zeros((2, c['n'] + c['taps'] - 1))
    for i in range(c['n']):
        want[0, i:i + c['taps']] += p[i] * hr.left[idx[i]]
        want[1, i:i + c['taps']] += p[i] * hr.right[idx[i]]
    got = spa.parsa.render_bsdm(gen.as_kind(p, c['kind']),
                                gen.as_kind(phi, c['kind']),
                                gen.as_kind(theta, c['kind']), hr)
    t.require(len(got) == 2, 'two ears')
    t.close(np.stack(got), want, 'binaural', atol=1e-11 * c['n'])


@R.sub(dict(seed=gen.seeds, dirs=gen.dirs(1, 30), kind=gen.kinds), quick=80)
def stereo_sdm(c, t):
    """render_stereo_sdm: left and right facing cardioids."""
    r = gen.rng(c['seed'])
    a, z = gen.split(c['dirs'])
    p = r.standard_normal(len(a))
    t.nt(len(a) > 1)
    left, right = spa.parsa.render_stereo_sdm(gen.as_kind(p, c['kind']),
                                              gen.as_kind(a, c['kind']),
                                              gen.as_kind(z, c['kind']))
    t.close(left, p * (1 + np.sin(a)) / 2, 'left')
    t.close(right, p * (1 - np.sin(a)) / 2, 'right')


@R.sub(dict(s=setups.specs(lo=5, hi=10), seed=gen.seeds,
            g=st.integers(1, 20), taps=st.integers(1, 20),
            n=st.integers(1, 30), eq=st.booleans()), quick=80)
def loudspeaker_sdm(c, t):
    """render_binaural_loudspeaker_sdm with no or own post equalisation."""
    h = setups.build(c['s'])
    hr = hrir_set(c['seed'], c['g'], c['taps'])
    r = gen.rng(c['seed'] + 1)
    p = r.standard_normal(c['n']) + 2
    G = r.uniform(.1, 1, (c['n'], h.npoints))
    a, z, d = ref.sph(setups.rel_points(c['s']))
    idx = nearest(hr, a, z, t)
    t.nt(c['n'] > 1 and len(set(idx)) > 1)
    y = (G * p[:, None]).T
    calls = []

    def eq(ls_sigs, sdm_p, fs, ls_setup, gain=1.):
        calls.append((ls_sigs.copy(), sdm_p.copy(), fs, ls_setup))
        return gain * ls_sigs[:, ::-1]

    with mock.patch.object(spa.io, 'load_hrirs', lambda fs, *a, **k: hr):
        if c['eq']:
            got = spa.parsa.render_binaural_loudspeaker_sdm(
                p, G, h, 48000, post_eq_func=eq, gain=.5)
        else:
            got = spa.parsa.render_binaural_loudspeaker_sdm(
                p, G, h, 48000, post_eq_func=None)
    if c['eq']:
        t.require(len(calls) == 1, f'equaliser called {len(calls)} times')
        t.close(calls[0][0], y, 'signals given to the equaliser')
        t.close(calls[0][1], p, 'pressure given to the equaliser')
        t.require(calls[0][2] == 48000 and calls[0][3] is h,
                  'other arguments of the equaliser')
        y = .5 * y[:, ::-1]
    want = render(y / (d ** h.a)[:, None], idx, hr)
    t.close(np.stack(got), want, 'binaural', atol=1e-9)


def check_file(f, want, sub, t):
    x, fs = sf.read(f, always_2d=True)
    t.require(fs == 44100, f'rate {fs}')
    t.require(sf.info(f).subtype == sub, f'subtype {sf.info(f).subtype}')
    if np.max(np.abs(want)) > 1:
        t.label('normalised')
        want = want / np.max(np.abs(want))
    t.require(x.shape[1] == 720, f'{x.shape[1]} channels')
    t.close(x.T, want, 'channel, sample', rtol=1e-6,
            atol={'FLOAT': 1e-6, 'DOUBLE': 1e-10, 'PCM_24': 3e-7}[sub])


files = dict(seed=gen.seeds, g=st.integers(2, 16), taps=st.integers(2, 8),
             scale=st.sampled_from([.02, 3.]), ext=st.booleans(),
             sub=st.sampled_from(['FLOAT', 'DOUBLE', 'PCM_24']))


def negative_peak(c, x, want):
    """The largest value is negative for odd seeds."""
    want = np.array(want)
    if c['seed'] % 2 and want.max() > -want.min():
        return -x, -want
    return x, want


@R.sub(dict(s=setups.specs(lo=5, hi=8), S=st.integers(1, 6), **files),
       quick=14, thorough=150, weight=5, examples=[
    dict(s=dict(kind='random', n=6, seed=7, radii=.2, scale=1., offset=.05,
                a=1), S=3, seed=k, g=9, taps=4, scale=3., ext=True,
         sub='FLOAT') for k in (1, 3)])
def brirs_loudspeaker(c, t):
    """write_ssr_brirs_loudspeaker: one ear pair per degree."""
    h = setups.build(c['s'])
    hr = hrir_set(c['seed'], c['g'], c['taps'], 44100, c['scale'])
    r = gen.rng(c['seed'] + 1)
    x = r.uniform(.2, 1, (h.npoints, c['S']))
    a, z, d = ref.sph(setups.rel_points(c['s']))
    y = x / (d ** h.a)[:, None]
    want = []
    for deg in range(360):
        want.extend(render(y, nearest(hr, a - deg * np.pi / 180, z, t), hr))
    x, want = negative_peak(c, x, want)
    t.nt()
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        f = os.path.join(d, 'brirs.wav')
        spa.io.write_ssr_brirs_loudspeaker(
            f if c['ext'] else f[:-4], x, h, 44100, hrirs=hr,
            subtype=c['sub'])
        check_file(f, want, c['sub'], t)


@R.sub(dict(n=st.integers(1, 10), **files), quick=16, thorough=150, weight=5,
       examples=[dict(n=4, seed=k, g=9, taps=4, scale=3., ext=True,
                      sub='FLOAT') for k in (1, 3)])
def brirs_sdm(c, t):
    """write_ssr_brirs_sdm: one ear pair per degree."""
    hr = hrir_set(c['seed'], c['g'], c['taps'], 44100, c['scale'])
    r = gen.rng(c['seed'] + 1)
    p = r.uniform(.2, 1, c['n'])
    phi, theta = gen.rand_dirs(r, c['n'])
    want = np.zeros((720, c['n'] + c['taps'] - 1))
    for deg in range(360):
        idx = nearest(hr, phi - deg * np.pi / 180, theta, t)
        for i in range(c['n']):
            want[2 * deg, i:i + c['taps']] += p[i] * hr.left[idx[i]]
            want[2 * deg + 1, i:i + c['taps']] += p[i] * hr.right[idx[i]]
    p, want = negative_peak(c, p, want)
    t.nt()
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        f = os.path.join(d, 'brirs.wav')
        spa.io.write_ssr_brirs_sdm(f if c['ext'] else f[:-4], p, phi, theta,
                                   44100, hrirs=hr, subtype=c['sub'])
        check_file(f, want, c['sub'], t)


@R.sub(dict(seed=gen.seeds, N=st.integers(0, 3), n=gen.block,
            g=st.integers(1, 12), taps=st.integers(1, 40),
            s=setups.specs(kinds=('random',), lo=5, hi=8)), quick=60,
       weight=2)
def levels_and_forms(c, t):
    """Linear at every level (the loudspeaker renderer above its gate), any
    layout and number type, later samples do not change earlier output."""
    t.single = 1e-4  # parts work in single precision
    r = gen.rng(c['seed'])
    n, M = c['n'], (c['N'] + 1) ** 2
    hr = hrir_set(c['seed'], c['g'], c['taps'])
    t.nt(n > 1)
    x, h = r.standard_normal((M, n)), r.standard_normal((2, M, c['taps']))
    f = spa.decoder.sh2bin
    t.linear(lambda v: f(v, h), x, 'sh2bin', columns=False)
    t.linear(lambda v: f(x, v), h, 'sh2bin, filters', columns=False)
    t.forms(lambda v: f(v, h), x, 'sh2bin', rtol=1e-8, atol=1e-8)
    t.forms(lambda v: f(x, v), h, 'sh2bin, filters', rtol=1e-8, atol=1e-8)
    p = r.standard_normal(n)
    phi, theta = gen.rand_dirs(r, n)
    nearest(hr, phi, theta, t)

    def bs(v):
        return np.stack(spa.parsa.render_bsdm(v, phi, theta, hr))

    def stereo(v):
        return np.stack(spa.parsa.render_stereo_sdm(v, phi, theta))
    for nm, f in (('render_bsdm', bs), ('render_stereo_sdm', stereo)):
        t.linear(f, p, nm, columns=False)
        t.forms(f, p, nm)
    m = n // 2
    t.close(np.stack(spa.parsa.render_bsdm(p[:m], phi[:m], theta[:m], hr))
            [:, :m], bs(p)[:, :m], 'begin of render_bsdm', atol=1e-9)
    t.close(np.stack(spa.parsa.render_stereo_sdm(p[:m], phi[:m], theta[:m])),
            stereo(p)[:, :m], 'begin of render_stereo_sdm')
    d = 10. ** (np.arange(n) * 5 % 9 - 6.)
    t.close(stereo(p * d) / d, stereo(p), 'samples of different level')
    a = spa.parsa.render_bsdm(p * d, phi, theta, hr)
    e = np.zeros((2, n + c['taps'] - 1))
    k = nearest(hr, phi, theta, t)
    for i in range(n):
        e[:, i:i + c['taps']] += p[i] * d[i] * np.stack([hr.left[k[i]],
                                                        hr.right[k[i]]])
    t.close(np.stack(a), e, 'samples of different level', rtol=1e-9,
            atol=1e-12)
    q = hrir_set(c['seed'], c['g'], c['taps'])
    for lv in (1e-6, -1., 1e5):
        q.update_hrirs(hr.left * lv, hr.right * lv)
        t.same(tuple(y / lv for y in spa.parsa.render_bsdm(
            p, phi, theta, q)), spa.parsa.render_bsdm(p, phi, theta, hr),
            f'HRIRs at {lv}')
    ls = setups.build(c['s'])
    y = r.uniform(.5, 1, (ls.npoints, n)) * r.choice([-1, 1], (ls.npoints,
                                                               n))
    pa, pz, _ = ref.sph(ls.points)
    nearest(hr, pa, pz, t)

    def bi(v):
        return np.stack(ls.binauralize(v, 48000, hrirs=hr))
    y = y * np.max(ls.d ** ls.a)
    t.linear(bi, y, 'binauralize', columns=False, levels=(1e-3, 3e2, 1e6))
    t.forms(bi, y, 'binauralize', rtol=1e-8, atol=1e-8)
    G = r.standard_normal((n, ls.npoints))
    t.linear(lambda v: ls.loudspeaker_signals(v, p), G, 'gains', columns=False)
    t.linear(lambda v: ls.loudspeaker_signals(G, v), p, 'input', columns=False)
    t.forms(lambda v: ls.loudspeaker_signals(v, p), G, 'gains')
    t.forms(lambda v: ls.loudspeaker_signals(G, v), p, 'input')
    t.rows(lambda i: ls.loudspeaker_signals(G[i], p[i]), n,
           'loudspeaker_signals', c['seed'], axis=1)


@R.sub(dict(seed=gen.seeds, taps=st.sampled_from([128, 257, 400, 512, 513,
                                                  600, 1024, 1500, 2100]),
            S=st.one_of(st.integers(1, 60), st.sampled_from(
                [511, 513, 1024, 1025, 2100])), g=st.integers(1, 9),
            N=st.integers(0, 2), s=setups.specs(kinds=('random',), lo=5,
                                                hi=7)), quick=40, weight=2)
def long_responses(c, t):
    """Responses and signals of any length: nothing is cut or wrapped."""
    r = gen.rng(c['seed'])
    T, S, M = c['taps'], c['S'], (c['N'] + 1) ** 2
    t.nt(T > 512)
    hr = hrir_set(c['seed'], c['g'], T)
    x = r.standard_normal(S)
    phi, theta = gen.rand_dirs(r, S)
    k = nearest(hr, phi, theta, t)
    e = np.zeros((2, S + T - 1))
    for i in range(S):
        e[0, i:i + T] += x[i] * hr.left[k[i]]
        e[1, i:i + T] += x[i] * hr.right[k[i]]
    t.close(np.stack(spa.parsa.render_bsdm(x, phi, theta, hr)), e, 'bsdm',
            rtol=0, atol=1e-9)

    def conv(a, b):
        return np.stack([np.sum([np.convolve(p, q) for p, q in zip(a, w)],
                                axis=0) for w in b])
    y, h = r.standard_normal((M, S)), r.standard_normal((2, M, T))
    t.close(spa.decoder.sh2bin(y, h), conv(y, h), 'sh2bin', rtol=0,
            atol=1e-8)
    ls = setups.build(c['s'])
    y = r.standard_normal((ls.npoints, S))
    a, z, d = ref.sph(ls.points)
    k = nearest(hr, a, z, t)
    w = y / (d ** ls.a)[:, None]
    # far above the gate of the renderer
    y, w = 1e3 * y / np.max(np.abs(w), axis=1).min(), 1e3 * w / \
        np.max(np.abs(w), axis=1).min()
    b = ls.binauralize(y, 48000, hrirs=hr)
    e = conv(w, [hr.left[k], hr.right[k]])
    t.close(np.stack(b), e, 'binauralize', rtol=0,
            atol=1e-10 * np.max(np.abs(e)))
