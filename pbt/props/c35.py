"""C35 batches are processed entry by entry, whatever their size."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen
from pbt.props import c31

R = core.Registry('C35', 'batches of 1..20000 directions, points, samples, '
                  'channels or responses; the batch is repeated in another '
                  'order, in parts, and entry by entry; non-trivial: more '
                  'than one entry')
S, U, D, P, PR, G = (spa.sph, spa.utils, spa.decoder, spa.parsa, spa.process,
                     spa.grids)
TABLE = {}
sizes = st.one_of(st.integers(1, 60), st.sampled_from(
    [64, 100, 127, 128, 129, 255, 256, 257, 300, 500, 511, 512, 513, 720,
     1000, 1023, 1024, 1025, 2000, 2048, 2049, 3000, 4095, 4096, 4097, 5000,
     8192, 8193, 10000, 16385, 20000]))


def batch(group, most, axis=0):
    """Registers maker(r, n) -> function of an index array."""
    def deco(fn):
        TABLE.setdefault(group, []).append((fn.__name__, fn, most, axis))
        return fn
    return deco


# spherical harmonics --------------------------------------------------------
@batch('sph', 20000)
def sh_matrix(r, n):
    a, z = gen.rand_dirs(r, n)
    N = int(r.integers(0, 8 if n < 3000 else 3))
    ty = str(r.choice(['real', 'complex']))
    return lambda i: S.sh_matrix(N, a[i], z[i], ty)


@batch('sph', 5000)
def inverse_sht(r, n):
    a, z = gen.rand_dirs(r, n)
    N = int(r.integers(0, 4))
    ty = str(r.choice(['real', 'complex']))
    F = c31.nm(r, N, 2)
    return lambda i: S.inverse_sht(F, a[i], z[i], ty)


@batch('sph', 5000, 1)
def sht_columns(r, n):
    N = int(r.integers(0, 4))
    a, z = gen.rand_dirs(r, 40)
    f = r.standard_normal((40, n)) * 10. ** r.integers(-4, 4, n)
    s = 1 / np.max(np.abs(f), axis=0)
    how = r.integers(3)
    ty = str(r.choice(['real', 'complex']))
    w = r.uniform(.1, .2, 40)
    if how == 0:
        return lambda i: S.sht(f[:, i], N, a, z, ty) * s[i]
    if how == 1:
        return lambda i: S.sht(f[:, i], N, a, z, ty, weights=w) * s[i]
    return lambda i: S.sht_lstsq(f[:, i], N, a, z, ty) * s[i]


@batch('sph', 3000)
def rotate(r, n):
    N = int(r.integers(0, 5))
    x = c31.nm(r, N, n).T
    q = r.uniform(-3, 3, 3)
    return lambda i: S.rotate_sh(x[i], *q)


@batch('sph', 20000, 1)
def conventions(r, n):
    N = int(r.integers(0, 5))
    x = c31.nm(r, N, n)
    return lambda i: np.vstack([S.n3d_to_sn3d(x[:, i]),
                                S.sn3d_to_n3d(x[:, i]),
                                S.n3d_to_sn3d(x[:, i].T, axis=1).T])


@batch('sph', 20000, 1)
def b_format(r, n):
    x = r.standard_normal((4, n))
    kw = {} if r.integers(2) else {'W_weight': float(r.uniform(.5, 2))}
    return lambda i: np.vstack([S.sh_to_b(x[:, i], **kw),
                                S.b_to_sh(x[:, i], **kw),
                                S.soundfield_to_b(x[:, i], **kw)])


@batch('sph', 5000, 1)
def source_samples(r, n):
    k = int(r.integers(1, 4))
    x = r.standard_normal((k, n))
    a, z = gen.rand_dirs(r, k)
    N = int(r.integers(0, 4))
    return lambda i: np.vstack([S.src_to_sh(x[:, i], a, z, N),
                                S.src_to_b(x[0, i], a[0], z[0])])


@batch('sph', 20000)
def dirac(r, n):
    N = int(r.integers(0, 9))
    d = r.uniform(0, np.pi, n)
    kw = {} if r.integers(2) else {'w_n': r.uniform(.5, 1, N + 1)}
    return lambda i: S.bandlimited_dirac(N, d[i], **kw)


@batch('sph', 5000)
def energy_vector(r, n):
    p = gen.rand_vecs(r, int(r.integers(3, 9)))
    g = r.uniform(0, 1, (n, len(p)))
    g[r.uniform(size=n) < [0., .3][r.integers(2)]] = 0.

    def f(i):
        v, m = S.r_E(p, g[i])
        # (there is no direction of silence)
        v = np.where(np.any(g[i], axis=1)[:, None], np.reshape(v, (-1, 3)),
                     0.)
        return np.c_[np.reshape(v, (-1, 3)), np.ravel(m)]
    return f


@batch('sph', 20000)
def projection(r, n):
    x, y, z = r.standard_normal((3, n))
    return lambda i: np.stack(S.project_on_sphere(x[i], y[i], z[i]), 1)


@batch('sph', 20000)
def radial(r, n):
    N = int(r.integers(0, 7))
    kr = r.uniform(.5, 20, n)
    w = r.uniform(.5, 1, N + 1)
    return lambda i: np.stack([S.spherical_hn2(N, kr[i]),
                               S.spherical_hn2(N, kr[i], True),
                               S.mode_strength(N, kr[i]),
                               S.mode_strength(N, kr[i], 'open'),
                               S.pressure_on_sphere(N, kr[i]),
                               S.pressure_on_sphere(N, kr[i], w)], 1)


# coordinates ----------------------------------------------------------------
@batch('utils', 20000)
def coordinates(r, n):
    x, y, z = r.standard_normal((3, n))
    a, ze = gen.rand_dirs(r, n)
    d = r.uniform(.1, 3, n)
    # steady_zen acts on the whole batch
    return lambda i: np.hstack([
        np.stack([np.atleast_1d(q) for k in (
            U.cart2sph(x[i], y[i], z[i]),
            U.cart2sph(x[i], y[i], z[i], positive_azi=True),
            U.sph2cart(a[i], ze[i], d[i]), U.sph2cart(a[i], ze[i]),
            U.matlab_sph2cart(a[i], ze[i], d[i]),
            U.cart2dir(x[i], y[i], z[i]), U.dir2cart(a[i], ze[i]))
            for q in k], 1),
        U.vec2dir(np.c_[x, y, z][i])])


@batch('utils', 20000)
def angles(r, n):
    a, z = gen.rand_dirs(r, n)
    b, y = gen.rand_dirs(r, n)
    d = r.uniform(.1, 3, n)
    return lambda i: np.stack([
        U.haversine(a[i], z[i], b[i], y[i]),
        U.haversine(a[i], z[i], b[i], y[i], d[i]),
        U.haversine(a[i], z[i], .3, 1.), U.deg2rad(a[i] * 50),
        U.rad2deg(a[i])], 1)


@batch('utils', 20000)
def level_tools(r, n):
    x = r.standard_normal((n, 4)) * 10. ** r.integers(-4, 4, (n, 1))
    s = np.max(np.abs(x), axis=1)
    return lambda i: np.c_[U.db(x[i]), U.db(x[i], power=True),
                           U.from_db(x[i] / s[i][:, None]),
                           U.rms(x[i]) / s[i], U.rms(x[i].T, axis=0) / s[i],
                           PR.gain_clipping(x[i], 2.) / s[i][:, None]]


@batch('utils', 5000)
def interleaved(r, n):
    x, y = r.standard_normal((2, n, 3))
    return lambda i: U.interleave_channels(x[i], y[i]).reshape(-1, 2, 3)


# processing -----------------------------------------------------------------
@batch('process', 300)
def resampled(r, n):
    x = r.standard_normal((n, 60))
    fs = [[48000, 44100], [16000, 48000], [48000, 16000]][r.integers(3)]
    how = r.integers(3)
    if how == 0:
        return lambda i: PR.resample_signal(x[i], *fs).reshape(len(i), -1)
    if how == 1:
        return lambda i: np.stack(PR.resample_hrirs(x[i], x[i] ** 2,
                                                    *fs)[:2], -1)
    X = np.fft.rfft(x)
    return lambda i: PR.resample_spectrum(X[i], *fs).reshape(len(i), -1)


@batch('process', 3000)
def band_levels(r, n):
    x = r.standard_normal((n, 9))
    w = r.uniform(1, 9, n)
    return lambda i: np.stack([PR.subband_levels(x[i], w[i], 48000),
                               PR.subband_levels(x[i], w[i], 48000,
                                                 power=True)], 1)


@batch('process', 500)
def cues(r, n):
    L, q = r.standard_normal((2, n, 90)) * np.exp(-np.arange(90) / 9)
    a, z = gen.rand_dirs(r, n)
    return lambda i: np.stack([np.atleast_1d(f(spa.sig.HRIRs(
        L[i], q[i], a[i], z[i], 48000))) for f in (
            PR.ilds_from_hrirs,
            lambda h: PR.itds_from_hrirs(h) * 48e3)], 1)


@batch('process', 720)
def channels(r, n):
    x = r.standard_normal((n, 40))
    h = r.standard_normal((n, 5))
    how = r.integers(4)

    def f(i):
        m = spa.sig.MultiSignal([*x[i]], fs=8000)
        if how == 0:
            m.conv(h[i])
        elif how == 1:
            m.trim(.0011, .0031)
        elif how == 2:
            m = m.copy()
        else:
            m.resample(16000)
        return np.asarray(m.get_signals())
    return f


@batch('process', 3000)
def ear_filters(r, n):
    L, q = r.standard_normal((2, n, 12))
    a, z = gen.rand_dirs(r, n)
    h = r.standard_normal(4)

    def f(i):
        s = spa.sig.HRIRs(L[i], q[i], a[i], z[i], 48000)
        s.apply_ctf_eq(h)
        return np.c_[s.left, s.right, s.azi, s.zen]
    return f


@batch('process', 2000)
def nearest(r, n):
    h = c31.hrirs(r, int(r.integers(2, 60)))
    a, z = gen.rand_dirs(r, n)

    def f(i):
        k = np.atleast_1d(h.nearest_idx(a[i], z[i]))
        p = [h.nearest_hrirs(a[j], z[j]) for j in i[:3]]
        for e, j in zip(p, k):
            if not (np.array_equal(e[0], h.left[j]) and
                    np.array_equal(e[1], h.right[j])):
                return np.full(len(k), -1)
        return k
    return f


# parametric -----------------------------------------------------------------
@batch('parsa', 5000)
def beams(r, n):
    N = int(r.integers(1, 5))
    a, z = gen.rand_dirs(r, n)
    pat = ['cardioid', 'hypercardioid', 'max_re',
           r.uniform(.5, 1, N + 1)][r.integers(4)]
    return lambda i: P.sh_beamformer_from_pattern(pat, N, a[i], z[i])


@batch('parsa', 5000)
def beamforming(r, n):
    N = int(r.integers(0, 4))
    w = c31.nm(r, N, n).T
    x = c31.nm(r, N, 5)
    if r.integers(2):
        return lambda i: P.sh_beamform(w[i], x)
    return lambda i: P.sh_beamform(x.T, w[i].T).T


@batch('parsa', 5000)
def spectrum_scan(r, n):
    N = int(r.integers(1, 4))
    C = c31.cov(r, N)
    a, z = gen.rand_dirs(r, n)
    k = int(r.integers(1, 4))
    if r.integers(2):
        return lambda i: P.sh_music(C, k, a[i], z[i])
    # MVDR: one set of weights per direction
    return lambda i: P.sh_mvdr(C, a[i], z[i])


@batch('parsa', 5000, 1)
def sectors(r, n):
    N = int(r.integers(1, 4))
    A = r.standard_normal((6, (N + 1) ** 2))
    b = r.standard_normal((n, 4))
    x = c31.nm(r, N, n)
    # parameters of every sample, weighted to one array
    return lambda i: np.vstack([P.sh_beamform(A, x[:, i]), b[i].T])


@batch('parsa', 3000)
def sdm(r, n):
    p = r.standard_normal(n)
    a, z = gen.rand_dirs(r, n)
    h = c31.hrirs(r, 20, 16)
    stereo = r.integers(2)

    if stereo:
        return lambda i: np.stack(P.render_stereo_sdm(p[i], a[i], z[i]), 1)

    def f(i):
        # responses of samples that are far apart do not overlap
        q = np.zeros((len(i), 20))
        q[:, 0] = p[i]
        ang = np.repeat(a[i], 20), np.repeat(z[i], 20)
        L, Rr = P.render_bsdm(q.ravel(), *ang, h)
        m = len(i) * 20
        return np.c_[L[:m].reshape(-1, 20), Rr[:m].reshape(-1, 20)]
    return f


# decoders -------------------------------------------------------------------
@batch('decoder', 3000)
def panning(r, n):
    ls = c31.setup(str(r.choice(['octa', 'dome'])))
    src = gen.rand_vecs(r, n) * r.uniform(.5, 2, (n, 1))
    f = [D.vbap, D.vbip, D.nearest_loudspeaker][r.integers(3)]
    return lambda i: np.reshape(f(src[i], ls), (len(i), -1))


@batch('decoder', 400)
def panning_ambisonic(r, n):
    ls = c31.setup(str(r.choice(['octa', 'dome'])))
    src = gen.rand_vecs(r, n)
    f = [D.allrap, D.allrap2][r.integers(2)]
    N = int(r.integers(1, 3))
    return lambda i: np.reshape(f(src[i], ls, N_sph=N), (len(i), -1))


@batch('decoder', 5000, 1)
def decoding(r, n):
    ls = c31.setup(str(r.choice(['octa', 'dome'])))
    N = int(r.integers(1, 3))
    F = c31.nm(r, N, n)
    names = [D.allrad, D.sad, D.mad, D.epad, D.allrad2]
    f = names[r.integers(5)]
    s = 1
    return lambda i: s * f(F[:, i], ls, N_sph=N)


@batch('decoder', 720)
def binaural(r, n):
    # loudspeaker signals that do not overlap in time
    ls = c31.setup('octa')
    h = c31.hrirs(r, 30, 16)
    x = r.standard_normal((6, n))
    o = tuple(r.uniform(-1, 1, 2))
    orient = r.integers(2)

    def f(i):
        y = np.zeros((6, len(i), 400))
        y[:, :, 0] = x[:, i]
        kw = {'orientation': o} if orient else {}
        with contextlib.redirect_stdout(io.StringIO()):
            L, q = ls.binauralize(y.reshape(6, -1), 48000, hrirs=h, **kw)
        m = len(i) * 400
        return np.c_[L[:m].reshape(-1, 400), q[:m].reshape(-1, 400)]
    return f


@batch('decoder', 5000)
def gains(r, n):
    ls = c31.setup('octa')
    ls.ls_gains = r.uniform(.5, 1, 6)
    g = r.uniform(0, 1, (n, 6))
    x = r.standard_normal(n)
    if r.integers(2):
        return lambda i: ls.loudspeaker_signals(g[i]).T
    return lambda i: ls.loudspeaker_signals(g[i], x[i]).T


@batch('decoder', 2000)
def sh_binaural(r, n):
    N = int(r.integers(0, 3))
    x = c31.nm(r, N, n)
    h = r.standard_normal((2, (N + 1) ** 2, 9))

    def f(i):
        y = np.zeros(((N + 1) ** 2, len(i), 16))
        y[:, :, 0] = x[:, i]
        z = np.asarray(D.sh2bin(y.reshape((N + 1) ** 2, -1), h))
        m = len(i) * 16
        return np.c_[z[0, :m].reshape(-1, 16), z[1, :m].reshape(-1, 16)]
    return f


# ----------------------------------------------------------------------------
def make(group, quick):
    def check(c, t):
        name, fn, most, axis = TABLE[group][c['f'] % len(TABLE[group])]
        n = c['n'] if c['n'] <= most else 1 + c['n'] % most
        r = gen.rng(c['w'])
        f = fn(r, n)
        t.nt(n > 1)
        t.label(name)
        t.label('more than 1000' if n > 1000 else 'up to 1000')
        t.rows(f, n, f'{name}, {n} entries', c['w'], axis=axis, rtol=1e-7,
               atol=1e-8)
    check.__name__ = group
    check.__doc__ = f'{group}: ' + ', '.join(
        k[0] for k in TABLE[group]) + '.'
    R.sub(dict(w=gen.seeds, f=st.integers(0, 59), n=sizes), quick=quick,
          weight=4)(check)


for _g, _q in (('sph', 400), ('utils', 200), ('process', 250),
               ('parsa', 300), ('decoder', 300)):
    make(_g, _q)
