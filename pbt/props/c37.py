"""C37 linear operations superpose, and everything scales as it should."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref
from pbt.props import c31

S, U, D, P, PR = spa.sph, spa.utils, spa.decoder, spa.parsa, spa.process
R = core.Registry('C37', 'signals, coefficients, responses and positions at '
                  'levels from 1e-9 to 1e6, sums of two of them, entries of '
                  'very different levels; non-trivial: every case (the '
                  'signals are never silent)')
LIN, HOM = {}, {}
LEVELS = [1e-9, 1e-7, 1e-5, 1e-3, .1, -1., 7., 1e3, 1e6]


def linear(group, columns=False):
    """maker(r) -> (function, argument); linear in the argument, and for
    every entry of the last axis on its own (columns)."""
    def deco(fn):
        LIN.setdefault(group, []).append((fn.__name__, fn, columns))
        return fn
    return deco


def scales(group, degree, lo=1e-9, hi=1e6):
    """maker(r) -> (function, argument); the result is homogeneous of this
    degree."""
    def deco(fn):
        HOM.setdefault(group, []).append((fn.__name__, fn, degree, lo, hi))
        return fn
    return deco


def pick(r, *x):
    return x[r.integers(len(x))]


# spherical harmonics --------------------------------------------------------
@linear('sph', True)
def transform(r):
    N = int(r.integers(0, 5))
    a, z = gen.rand_dirs(r, (N + 1) ** 2 + 10)
    ty = pick(r, 'real', 'complex')
    w = r.uniform(.1, .2, len(a))
    f = pick(r, lambda v: S.sht(v, N, a, z, ty),
             lambda v: S.sht(v, N, a, z, ty, weights=w),
             lambda v: S.sht_lstsq(v, N, a, z, ty))
    x = r.standard_normal((len(a), int(r.integers(1, 5))))
    if ty == 'complex' and r.integers(2):
        x = x + 1j * r.standard_normal(x.shape)
    return f, x


@linear('sph', True)
def inverse(r):
    N = int(r.integers(0, 5))
    a, z = gen.rand_dirs(r, int(r.integers(1, 30)))
    ty = pick(r, 'real', 'complex')
    return lambda v: S.inverse_sht(v, a, z, ty), \
        c31.nm(r, N, int(r.integers(1, 5)))


@linear('sph')
def rotated(r):
    N = int(r.integers(0, 5))
    q = r.uniform(-3, 3, 3)
    return lambda v: S.rotate_sh(v, *q), c31.nm(r, N, 4).T


@linear('sph', True)
def channel_formats(r):
    N = int(r.integers(1, 5))
    kw = pick(r, {}, {'W_weight': float(r.uniform(.5, 2))})
    return pick(r, (S.n3d_to_sn3d, c31.nm(r, N)),
                (S.sn3d_to_n3d, c31.nm(r, N)),
                (lambda v: S.sh_to_b(v, **kw), c31.nm(r, 1)),
                (lambda v: S.b_to_sh(v, **kw), c31.nm(r, 1)),
                (lambda v: S.soundfield_to_b(v, **kw), c31.nm(r, 1)),
                (lambda v: np.stack(PR.b_to_stereo(spa.sig.AmbiBSignal(
                    [*v], fs=8000))), c31.nm(r, 1)))


@linear('sph', True)
def encoder(r):
    k, N = int(r.integers(1, 5)), int(r.integers(0, 5))
    a, z = gen.rand_dirs(r, k)
    return lambda v: S.src_to_sh(v, a, z, N), r.standard_normal((k, 6))


@linear('sph', True)
def encoder_b(r):
    a, z = r.uniform(0, 3, 2)
    return lambda v: S.src_to_b(v, a, z), r.standard_normal(9)


@linear('sph')
def weighting(r):
    N = int(r.integers(0, 6))
    d = r.uniform(0, 3, 9)
    b = c31.nm(r, int(r.integers(0, 3)), 1)[:, 0]
    return pick(r, (S.repeat_per_order, r.standard_normal(N + 1)),
                (lambda v: S.bandlimited_dirac(N, d, v),
                 r.standard_normal(N + 1)),
                (lambda v: S.sh_mult(v, b, 'real'), c31.nm(r, N, 1)[:, 0]),
                (lambda v: S.sh_mult(b, v, 'real'), c31.nm(r, N, 1)[:, 0]),
                (lambda v: P.sh_sector_beamformer(v),
                 c31.nm(r, N, int(r.integers(1, 4))).T))


@scales('sph', 0)
def unit_gain(r):
    return S.unity_gain, r.uniform(.2, 1, int(r.integers(1, 7)))


@scales('sph', 0)
def energy_vector(r):
    p = gen.rand_vecs(r, 6)
    return lambda g: np.concatenate([np.ravel(k) for k in S.r_E(p, g)]), \
        r.uniform(0, 1, (4, 6))


@scales('sph', 0)
def projection(r):
    return lambda v: np.stack(S.project_on_sphere(*v)), \
        r.standard_normal((3, 5))


@scales('sph', .5)
def tapered_pressure(r):
    N = int(r.integers(0, 6))
    kr = r.uniform(.1, 9, 5)
    return lambda w: S.pressure_on_sphere(N, kr, w), r.uniform(.1, 1, N + 1)


@scales('sph', -.5)
def tapered_coloration(r):
    N = int(r.integers(0, 6))
    f = np.linspace(100, 2e4, 9)
    return lambda w: S.binaural_coloration_compensation(N, f, w_taper=w), \
        r.uniform(.1, 1, N + 1)


# utils and process ----------------------------------------------------------
@scales('process', 0)
def angles(r):
    w = r.standard_normal(3)
    # (cosine of the angle: arccos amplifies rounding next to 0 and pi)
    return pick(r, (lambda v: np.cos(U.angle_between(v, w)),
                    r.standard_normal(3)),
                (lambda v: np.cos(U.angle_between(w, v)),
                 r.standard_normal(3)),
                (lambda v: np.stack(U.cart2dir(*v)),
                 r.standard_normal((3, 4))),
                (lambda v: np.stack(U.cart2sph(*v)[:2]),
                 r.standard_normal((3, 4))),
                (lambda v: U.vec2dir(v), r.standard_normal((4, 3))),
                (PR.energy_decay, r.standard_normal(30)))


@scales('process', 1)
def lengths(r):
    a, z = gen.rand_dirs(r, 5)
    return pick(r, (lambda v: U.cart2sph(*v)[2], r.standard_normal((3, 4))),
                (lambda v: np.stack(U.sph2cart(a, z, v)),
                 r.uniform(.1, 2, 5)),
                (lambda v: U.haversine(a, z, .3, 1., v),
                 r.uniform(.1, 2, 5)),
                (U.rms, r.standard_normal((3, 8))),
                (lambda v: PR.gain_clipping(v[1:], v[0]),
                 r.uniform(.1, 4, 9)),
                (lambda v: PR.subband_levels(v, np.array([1., 3]), 48000),
                 r.standard_normal((2, 8))))


@scales('process', 2)
def areas(r):
    return pick(r, (lambda v: U.area_triangle(*v), r.standard_normal((3, 3))),
                (lambda v: PR.subband_levels(v, np.array([1., 3]), 48000,
                                             power=True),
                 r.standard_normal((2, 8))))


@scales('process', 0)
def ear_cues(r):
    h = c31.hrirs(r, 6, 64)

    def both(v):
        return spa.sig.HRIRs(v[0], v[1], h.azi, h.zen, 48000)
    x = np.stack([h.left, h.right])
    w = np.full(6, 4 * np.pi / 6)
    return pick(r, (lambda v: PR.ilds_from_hrirs(both(v)), x),
                (lambda v: PR.itds_from_hrirs(both(v)) * 48e3, x),
                (lambda v: PR.hrirs_ctf(both(v), MIN_PHASE=False,
                                        grid_weights=w), x))


@scales('process', 0, 1e-7, 1e6)
def loudness(r):
    y = .01 * r.standard_normal((50, 2))

    def f(v):
        with contextlib.redirect_stdout(io.StringIO()):
            return PR.match_loudness(v, y)
    return f, r.standard_normal((60, 2))


@linear('process')
def resampled(r):
    fs = pick(r, (48000, 44100), (16000, 48000), (48000, 24000))
    k = pick(r, lambda v: PR.resample_signal(v, *fs),
             lambda v: np.stack(PR.resample_hrirs(v, v[::-1], *fs)[:2]))
    return k, r.standard_normal((2, 80))


@linear('process')
def smoothed(r):
    n = pick(r, 1, 3, 6)
    w = bool(r.integers(2))
    return lambda v: PR.frac_octave_smoothing(v, n, w), \
        r.standard_normal(40)


@linear('process')
def signals(r):
    h = r.standard_normal(7)

    def obj(v):
        return spa.sig.MultiSignal([*v], fs=8000)

    def conv(v):
        m = obj(v)
        m.conv([h] * len(v))
        return m.get_signals()

    def irs(v):
        m = obj(x0)
        m.conv(v)
        return m.get_signals()

    def mono(v):
        m = spa.sig.MonoSignal(v, 8000)
        m.conv(h)
        return m.signal

    def trim(v):
        m = obj(v)
        m.trim(.001, .003)
        return m.get_signals()

    def res(v):
        m = obj(v)
        m.resample(16000)
        return m.get_signals()

    def eq(v):
        q = spa.sig.HRIRs(v, v[::-1], np.arange(3.), np.ones(3), 48000)
        q.apply_ctf_eq(h)
        return np.stack([q.left, q.right])
    x0 = r.standard_normal((3, 60))
    return pick(r, (conv, x0), (irs, r.standard_normal((3, 5))),
                (mono, x0[0]), (trim, x0), (res, x0), (eq, x0),
                (lambda v: U.interleave_channels(v, v), x0),
                (lambda v: obj(v).get_signals(), x0))


@linear('process')
def a_format(r):
    return lambda v: PR.ambeo_a2b(spa.sig.MultiSignal(
        [*v], fs=8000)).get_signals(), r.standard_normal((4, 20))


# parsa ----------------------------------------------------------------------
@linear('parsa', True)
def beamformed(r):
    N = int(r.integers(0, 4))
    w, x = c31.nm(r, N, 3).T, c31.nm(r, N, 5)
    return lambda v: P.sh_beamform(w, v), x


@linear('parsa')
def beam_weights(r):
    N = int(r.integers(1, 4))
    x, C = c31.nm(r, N, 5), c31.cov(r, N)
    a, z = gen.rand_dirs(r, 3)
    return pick(r, (lambda v: P.sh_beamform(v, x), c31.nm(r, N, 3).T),
                (lambda v: P.sh_beamformer_from_pattern(v, N, a, z),
                 r.uniform(.2, 1, N + 1)),
                (lambda v: P.sh_lcmv(C, a, z, v), r.standard_normal(3)))


@scales('parsa', 0, 1e-6, 1e6)
def adaptive(r):
    N = int(r.integers(1, 4))
    C = c31.cov(r, N)
    a, z = gen.rand_dirs(r, 3)
    return pick(r, (lambda v: P.sh_mvdr(v, a, z), C),
                (lambda v: P.sh_lcmv(v, a, z, [1., 0, .5]), C),
                (lambda v: P.sh_music(v, 2, a, z), C))


@scales('parsa', 1, 1e-6, 1e6)
def separated(r):
    N = int(r.integers(1, 4))
    return lambda v: np.stack(P.separate_cov(v, 2)), c31.cov(r, N)


@linear('parsa')
def sdm(r):
    n = int(r.integers(2, 40))
    a, z = gen.rand_dirs(r, n)
    h = c31.hrirs(r, 12, 16)
    p = r.standard_normal(n)

    def ear(v):
        return np.stack(P.render_bsdm(p, a, z, spa.sig.HRIRs(
            v[0], v[1], h.azi, h.zen, 48000)))
    return pick(r, (lambda v: np.stack(P.render_stereo_sdm(v, a, z)), p),
                (lambda v: np.stack(P.render_bsdm(v, a, z, h)), p),
                (ear, np.stack([h.left, h.right])))


@scales('parsa', 0, 1e-3, 1e4)
def intensity_direction(r):
    x = r.standard_normal((4, 80))
    bp = pick(r, None, (100, 3000))

    def f(v):
        a, z, _ = P.pseudo_intensity(spa.sig.AmbiBSignal([*v], fs=8000),
                                     win_len=9, f_bp=bp)
        return ref.cart(a, z)
    return f, x


# decoder --------------------------------------------------------------------
@linear('decoder', True)
def decoded(r):
    ls = c31.setup(pick(r, 'octa', 'dome'))
    N = int(r.integers(1, 3))
    f = pick(r, D.sad, D.mad, D.epad, D.allrad, D.allrad2)
    return lambda v: f(v, ls, N_sph=N), c31.nm(r, N, int(r.integers(1, 6)))


@scales('decoder', 0, 1e-4, 1e5)
def panned(r):
    ls = c31.setup(pick(r, 'octa', 'dome'))
    ls.a = pick(r, 0, 1)
    f = pick(r, D.vbap, D.vbip, D.allrap, D.allrap2, D.nearest_loudspeaker)
    kw = {'N_sph': 1} if f in (D.allrap, D.allrap2) else {}
    return lambda v: f(v, ls, **kw), gen.rand_vecs(r, int(r.integers(1, 6)))


@linear('decoder')
def fed(r):
    ls = c31.setup('octa')
    g, x = r.standard_normal((9, 6)), r.standard_normal(9)
    N = int(r.integers(0, 3))
    s, h = c31.nm(r, N, 20), r.standard_normal((2, (N + 1) ** 2, 7))
    q = c31.hrirs(r, 12, 16)
    y = .1 + r.uniform(0, 1, (6, 20))

    def ear(v):
        return np.stack(ls.binauralize(y, 48000, hrirs=spa.sig.HRIRs(
            v[0], v[1], q.azi, q.zen, 48000)))
    return pick(r, (lambda v: ls.loudspeaker_signals(v, x), g),
                (lambda v: ls.loudspeaker_signals(v), g),
                (lambda v: ls.loudspeaker_signals(g, v), x),
                (lambda v: D.sh2bin(v, h), s), (lambda v: D.sh2bin(s, v), h),
                (ear, np.stack([q.left, q.right])))


@scales('decoder', 1, 1e-3, 1e6)
def heard(r):
    # channels below -100 dB are left out, as documented
    ls = c31.setup('octa')
    q = c31.hrirs(r, 12, 16)
    return lambda v: np.stack(ls.binauralize(v, 48000, hrirs=q)), \
        r.choice([-1., 1], (6, 20)) * r.uniform(.1, 1, (6, 20))


@scales('decoder', 1, 1e-6, 1e6)
def magls(r):
    a, z = ref.sph(spa.grids.load_t_design(7))[:2]
    x = r.standard_normal((2, len(a), 32))
    kw = pick(r, {}, {'hf_cont': 'delay', 'hf_delay': (1, 2)},
              {'hf_cont': 'angle'})
    return lambda v: D.magls_bin(spa.sig.HRIRs(v[0], v[1], a, z, 48000), 1,
                                 **kw), x


# ----------------------------------------------------------------------------
def check_linear(table, c, t):
    name, mk, columns = table[c['f'] % len(table)]
    r = gen.rng(c['w'])
    f, x = mk(r)
    t.nt()
    t.label(name)
    y = np.asarray(f(x.copy()))
    tol = 1e-7 * np.max(np.abs(y))

    def eq(got, want, what):
        t.close(got, want, f'{name}: {what}', rtol=1e-7, atol=tol)
    for s in LEVELS:
        eq(np.asarray(f(x * s)) / s, y, f'at level {s}')
    k = r.standard_normal(x.shape) * 10. ** -int(r.integers(0, 7))
    eq(np.asarray(f(x + k)) - np.asarray(f(k)), y, 'sum of two')
    m = r.integers(0, 2, x.shape).astype(bool)
    eq(np.asarray(f(np.where(m, x, 0))) + np.asarray(f(np.where(m, 0, x))),
       y, 'sum of parts')
    if np.iscomplexobj(y) and np.iscomplexobj(x):
        eq(np.asarray(f(1j * x)), 1j * y, 'times i')
    if columns and x.shape[-1] > 1:
        d = 10. ** r.integers(-8, 6, x.shape[-1])
        eq(np.asarray(f(x * d)) / d, y, 'levels per column')


def check_scale(table, c, t):
    name, mk, deg, lo, hi = table[c['f'] % len(table)]
    r = gen.rng(c['w'])
    f, x = mk(r)
    t.nt()
    t.label(name)
    y = np.asarray(f(x.copy()))
    s = np.max(np.abs(y)) if y.size else 1.
    for k in [q for q in LEVELS if lo <= q <= hi] + [lo, hi]:
        t.close(np.asarray(f(x * k)) / k ** deg, y, f'{name}: at level {k}',
                rtol=1e-6, atol=1e-6 * s)


def make(group, kind, quick):
    table = dict(LIN=LIN, HOM=HOM)[kind][group]
    check = {'LIN': check_linear, 'HOM': check_scale}[kind]

    def fn(c, t):
        check(table, c, t)
    fn.__name__ = f'{group}_' + {'LIN': 'superpose', 'HOM': 'scale'}[kind]
    fn.__doc__ = ', '.join(k[0] for k in table) + '.'
    R.sub(dict(w=gen.seeds, f=st.integers(0, 59)), quick=quick, weight=2)(fn)


for _g, _q in (('sph', 300), ('process', 300), ('parsa', 250),
               ('decoder', 300)):
    make(_g, 'LIN', _q)
    make(_g, 'HOM', _q)
