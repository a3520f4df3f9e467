"""C31 purity and repeatability of the public functions."""
import copy
import os
import pickle
import signal
import warnings
from unittest import mock

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C31', 'sequences of 3..8 calls out of a table of the '
                  'public functions with generated arguments; afterwards '
                  'every call is repeated; non-trivial: every sequence')
CALLS = {}
CACHE = {}
D, P, S, U, G, PR, IO = (spa.decoder, spa.parsa, spa.sph, spa.utils,
                         spa.grids, spa.process, spa.io)
OCTA = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1],
                 [0, 0, -1]], float)


def call(*groups):
    def deco(fn):
        for g in groups:
            CALLS.setdefault(g, []).append(fn)
        return fn
    return deco


def case(fn, *a, **k):
    return fn.__name__, fn, a, k


def nm(r, N, T=6):
    return r.standard_normal(((N + 1) ** 2, T))


def setup(kind):
    """Private copies, prepared once."""
    if kind not in CACHE:
        if kind == 'dome':
            a = np.arange(6) * np.pi / 3
            v = np.vstack([np.c_[np.cos(a), np.sin(a), .05 + 0 * a],
                           np.c_[np.cos(a[::2]), np.sin(a[::2]),
                                 1 + 0 * a[::2]], [[0, 0, 1.2]]])
            h = D.LoudspeakerSetup(*v.T)
            h.pop_triangles()
            h.ambisonics_setup(update_hull=True, N_kernel=6)
        else:
            h = D.LoudspeakerSetup(*(OCTA * [[1.5], [1], [1], [1.2], [1],
                                             [1]]).T,
                                   listener_position=[.05, .02, 0])
            h.pop_triangles()
            h.ambisonics_setup(N_kernel=6)
        CACHE[kind] = h
    return copy.deepcopy(CACHE[kind])


def hrirs(r, n=40, taps=24, fs=48000):
    a, z = gen.rand_dirs(r, n)
    env = np.exp(-np.arange(taps) / 8)
    return spa.sig.HRIRs(r.standard_normal((n, taps)) * env,
                         r.standard_normal((n, taps)) * env, a, z, fs)


def multi(r, c=3, n=60, fs=8000):
    return spa.sig.MultiSignal([*r.standard_normal((c, n))], fs=fs)


# SHs ------------------------------------------------------------------------
@call('sph')
def transforms(r):
    N = int(r.integers(0, 4))
    a, z = gen.rand_dirs(r, 40)
    ty = str(r.choice(['real', 'complex']))
    f, F = r.standard_normal(40), nm(r, N, 2)
    Y = S.sh_matrix(N, a, z, ty)
    n = int(r.choice([1, 2, 7, 9, 33, 70]))
    f2 = r.standard_normal((40, n))
    kind = str(r.choice(['array', 'list']))
    a, z = gen.as_kind(a, kind), gen.as_kind(z, kind)
    return [case(S.sh_matrix, N, a, z, ty),
            case(S.sht, f, N, a, z, ty, weights=r.uniform(.1, .2, 40)),
            case(S.sht, f2, N, a, z, ty, Y_nm=Y),
            case(S.sht, f2, N, a, z, ty, weights=r.uniform(.1, .2, 40)),
            case(S.sht_lstsq, f2, N, a, z, ty),
            case(S.inverse_sht, nm(r, N, n), a, z, ty),
            case(S.sht_lstsq, f, N, a, z, ty),
            case(S.sht_lstsq, f, N, a, z, ty, Y_nm=Y),
            case(S.inverse_sht, F, a, z, ty),
            case(S.inverse_sht, F, a, z, ty, Y_nm=Y),
            case(S.check_cond_sht, N, a, z, ty, lim=1e3)]


@call('sph')
def rotations(r):
    N = int(r.integers(0, 4))
    yaw, pitch, roll = r.uniform(-3, 3, 3)
    return [case(S.sh_rotation_matrix, N, yaw, pitch, roll),
            case(S.sh_rotation_matrix, N, yaw, pitch, roll,
                 return_as_blocks=True),
            case(S.rotate_sh, nm(r, N).T, yaw, pitch, roll)]


@call('sph')
def formats(r):
    N = int(r.integers(1, 4))
    x = r.standard_normal((4, 7))
    a, z = gen.rand_dirs(r, 2)
    s = r.standard_normal((2, 9))
    w = float(r.uniform(.5, 2))
    kw = {} if r.integers(2) else {'W_weight': w}
    return [case(S.n3d_to_sn3d, nm(r, N)),
            case(S.n3d_to_sn3d, nm(r, N).T, axis=1),
            case(S.sn3d_to_n3d, nm(r, N)),
            case(S.sh_to_b, x, **kw), case(S.b_to_sh, x, **kw),
            case(S.soundfield_to_b, x, **kw),
            case(S.src_to_b, s[0], a[0], z[0]),
            case(S.src_to_sh, s, a, z, N),
            case(PR.b_to_stereo, spa.sig.AmbiBSignal([*x], fs=8000)),
            case(S.sh_to_b, multi(r, 4, 7).get_signals(), **kw)]


@call('sph')
def weights(r):
    N = int(r.integers(1, 6))
    w = r.uniform(.5, 1, N + 1)
    a, z = gen.rand_dirs(r, 30)
    L = int(r.integers(3, 8))
    return [case(S.max_rE_weights, N), case(S.unity_gain, w),
            case(S.repeat_per_order, w),
            case(S.hypercardioid_modal_weights, N),
            case(S.cardioid_modal_weights, N),
            case(S.maxre_modal_weights, N),
            case(S.butterworth_modal_weights, N, 3, 2),
            case(S.bandlimited_dirac, N, r.uniform(0, 3, 5), w_n=w),
            case(S.r_E, gen.rand_vecs(r, L), r.uniform(0, 1, (4, L))),
            case(S.project_on_sphere, *r.standard_normal((3, 5))),
            case(S.design_sph_filterbank, N, a, z, w,
                 str(r.choice(['perfect', 'energy', 'pinv']))),
            case(S.sph_filterbank_reconstruction_factor,
                 S.sh_matrix(N, a, z)[0], 30, mode='energy'),
            case(S.platonic_solid, 'cube')][: -1]


@call('sph')
def radial(r):
    N = int(r.integers(0, 6))
    kr = r.uniform(.1, 9, 7)
    return [case(S.spherical_hn2, N, kr), case(S.spherical_hn2, N, kr, True),
            case(S.mode_strength, N, kr),
            case(S.pressure_on_sphere, N, kr,
                 weights=r.uniform(.5, 1, N + 1)),
            case(S.binaural_coloration_compensation, N,
                 np.linspace(0, 2e4, 9), w_taper=r.uniform(.5, 1, N + 1)),
            case(S.sh_mult, nm(r, N, 1)[:, 0], nm(r, 1, 1)[:, 0], 'real')]


# grids and utils ------------------------------------------------------------
@call('utils')
def grids(r):
    a, z = gen.rand_dirs(r, 25)
    b, w = gen.rand_dirs(r, 150)
    return [case(G.calculate_grid_weights, a, z, 2),
            case(G.calculate_grid_weights, b, w, int(r.integers(5, 9))),
            case(G.calculate_grid_weights, *U.vec2dir(G.load_t_design(6)).T),
            case(G.load_t_design, int(r.integers(1, 12))),
            case(G.load_n_design, int(r.integers(1, 12))),
            case(G.load_lebedev, int(r.integers(1, 6)) * 2 + 1),
            case(G.load_Fliege_Maier_nodes, int(r.integers(2, 9))),
            case(G.equal_angle, int(r.integers(1, 6))),
            case(G.gauss, int(r.integers(1, 6))),
            case(G.equal_polar_angle, int(r.integers(1, 9)))]


@call('utils')
def geometry(r):
    x, y, z = r.standard_normal((3, 6))
    a, ze = gen.rand_dirs(r, 6)
    v, w = r.standard_normal((2, 3))
    kind = str(r.choice(['array', 'list', 'tuple']))
    x, y, z, a, ze = [gen.as_kind(q, kind) for q in (x, y, z, a, ze)]
    vec = np.c_[x, y, z]
    return [case(U.cart2sph, x, y, z, steady_zen=True),
            case(U.cart2sph, x, y, z, positive_azi=True),
            case(U.sph2cart, a, ze, gen.as_kind(np.arange(1., 7), kind)),
            case(U.matlab_sph2cart, a, ze), case(U.cart2dir, x, y, z),
            case(U.dir2cart, a, ze), case(U.vec2dir, vec),
            case(U.angle_between, v, w), case(U.angle_between, v, w, x[:3]),
            case(U.rotation_euler, .1, .2, .3),
            case(U.rotation_rodrigues, v, -1.2),
            case(U.rotation_vecvec, v, w),
            case(U.haversine, np.array(a), np.array(ze), .2, 1.),
            case(U.area_triangle, v, w, np.ones(3)),
            case(U.asarray_1d, a), case(U.deg2rad, np.array(a)),
            case(U.rad2deg, np.array(a))]


@call('utils')
def levels(r):
    x = r.standard_normal((3, 8))
    y = r.standard_normal((3, 8))
    return [case(U.db, x), case(U.db, x, power=True), case(U.from_db, x),
            case(U.rms, x), case(U.stack, x, y),
            case(U.interleave_channels, x, y),
            case(U.test_diff, x, x + 1e-9, VERBOSE=False)]


# process --------------------------------------------------------------------
@call('process')
def resampling(r):
    x = r.standard_normal((2, 90))
    return [case(PR.resample_signal, x, 48000, 44100),
            case(PR.resample_signal, x, 48000, 48000),
            case(PR.resample_spectrum, np.abs(x[0]), 48000, 96000),
            case(PR.resample_hrirs, x, x[::-1].copy(), 48000, 16000)]


@call('process')
def spectra(r):
    x = r.standard_normal(64)
    a = np.abs(r.standard_normal(50))
    g = r.uniform(0, 4, 9)
    m = r.standard_normal((60, 2))
    return [case(PR.frac_octave_smoothing, a, 3),
            case(PR.frac_octave_smoothing, a.astype(int), 3, WEIGHTED=False),
            case(PR.frac_octave_filterbank, 1, 129, 48000, 100, 8000),
            case(PR.subband_levels, r.standard_normal((4, 30)),
                 np.array([1., 2, 4, 8]), 48000),
            case(PR.energy_decay, x), case(PR.half_sided_Hann, 8),
            case(PR.gain_clipping, g, 1.5), case(PR.lagrange_delay, 4, 1.7),
            case(PR.match_loudness, m, 3 * m[::-1].copy()),
            case(PR.ambeo_a2b, multi(r, 4, 30))]


@call('process')
def ears(r):
    h = hrirs(r, 12, 64)
    w = np.full(12, 4 * np.pi / 12)
    h2 = h.copy()

    def nearest(h, a, z):
        return h.nearest_hrirs(a, z), h.nearest_idx(a, z), h[0], len(h)
    return [case(PR.ilds_from_hrirs, h), case(PR.itds_from_hrirs, h),
            case(PR.hrirs_ctf, h, MIN_PHASE=False, grid_weights=w),
            case(nearest, h2, *r.uniform(0, 3, 2)),
            case(nearest, h2, list(r.uniform(0, 3, 2)), [.2, .3])]


# parsa ----------------------------------------------------------------------
def cov(r, N):
    x = nm(r, N, 50)
    return x @ x.T / 50


@call('parsa')
def beams(r):
    N = int(r.integers(1, 4))
    a, z = gen.rand_dirs(r, 5)
    C = cov(r, N)
    w = r.uniform(.5, 1, N + 1)
    return [case(P.sh_beamformer_from_pattern, 'max_re', N, a, z),
            case(P.sh_beamformer_from_pattern, w, N, a, z),
            case(P.sh_beamform, nm(r, N, 3).T, nm(r, N)),
            case(P.estimate_num_sources, C), case(P.separate_cov, C, 1),
            case(P.separate_cov, C), case(P.sh_music, C, 1, a, z),
            case(P.sh_mvdr, C, a, z),
            case(P.sh_lcmv, C, a[:2], z[:2], [1, 0]),
            case(P.sh_sector_beamformer, nm(r, N, 4).T)]


@call('parsa')
def sound_field(r):
    b = spa.sig.AmbiBSignal([*r.standard_normal((4, 150))], fs=8000)
    n = 30
    p = r.standard_normal(n)
    a, z = gen.rand_dirs(r, n)
    h = hrirs(r)
    ls = setup('octa')
    g = np.eye(6)[r.integers(0, 6, n)]
    x = .1 * r.standard_normal((6, n))

    def render(p, g, ls, h):
        with mock.patch.object(IO, 'load_hrirs', lambda *a, **k: h):
            return P.render_binaural_loudspeaker_sdm(
                p, g, ls, 48000, post_eq_func=None)
    return [case(P.pseudo_intensity, b, win_len=9, f_bp=None),
            case(P.pseudo_intensity, b, win_len=9, f_bp=(100, 3000)),
            case(P.render_stereo_sdm, p, a, z),
            case(P.render_bsdm, p, a, z, h),
            case(render, p, g, ls, h),
            case(P.sdm_post_equalization2, x, p, 48000, ls, blocksize=128)]


# decoder --------------------------------------------------------------------
@call('decoder', 'decoder')
def panning(r):
    ls = setup(str(r.choice(['octa', 'dome'])))
    src = gen.rand_vecs(r, int(r.integers(1, 5)))
    F = nm(r, 1)
    return [case(D.vbap, src, ls), case(D.vbip, src, ls),
            case(D.vbap, src, ls, norm=1), case(D.nearest_loudspeaker, src,
                                                ls),
            case(D.allrap, src, ls, N_sph=1),
            case(D.allrap2, src, ls, N_sph=1),
            case(D.allrad, F, ls, N_sph=1), case(D.allrad2, F, ls, N_sph=1),
            case(D.sad, F, ls, N_sph=1), case(D.mad, F, ls, N_sph=1),
            case(D.epad, F, ls, N_sph=1)]


@call('decoder')
def retained(r):
    ls = setup('dome')
    src = gen.rand_vecs(r, 3)
    return [case(D.vbap, src, ls, retain_outside=True),
            case(D.vbip, src, ls, retain_outside=True),
            case(D.vbap, src, ls, valid_simplices=ls.simplices)]


@call('decoder')
def hulls(r):
    ls = setup(str(r.choice(['octa', 'dome'])))
    v = gen.rand_vecs(r, 8)
    lp = np.array([.1, .05, 0])
    ims = np.array([[0, 0, -1.]])

    def construct(x, y, z, lp):
        h = D.LoudspeakerSetup(x, y, z, listener_position=lp)
        h.pop_triangles()
        return h

    def construct_sph(a, z, rad, lp):
        return D.LoudspeakerSetup.from_sph(a, z, rad, listener_position=lp)

    def ambi(v, ims):
        h = D.LoudspeakerSetup(*v.T)
        h.ambisonics_setup(update_hull=True, imaginary_ls=ims, N_kernel=3,
                           characteristic_order=1)
        return h.ambisonics_hull
    a, z = gen.rand_dirs(r, 8)
    kind = str(r.choice(['array', 'list']))
    return [case(construct, *[gen.as_kind(q, kind) for q in v.T], lp),
            case(construct, *[gen.as_kind(q, kind) for q in v.T],
                 list(lp)),
            case(construct_sph, a, z, np.ones(8), [.3, 1., .05]),
            case(ambi, OCTA[:5] + .02 * r.standard_normal((5, 3)), ims),
            case(D.get_hull, *v.T), case(D.calculate_centroids, ls),
            case(D.calculate_face_areas, ls),
            case(D.calculate_face_normals, ls),
            case(D.calculate_vertex_normals, ls),
            case(D.calculate_barycenter, ls),
            case(D.check_listener_inside, ls, lp),
            case(D.check_normals, ls, listener_position=lp),
            case(D.check_aperture, ls, 80), case(D.check_opening, ls, 100),
            case(D.apply_blacklist, ls, [0, 3]),
            case(D.sort_vertices, ls.simplices),
            case(D.characteristic_ambisonic_order, ls),
            case(D.LoudspeakerSetup.is_simplex_valid, ls, ls.simplices[0]),
            case(D.LoudspeakerSetup.get_characteristic_order, ls)]


@call('decoder')
def binaural(r):
    ls = setup('octa')
    h = hrirs(r)
    x = r.standard_normal((6, 20))
    N = int(r.integers(0, 3))
    t = G.load_t_design(5)
    a, z, _ = U.cart2sph(*t.T)
    hm = spa.sig.HRIRs(r.standard_normal((len(a), 32)),
                       r.standard_normal((len(a), 32)), a, z, 48000)
    g = r.uniform(0, 1, (20, 6))
    LS = D.LoudspeakerSetup
    return [case(LS.binauralize, ls, x, 48000, hrirs=h),
            case(LS.binauralize, ls, x, 48000, orientation=(.2, .1),
                 hrirs=h),
            case(LS.loudspeaker_signals, ls, g),
            case(LS.loudspeaker_signals, ls, g, r.standard_normal(20)),
            case(D.sh2bin, nm(r, N, 20),
                 r.standard_normal((2, (N + 1) ** 2, 9))),
            case(D.magls_bin, hm, 1), case(D.magls_bin, hm, 1,
                                           hf_cont='delay', hf_delay=(1, 2))]


# signals --------------------------------------------------------------------
@call('signals')
def signals(r):
    m = multi(r)
    b = spa.sig.AmbiBSignal([*r.standard_normal((4, 30))], fs=8000)
    lst = [*r.standard_normal((3, 30))]
    h = r.standard_normal(5)
    C = spa.sig

    def make(lst):
        return C.MultiSignal(lst, fs=8000)

    def conv(m, h):
        q = m.copy()
        q.conv([h] * q.channel_count)
        return q

    def mono(x, h):
        q = C.MonoSignal(x, 8000)
        q.conv(h)
        q.trim(0, .002)
        return q

    def resample(m):
        q = m.copy()
        q.resample(16000)
        return q

    def to_sh(b):
        return S.b_to_sh(b.get_signals())

    def eq(h):
        q = h.copy()
        q.apply_ctf_eq(np.array([1., .5]))
        return q

    def wxyz(b):
        return b.W, b.X, b.Y, b.Z
    return [case(make, lst), case(conv, m, h), case(mono, lst[0], h),
            case(resample, m), case(to_sh, b), case(wxyz, b),
            case(eq, hrirs(r)), case(C.trim_audio, m, 0, .004),
            case(C.MultiSignal.get_signals, m),
            case(C.AmbiBSignal.sh_to_b, multi(r, 4))]


# parameters for which there is nothing to do --------------------------------
@call('sph', 'utils')
def idle_sph(r):
    N = int(r.integers(0, 3))
    x = nm(r, N)
    v = gen.rand_vecs(r, 1)[0]
    a, z = gen.rand_dirs(r, 25)
    one = np.ones(N + 1)
    return [case(S.rotate_sh, x.T.copy(), 0, 0, 0),
            case(S.rotate_sh, x.T.copy(), 0, 0, 0, sh_type='real'),
            case(S.n3d_to_sn3d, nm(r, 0)), case(S.sn3d_to_n3d, nm(r, 0)),
            case(S.repeat_per_order, np.ones(1)),
            case(S.unity_gain, np.ones(1)),
            case(S.sht, r.standard_normal(25), N, a, z, 'real',
                 weights=np.ones(25)),
            case(S.bandlimited_dirac, N, np.zeros(3), w_n=one),
            case(S.pressure_on_sphere, N, np.ones(3), weights=one),
            case(S.src_to_sh, np.ones((1, 4)), a[:1], z[:1], N),
            case(S.src_to_sh, np.ones(4), 0., 0., 0),
            case(S.sh_mult, np.array([np.sqrt(4 * np.pi)]), nm(r, N, 1)[:, 0],
                 'real'),
            case(U.rotation_rodrigues, v, 0.),
            case(U.rotation_euler, 0., 0., 0.),
            case(U.asarray_1d, v), case(U.asarray_1d, v[None]),
            case(U.angle_between, v, v), case(U.stack, v, v),
            case(U.db, np.ones(4)), case(U.rms, np.ones((1, 4))),
            case(U.cart2sph, *v), case(U.cart2sph, 0., 0., 0.),
            case(U.sph2cart, np.zeros(2), np.zeros(2), np.ones(2)),
            case(U.vec2dir, v[None]),
            case(G.calculate_grid_weights, a, z, 1)]


@call('process', 'signals')
def idle_process(r):
    x = r.standard_normal((2, 80))
    g = r.uniform(0, 3, 7)
    m = multi(r)
    b = spa.sig.AmbiBSignal([*r.standard_normal((4, 30))], fs=8000)

    def method(o, name, *a, **k):
        q = o.copy()
        getattr(q, name)(*a, **k)
        return q

    def inplace(o, name, *a):
        # the arrays handed over stay as they are
        getattr(o.copy(), name)(*a)
        return a
    one = np.ones(1)
    return [case(PR.gain_clipping, g, 1), case(PR.gain_clipping, g, 1.),
            case(PR.gain_clipping, -g, 1.), case(PR.gain_clipping, g * 0, 3),
            case(PR.gain_clipping, g, 10.),
            case(PR.resample_hrirs, x, x[::-1].copy(), 48000, 48000),
            case(PR.resample_hrirs, x, x, 48000, 48000, jobs_count=1),
            case(PR.resample_spectrum, np.fft.rfft(x), 48000, 48000),
            case(PR.resample_signal, x[0], 44100, 44100, axis=0),
            case(PR.lagrange_delay, 1, 0.), case(PR.lagrange_delay, 3, 1.),
            case(PR.half_sided_Hann, 3),
            case(PR.match_loudness, x.T.copy(), x.T.copy()),
            case(PR.match_loudness, .01 * x.T, .01 * x.T),
            case(PR.energy_decay, np.ones((9, 1))),
            case(PR.frac_octave_smoothing, np.ones(40), 1),
            case(PR.frac_octave_smoothing, np.ones(40), 24, WEIGHTED=False),
            case(PR.subband_levels, np.ones((3, 8)), np.ones(3), 48000),
            case(method, m, 'trim', 0, len(m) / m.fs),
            case(method, m, 'resample', m.fs),
            case(method, m, 'conv', [one] * 3),
            case(method, b, 'conv', [one] * 4),
            case(method, b, 'trim', 0, None, dur=len(b) / b.fs),
            case(method, m, 'conv', np.ones((3, 1))),
            case(inplace, hrirs(r, 4, 8), 'apply_ctf_eq', np.ones(1)),
            case(inplace, hrirs(r, 4, 8), 'update_hrirs', np.ones((4, 8)),
                 np.ones((4, 8))),
            case(method, hrirs(r, 4, 8), 'apply_ctf_eq', np.ones(1))]


@call('parsa', 'decoder')
def idle_spatial(r):
    N = int(r.integers(0, 3))
    x = nm(r, N)
    ls = setup('octa')
    ls1 = setup('octa')
    ls1.ls_gains = np.ones(6)
    ls1.a = 0
    h = hrirs(r)
    g = np.ones((9, 6))
    w = np.ones(N + 1)
    n = 12
    b = spa.sig.AmbiBSignal([*np.ones((4, 60))], fs=8000)
    LS = D.LoudspeakerSetup
    return [case(P.sh_beamform, np.eye((N + 1) ** 2), x),
            case(P.sh_beamformer_from_pattern, w, N, np.zeros(1),
                 np.zeros(1)),
            case(P.separate_cov, np.eye(4), 0),
            case(P.separate_cov, np.eye(4), 1),
            case(P.estimate_num_sources, np.eye(4)),
            case(P.pseudo_intensity, b, win_len=5, smoothing_order=0,
                 f_bp=None),
            case(P.render_stereo_sdm, np.ones(n), np.zeros(n), np.zeros(n)),
            case(P.render_bsdm, np.zeros(n), np.zeros(n), np.zeros(n), h),
            case(D.vbap, ls.points.copy(), ls),
            case(D.vbap, ls1.points.copy(), ls1),
            case(D.vbip, ls1.points.copy(), ls1, norm=1),
            case(D.vbap, ls1.points[0], ls1, jobs_count=1),
            case(LS.loudspeaker_signals, ls1, g.copy()),
            case(LS.loudspeaker_signals, ls1, g, np.ones(9)),
            case(LS.binauralize, ls1, np.ones((6, 5)), 48000, hrirs=h),
            case(D.sh2bin, x, np.ones((2, (N + 1) ** 2, 1))),
            case(D.apply_blacklist, ls, [0, 1, 2, 3, 4]),
            case(D.check_aperture, ls, 180), case(D.check_opening, ls, 180),
            case(D.sad, np.ones((4, 3)), ls1, N_sph=1)]


# ----------------------------------------------------------------------------
SKIP = {'inverted_vbase'}       # documented cache, filled by VBAP


def freeze(x, depth=0):
    """Nested plain representation of any argument or result."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [freeze(k, depth + 1) for k in x.ravel()]
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [freeze(k, depth + 1) for k in x]
    if isinstance(x, dict):
        return {k: freeze(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (int, float, complex, str, bool, type(None), np.generic,
                      bytes)):
        return x
    if callable(x):
        return None
    if hasattr(x, 'equations') and hasattr(x, 'simplices') and \
            not isinstance(x, D.LoudspeakerSetup):     # scipy's ConvexHull
        return {k: freeze(getattr(x, k)) for k in
                ('points', 'simplices', 'vertices')}
    if hasattr(x, '__dict__') and depth < 6:
        return {k: freeze(v, depth + 1) for k, v in vars(x).items()
                if k not in SKIP}
    return None


def same(a, b, tol, path=''):
    """None, or where a and b differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{path} keys {sorted(map(str, set(a) ^ set(b)))}'
        for k in a:
            d = same(a[k], b[k], tol, f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path} length {len(a)} / {len(b)}'
        for i, (p, q) in enumerate(zip(a, b)):
            d = same(p, q, tol, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, np.generic, int, float, complex)) and \
            isinstance(b, (np.ndarray, np.generic, int, float, complex)):
        p, q = np.asarray(a), np.asarray(b)
        if p.shape != q.shape:
            return f'{path} shape {p.shape} / {q.shape}'
        if tol == 0:
            if p.dtype != q.dtype or not np.array_equal(
                    p, q, equal_nan=p.dtype.kind in 'fc'):
                return f'{path} values'
            return None
        if p.size and not np.allclose(p, q, rtol=tol, atol=tol * max(
                1e-12, np.nanmax(np.abs(np.where(np.isfinite(p), p, 0)))),
                equal_nan=True):
            return f'{path} values'
        return None
    if type(a) is not type(b) or a != b:
        return f'{path} {a!r} / {b!r}'
    return None


def arrays(x, out, depth=0):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for k in x:
            arrays(k, out, depth + 1)
    elif isinstance(x, dict):
        for k in x.values():
            arrays(k, out, depth + 1)
    elif hasattr(x, '__dict__') and depth < 8 and not callable(x):
        for k in vars(x).values():
            arrays(k, out, depth + 1)
    return out


def spoil(result, args):
    """Overwrite a result, as its owner may do, unless it is (a view of) an
    argument."""
    mine = arrays(args, [])
    for x in arrays(result, []):
        if x.dtype.kind not in 'fci' or not x.flags.writeable:
            continue
        if any(np.may_share_memory(x, m) for m in mine):
            continue
        x[...] = 77


def sequence(group, c, t):
    todo = []
    for w in c['calls']:
        r = gen.rng(w)
        table = CALLS[group][r.integers(len(CALLS[group]))](r)
        todo.append(table[r.integers(len(table))])
    t.nt(True)
    first = []
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        for name, fn, a, k in todo:
            t.label(name)
            again = copy.deepcopy((a, k))
            before = freeze([a, k])
            out = fn(*a, **k)
            d = same(before, freeze([a, k]), 0)
            t.require(d is None, f'{name} changed its arguments: {d}')
            first.append((name, fn, again, freeze(out), (a, k)))
            spoil(out, (a, k))
        for name, fn, (a, k), want, (a0, k0) in first:
            d = same(want, freeze(fn(*a0, **k0)), 1e-9)
            t.require(d is None, f'{name} returned something else when '
                      f'called again: {d}')
            d = same(want, freeze(fn(*a, **k)), 1e-9)
            t.require(d is None, f'{name} returned something else for equal '
                      f'arguments: {d}')


def make(group, quick):
    def check(c, t):
        sequence(group, c, t)
    check.__name__ = group
    check.__doc__ = f'{group}: calls leave their arguments and repeat.'
    R.sub(dict(calls=st.lists(gen.seeds, min_size=3, max_size=8)),
          quick=quick, weight=4)(check)


for _g, _q in (('sph', 1200), ('utils', 1000), ('process', 500), ('parsa', 500),
               ('decoder', 500), ('signals', 500)):
    make(_g, _q)


# history against a fresh process --------------------------------------------
class Alike:
    """Generator with the discrete draws (orders, sizes, options) of one seed
    and the continuous ones (data, directions) of another one."""

    def __init__(self, discrete, data):
        self.a, self.b = gen.rng(discrete), gen.rng(data)

    def __getattr__(self, name):
        return getattr(self.a if name in ('integers', 'choice', 'permutation')
                       else self.b, name)


def generators(c):
    s = c['seeds']
    if c['alike'] == 'settings':
        return [Alike(s[0], w) for w in s]
    if c['alike'] == 'data':
        return [Alike(w, s[0]) for w in s]
    return [gen.rng(w) for w in s]


def forked(todo, at, k):
    """Results of the calls, one after another, in a process that has not
    called the library before: none of the processes this one has forked
    have, as it never does itself."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(rd)
            np.random.seed(0)
            try:
                out = []
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    for r in todo:
                        table = at(r)
                        name, fn, a, kw = table[k % len(table)]
                        res = fn(*a, **kw)
                        out.append((name, freeze(res)))
                        spoil(res, (a, kw))
                data = pickle.dumps(out)
            except BaseException as e:
                data = pickle.dumps(f'{type(e).__name__}: {e}')
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    out = pickle.loads(data) if data else 'process ended'
    if isinstance(out, str):
        raise core.Violation(f'call failed: {out}')
    return out


WARM = []


def warm():
    """Compile the resampler (which is no part of the library) once."""
    if not WARM:
        import resampy
        resampy.resample(np.zeros((2, 99)), 3, 2, axis=1)
        resampy.resample(np.zeros(99), 3, 2)
        WARM.append(True)


def make_fresh(group, quick):
    def check(c, t):
        if group in ('process', 'signals'):
            warm()
        at = CALLS[group][c['i'] % len(CALLS[group])]
        k = c['k']
        got = forked(generators(c), at, k)
        t.nt(len(set(c['seeds'])) > 1)
        t.label(got[0][0])
        for i in range(1, len(got)):
            (name, want), = forked(generators(c)[i:i + 1], at, k)
            d = same(want, got[i][1], 1e-9)
            t.require(d is None, f'{name} after {i} other calls returns '
                      f'something else than in a fresh process: {d}')
    check.__name__ = f'{group}_fresh'
    check.__doc__ = f'{group}: earlier calls do not matter.'
    R.sub(dict(i=st.integers(0, 9), k=st.integers(0, 1000),
               alike=st.sampled_from(['settings', 'settings', 'data', '']),
               seeds=st.lists(gen.seeds, min_size=2, max_size=4)),
          quick=quick, weight=4)(check)


for _g, _q in (('sph', 250), ('utils', 250), ('process', 120),
               ('parsa', 100), ('decoder', 200), ('signals', 80)):
    make_fresh(_g, _q)
