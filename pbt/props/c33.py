"""C33 invalid arguments."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C33', 'per function: generated valid arguments, accepted, '
                  'and the same arguments with one mistake, rejected; '
                  'non-trivial: every case')
TABLES = {}
BAD_NAMES = ['', 'foo', 'REAL ', 'realx', 'none', 'Complex64', 'default']


def entry(mod):
    def deco(fn):
        TABLES.setdefault(mod, []).append(fn)
        return fn
    return deco


def nm(r, N, T=6):
    return r.standard_normal(((N + 1) ** 2, T))


def sq(r):
    """A number of channels that is no (N+1)**2."""
    return int(r.choice([2, 3, 5, 6, 7, 8, 10, 12, 15, 17, 20, 24]))


def bad(r):
    return str(r.choice(BAD_NAMES))


def dirs(r, n):
    return gen.rand_dirs(r, n)


# entries return (name, valid call, {mistake: invalid call}) ------------------
@entry('sph')
def sh_types(r):
    N = int(r.integers(0, 5))
    a, z = dirs(r, 40)
    f, F = r.standard_normal(40), nm(r, N, 1)[:, 0]
    s = spa.sph
    calls = [('sh_matrix', lambda k: s.sh_matrix(N, a, z, k)),
             ('sht', lambda k: s.sht(f, N, a, z, k)),
             ('sht_lstsq', lambda k: s.sht_lstsq(f, N, a, z, k)),
             ('inverse_sht', lambda k: s.inverse_sht(F, a, z, k)),
             ('check_cond_sht', lambda k: s.check_cond_sht(N, a, z, k)),
             ('src_to_sh', lambda k: s.src_to_sh(f, 0., 1., N, k)),
             ('src_to_sh list', lambda k: s.src_to_sh([f, f], [0., 1.],
                                                      [1., 2.], N, k)),
             ('sh_rotation_matrix',
              lambda k: s.sh_rotation_matrix(N, .1, .2, .3, k)),
             ('rotate_sh', lambda k: s.rotate_sh(F, .1, .2, .3, k)),
             ('design_sph_filterbank',
              lambda k: s.design_sph_filterbank(N, a, z, np.ones(N + 1),
                                                'perfect', k))]
    n, c = calls[r.integers(len(calls))]
    k = bad(r)
    return n, lambda: c('real'), {f'type {k}': lambda: c(k)}


@entry('sph')
def rotation_complex(r):
    N = int(r.integers(0, 4))
    F = nm(r, N, 1)[:, 0]
    if r.integers(2):
        return ('rotate_sh', lambda: spa.sph.rotate_sh(F, 1, .2, .3, 'real'),
                {'complex': lambda: spa.sph.rotate_sh(F, 1, .2, .3,
                                                      'complex')})
    c = spa.sph.sh_rotation_matrix
    return ('sh_rotation_matrix', lambda: c(N, 1, .2, .3),
            {'complex': lambda: c(N, 1, .2, .3, 'complex')})


@entry('sph')
def rotation_channels(r):
    N = int(r.integers(0, 4))
    k = sq(r)
    f = spa.sph.rotate_sh
    return ('rotate_sh', lambda: f(nm(r, N).T, .1, .2, .3),
            {'channels': lambda: f(r.standard_normal((3, k)), .1, .2, .3),
             'one signal': lambda: f(r.standard_normal(k), .1, .2, .3)})


@entry('sph')
def transform_sizes(r):
    N = int(r.integers(1, 4))
    a, z = dirs(r, 40)
    f = r.standard_normal(40)
    s = spa.sph
    Y = s.sh_matrix(N, a, z)
    F = nm(r, N, 1)[:, 0]
    d = int(r.choice([-3, -1, 1, 2]))
    g = r.standard_normal(40 + d)
    b = dirs(r, 40 + d)
    calls = [
        ('sh_matrix', lambda: s.sh_matrix(N, a, z),
         {'directions': lambda: s.sh_matrix(N, a, b[1])}),
        ('sht', lambda: s.sht(f, N, a, z, 'real'),
         {'values': lambda: s.sht(g, N, a, z, 'real'),
          'weights': lambda: s.sht(f, N, a, z, 'real', weights=g),
          'directions': lambda: s.sht(f, N, *b, 'real')}),
        ('sht_lstsq', lambda: s.sht_lstsq(f, N, a, z, 'real'),
         {'values': lambda: s.sht_lstsq(g, N, a, z, 'real')}),
        ('inverse_sht', lambda: s.inverse_sht(F, a, z, 'real', N_sph=N),
         {'order too high': lambda: s.inverse_sht(F, a, z, 'real',
                                                  N_sph=N + 1),
          'matrix': lambda: s.inverse_sht(F, a, z, 'real',
                                          Y_nm=Y[:, :-1])})]
    return calls[r.integers(len(calls))]


@entry('sph')
def normalisation_shape(r):
    N = int(r.integers(0, 4))
    f = [spa.sph.n3d_to_sn3d, spa.sph.sn3d_to_n3d][r.integers(2)]
    return (f.__name__, lambda: f(nm(r, N)),
            {'1-D': lambda: f(nm(r, N)[:, 0]),
             '3-D': lambda: f(nm(r, N)[None])})


@entry('sph')
def weights_length(r):
    N = int(r.integers(2, 7))
    k = N + 1 + int(r.choice([-1, 1, 3]))
    w, v = r.uniform(.5, 1, N + 1), r.uniform(.5, 1, k)
    a, z = dirs(r, 40)
    calls = [('bandlimited_dirac', lambda x: spa.sph.bandlimited_dirac(
                  N, r.uniform(0, 3, 4), w_n=x)),
             ('sh_beamformer_from_pattern',
              lambda x: spa.parsa.sh_beamformer_from_pattern(x, N, 0., 1.)),
             ('design_sph_filterbank',
              lambda x: spa.sph.design_sph_filterbank(N, a, z, x,
                                                      'perfect'))]
    n, c = calls[r.integers(len(calls))]
    return n, lambda: c(w), {f'{k} weights': lambda: c(v)}


@entry('sph')
def short_formats(r):
    s = spa.sph
    k = int(r.integers(1, 4))
    x = r.standard_normal((4, 6))
    calls = [('sh_to_b', s.sh_to_b), ('b_to_sh', s.b_to_sh),
             ('soundfield_to_b', s.soundfield_to_b)]
    n, c = calls[r.integers(len(calls))]
    return n, lambda: c(x), {f'{k} channels': lambda: c(x[:k])}


@entry('sph')
def energy_vector(r):
    L = int(r.integers(4, 12))
    p, g = gen.rand_vecs(r, L), r.uniform(0, 1, (5, L))
    d = int(r.choice([-2, -1, 1, 3]))
    return ('r_E', lambda: spa.sph.r_E(p, g),
            {'gains': lambda: spa.sph.r_E(p, r.uniform(0, 1, (5, L + d)))})


@entry('sph')
def sphere_type(r):
    n = int(r.integers(0, 5))
    k = str(r.choice(['', 'Rigid', 'cardioid', 'closed', 'foo']))
    f = spa.sph.mode_strength
    return ('mode_strength', lambda: f(n, .5, 'open'),
            {f'type {k}': lambda: f(n, np.array([.5, 1]), k)})


@entry('sph')
def filterbank_mode(r):
    N = int(r.integers(0, 4))
    a, z = dirs(r, 40)
    k = str(r.choice(['', 'foo', 'perfectly', 'inverse', 'amp2']))
    if r.integers(2):
        f = spa.sph.design_sph_filterbank
        return ('design_sph_filterbank',
                lambda: f(N, a, z, np.ones(N + 1), 'Energy'),
                {f'mode {k}': lambda: f(N, a, z, np.ones(N + 1), k)})
    f = spa.sph.sph_filterbank_reconstruction_factor
    w = spa.sph.sh_matrix(N, a, z)[0]
    return ('sph_filterbank_reconstruction_factor',
            lambda: f(w, 40, mode='Amplitude'),
            {f'mode {k}': lambda: f(w, 40, mode=k),
             'no mode': lambda: f(w, 40)})


@entry('sph')
def multiply(r):
    N, M = r.integers(0, 4, 2)
    a, b = nm(r, N, 1)[:, 0], nm(r, M, 1)[:, 0]
    k = bad(r)
    return ('sh_mult', lambda: spa.sph.sh_mult(a, b, 'real'),
            {f'type {k}': lambda: spa.sph.sh_mult(a, b, k)})


# parsa ----------------------------------------------------------------------
def cov(r, N):
    x = nm(r, N, 60)
    return x @ x.T / 60


@entry('parsa')
def patterns(r):
    N = int(r.integers(0, 5))
    k = str(r.choice(['foo', 'cardio', 'hyper cardioid', 'omni', '']))
    f = spa.parsa.sh_beamformer_from_pattern
    return ('sh_beamformer_from_pattern',
            lambda: f('hypercardioid', N, 0., 1.),
            {f'pattern {k}': lambda: f(k, N, 0., 1.)})


@entry('parsa')
def covariances(r):
    N = int(r.integers(1, 4))
    C = cov(r, N)
    a, z = dirs(r, 7)
    p = spa.parsa
    calls = [('separate_cov', lambda c: p.separate_cov(c, num_cut=1)),
             ('estimate_num_sources', p.estimate_num_sources),
             ('sh_music', lambda c: p.sh_music(c, 1, a, z)),
             ('sh_mvdr', lambda c: p.sh_mvdr(c, a, z)),
             ('sh_lcmv', lambda c: p.sh_lcmv(c, a[:2], z[:2], [1, 0]))]
    i = r.integers(len(calls))
    n, c = calls[i]
    wrong = {'rows missing': lambda: c(C[:-1]),
             'columns missing': lambda: c(C[:, :-1])}
    if i > 1:
        k = sq(r)
        x = r.standard_normal((k, 3 * k))
        wrong[f'{k} channels'] = lambda: c(x @ x.T)
    return n, lambda: c(C), wrong


@entry('parsa')
def constraints(r):
    N = int(r.integers(1, 4))
    C = cov(r, N)
    a, z = dirs(r, 3)
    f = spa.parsa.sh_lcmv
    return ('sh_lcmv', lambda: f(C, a, z, [1, 0, .5]),
            {'gains': lambda: f(C, a, z, [1, 0]),
             'zenith angles': lambda: f(C, a, z[:-1], [1, 0, .5]),
             'azimuths': lambda: f(C, a[:-1], z, [1, 0, .5])})


@entry('parsa')
def beamform(r):
    N = int(r.integers(0, 4))
    w, x = nm(r, N, 3).T, nm(r, N, 8)
    d = int(r.choice([1, 2, 5]))
    f = spa.parsa.sh_beamform
    return ('sh_beamform', lambda: f(w, x),
            {'channels': lambda: f(w, r.standard_normal((len(x) + d, 8)))})


@entry('parsa')
def intensity(r):
    b = spa.sig.AmbiBSignal([*r.standard_normal((4, 300))], fs=48000)
    k = 2 * int(r.integers(2, 20))
    f = spa.parsa.pseudo_intensity
    return ('pseudo_intensity', lambda: f(b, win_len=k + 1, f_bp=None),
            {'even window': lambda: f(b, win_len=k),
             'even smoothing': lambda: f(b, win_len=k + 1,
                                         smoothing_order=k)})


@entry('parsa')
def sdm(r):
    n = int(r.integers(20, 60))
    p = r.standard_normal(n)
    ls = octa()
    g = np.eye(6)[r.integers(0, 6, n)]
    d = int(r.integers(1, 4))

    def ls_render(gains):
        return spa.parsa.render_binaural_loudspeaker_sdm(
            p, gains, ls, 48000, post_eq_func=lambda *a: np.zeros((6, 4)))

    f = ls.loudspeaker_signals
    return ('loudspeaker_signals', lambda: f(g, p),
            {'render: gains missing': lambda: ls_render(g[:-d]),
             'gains per loudspeaker': lambda: f(g[:, :-1], p),
             'one sample, gains per loudspeaker':
             lambda: f(g[:1, :-1], p[:1]),
             'one sample, one gain': lambda: f(g[:1, :1], p[:1]),
             'one sample, too many gains': lambda: f(np.ones((1, 6 + d)),
                                                     p[:1]),
             'no input, gains per loudspeaker': lambda: f(g[0, :-1]),
             'one gain per sample': lambda: f(g[:, :1], p),
             'samples': lambda: f(g[:-d], p)})


@entry('parsa')
def equalisers(r):
    n = int(r.integers(20, 60))
    S, p = r.standard_normal((6, n)), r.standard_normal(n)
    ls = octa()
    f = spa.parsa.sdm_post_equalization2
    d = int(r.integers(1, 4))
    return ('sdm_post_equalization2',
            lambda: f(S, p, 48000, ls, blocksize=256),
            {'reference': lambda: f(S, p[:-d], 48000, ls, blocksize=256),
             'loudspeakers': lambda: f(S[:-1], p, 48000, ls, blocksize=256)})


# decoder --------------------------------------------------------------------
OCTA = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1],
                 [0, 0, -1]], float)
CACHE = {}


def octa(ready=False):
    if ready not in CACHE:
        h = spa.decoder.LoudspeakerSetup(*OCTA.T)
        if ready:
            h.ambisonics_setup(N_kernel=8)
        CACHE[ready] = h
    return CACHE[ready]


@entry('decoder')
def setup_sizes(r):
    L = int(r.integers(6, 12))
    v = gen.rand_vecs(r, L)
    d = int(r.integers(1, 3))
    f = spa.decoder.LoudspeakerSetup
    return ('LoudspeakerSetup', lambda: f(*v.T),
            {'z missing': lambda: f(v[:, 0], v[:, 1], v[:-d, 2]),
             'x missing': lambda: f(v[:-d, 0], v[:, 1], v[:, 2]),
             'too few': lambda: f(*v[:3].T),
             'in a plane': lambda: f(v[:, 0], v[:, 1], 0 * v[:, 2])})


@entry('decoder')
def panning_sources(r):
    d = spa.decoder
    h, src = octa(True), gen.rand_vecs(r, 4)
    fs = [d.vbap, d.vbip, d.allrap, d.allrap2]
    f = fs[r.integers(len(fs))]
    kw = {'N_sph': 1} if f in fs[2:] else {}
    return (f.__name__, lambda: f(src, h, **kw),
            {'2-D sources': lambda: f(src[:, :2], h, **kw),
             '4 coordinates': lambda: f(np.c_[src, src[:, 0]], h, **kw)})


@entry('decoder')
def not_prepared(r):
    d = spa.decoder
    N = 1
    src, F = gen.rand_vecs(r, 2), nm(r, N)
    calls = [('allrap', lambda h: d.allrap(src, h, N_sph=1)),
             ('allrap2', lambda h: d.allrap2(src, h, N_sph=1)),
             ('allrad', lambda h: d.allrad(F, h, N_sph=1)),
             ('allrad2', lambda h: d.allrad2(F, h, N_sph=1)),
             ('vbap', lambda h: d.vbap(src, h, retain_outside=True))]
    i = r.integers(len(calls))
    n, c = calls[i]
    if n == 'vbap':
        if 'im' not in CACHE:
            h = d.LoudspeakerSetup(*OCTA[:5].T)
            h.pop_triangles()
            h.ambisonics_setup(update_hull=True, N_kernel=8)
            CACHE['im'] = h
        return n, lambda: c(CACHE['im']), {
            'no ambisonics_setup': lambda: c(octa()),
            'no imaginary loudspeaker': lambda: c(octa(True)),
            'triangulation given': lambda: d.vbap(
                src, CACHE['im'], retain_outside=True,
                valid_simplices=CACHE['im'].valid_simplices)}
    return n, lambda: c(octa(True)), {'no ambisonics_setup':
                                      lambda: c(octa())}


@entry('decoder')
def channels(r):
    d = spa.decoder
    h = octa(True)
    fs = [d.allrad, d.allrad2, d.sad, d.mad, d.epad]
    f = fs[r.integers(len(fs))]
    F = nm(r, 1)
    k = sq(r)
    bad_order = int(r.integers(2, 4))
    wrong = {f'order {bad_order} of first order signals':
             lambda: f(F, h, N_sph=bad_order)}
    if f in fs[:2]:
        wrong[f'{k} channels'] = lambda: f(r.standard_normal((k, 6)), h,
                                           N_sph=1 if k < 9 else 2)
    return f.__name__, lambda: f(F, h, N_sph=1), wrong


@entry('decoder')
def binauralize(r):
    h = octa()
    a, z = dirs(r, 10)
    fs = int(r.choice([44100, 48000]))
    H = spa.sig.HRIRs(r.standard_normal((10, 8)),
                      r.standard_normal((10, 8)), a, z, fs)
    S = r.standard_normal((6, 20))
    k = int(r.choice([1, 4, 5, 7]))
    f = h.binauralize
    return ('binauralize', lambda: f(S, fs, hrirs=H),
            {'rate': lambda: f(S, fs + 1, hrirs=H),
             'lower rate': lambda: f(S, fs - 1, hrirs=H),
             'half the rate': lambda: f(S, fs // 2, hrirs=H),
             'twice the rate': lambda: f(S, 2 * fs, hrirs=H),
             f'{k} signals': lambda: f(r.standard_normal((k, 20)), fs,
                                       hrirs=H)})


@entry('decoder')
def sh_binaural(r):
    N = int(r.integers(0, 4))
    H, F = r.standard_normal((2, (N + 1) ** 2, 9)), nm(r, N, 20)
    f = spa.decoder.sh2bin
    d = int(r.integers(1, 4))
    bad = {'order of the signal': lambda: f(
        r.standard_normal(((N + 1) ** 2 + d, 20)), H),
        'HRIRs of one ear': lambda: f(F, H[0]),
        'order of the HRIRs': lambda: f(
            F, r.standard_normal((2, (N + 1) ** 2 + d, 9))),
        '1-D signal': lambda: f(F[0], H)}
    if N:
        bad.update({'one channel': lambda: f(F[:1], H),
                    'one channel of the HRIRs': lambda: f(F, H[:, :1]),
                    'a channel missing': lambda: f(F[:-1], H)})
    return 'sh2bin', lambda: f(F, H), bad


@entry('decoder')
def magls(r):
    if 'hrirs' not in CACHE:
        v = spa.grids.load_t_design(4)
        a, z, _ = spa.utils.cart2sph(*v.T)
        q = np.random.default_rng(1)
        CACHE['hrirs'] = spa.sig.HRIRs(q.standard_normal((len(v), 32)),
                                       q.standard_normal((len(v), 32)), a, z,
                                       48000)
    H = CACHE['hrirs']
    k = str(r.choice(['foo', '', 'average', 'deltas']))
    f = spa.decoder.magls_bin
    return ('magls_bin', lambda: f(H, 1, hf_cont='avg'),
            {f'continuation {k}': lambda: f(H, 1, hf_cont=k),
             'arrays': lambda: f((H.left, H.right), 1),
             'transition at zero': lambda: f(H, 1, f_trans=0.,
                                             hf_cont='delta')})


@entry('decoder')
def imaginary(r):
    k = int(r.choice([1, 2, 4]))
    x = r.uniform(-1, 1, (1, k))
    h = spa.decoder.LoudspeakerSetup(*OCTA[:5].T)
    h.pop_triangles()
    full = octa()
    f = spa.decoder.find_imaginary_loudspeaker
    return ('ambisonics_setup', lambda: h.ambisonics_setup(
                update_hull=True, imaginary_ls=[[0, 0, -1.]], N_kernel=4),
            {f'{k} coordinates': lambda: h.ambisonics_setup(
                update_hull=True, imaginary_ls=x, N_kernel=4),
             'hull without rim': lambda: f(full),
             'update without rim': lambda: full.ambisonics_setup(
                 update_hull=True, N_kernel=4)})


# grids ----------------------------------------------------------------------
@entry('grids')
def degrees(r):
    g = spa.grids
    fs = [(g.load_t_design, 1, 21), (g.load_n_design, 1, 124),
          (g.load_lebedev, 3, 131), (g.load_Fliege_Maier_nodes, 2, 30),
          (g.load_maxDet, 1, 200)]
    i = r.integers(len(fs))
    f, lo, hi = fs[i]
    k = int(hi + 1 + 10 ** r.uniform(0, 3))
    j = int(lo - 1 - r.integers(0, 5))
    ok = (lambda: f(int(r.integers(lo, 20)))) if i < 4 else (lambda: 0)
    return f.__name__, ok, {f'degree {k}': lambda: f(k),
                            f'degree {hi + 1}': lambda: f(hi + 1),
                            f'degree {j}': lambda: f(j)}


@entry('grids')
def weights_order(r):
    a, z = dirs(r, 30)
    f = spa.grids.calculate_grid_weights
    k = -int(r.integers(0, 5))
    return ('calculate_grid_weights', lambda: f(a, z, 2),
            {f'order {k}': lambda: f(a, z, k),
             'directions': lambda: f(a, z[:-2], 2)})


# process / utils ------------------------------------------------------------
@entry('process')
def filterbank(r):
    f = spa.process.frac_octave_filterbank
    k = str(r.choice(['foo', '', 'power', 'Energy2']))
    o = float(r.uniform(.51, 3))
    fs = int(r.choice([44100, 48000]))
    n = int(r.choice([1, 3]))
    return ('frac_octave_filterbank',
            lambda: f(n, 257, fs, 100, 8000, mode='amplitude', overlap=.5),
            {f'mode {k}': lambda: f(n, 257, fs, 100, 8000, mode=k),
             f'overlap {o}': lambda: f(n, 257, fs, 100, 8000, overlap=o)})


@entry('process')
def hann(r):
    k = int(r.integers(-3, 3))
    f = spa.process.half_sided_Hann
    return 'half_sided_Hann', lambda: f(3), {f'N={k}': lambda: f(k)}


@entry('process')
def hrir_sets(r):
    G = int(r.integers(4, 9))
    a, z = dirs(r, G)
    L, Q = r.standard_normal((2, G, 64))
    f = spa.sig.HRIRs
    H = f(L, Q, a, z, 48000)
    d = int(r.choice([-3, -1, 1, 5, 20]))
    p = spa.process
    calls = [
        ('HRIRs', lambda: f(L, Q, a, z, 48000),
         {'ear': lambda: f(L[:-1], Q, a, z, 48000),
          'other ear': lambda: f(L, Q[:-1], a, z, 48000),
          'transposed': lambda: f(L[:, :G + d].T, Q[:, :G + d].T, a, z,
                                  48000),
          'more azimuths': lambda: f(L, Q, np.r_[a, 0], z, 48000),
          'more zenith angles': lambda: f(L, Q, a, np.r_[z, 1], 48000),
          'more directions': lambda: f(L, Q, np.r_[a, 0], np.r_[z, 1],
                                       48000),
          '3-D': lambda: f(L[None], Q[None], a[:1], z[:1], 48000),
          'azimuths': lambda: f(L, Q, a[:-1], z, 48000),
          'zenith angles': lambda: f(L, Q, a, z[:-1], 48000),
          'directions': lambda: f(L, Q, a[:-1], z[:-1], 48000),
          '1-D': lambda: f(L[0], Q[0], a[:1], z[:1], 48000)}),
        ('hrirs_ctf', lambda: p.hrirs_ctf(H, grid_weights=np.ones(G)),
         {'weights': lambda: p.hrirs_ctf(H, grid_weights=np.ones(G + 1)),
          'fewer weights': lambda: p.hrirs_ctf(H, grid_weights=np.ones(
              G - 1))}),
        ('ilds_from_hrirs', lambda: p.ilds_from_hrirs(H),
         {'arrays': lambda: p.ilds_from_hrirs((L, Q))}),
        ('itds_from_hrirs', lambda: p.itds_from_hrirs(H),
         {'arrays': lambda: p.itds_from_hrirs((L, Q))}),
        ('update_hrirs', lambda: H.copy().update_hrirs(L, Q),
         {'directions': lambda: H.copy().update_hrirs(L[:-1], Q[:-1]),
          'ears': lambda: H.copy().update_hrirs(L, Q[:-1])})]
    return calls[r.integers(len(calls))]


@entry('utils')
def vectors(r):
    u = spa.utils
    k, v = r.standard_normal((2, 3))
    n = int(r.choice([1, 2, 4]))
    w = r.standard_normal(n)
    m = int(r.integers(2, 8))
    calls = [
        ('asarray_1d', lambda: u.asarray_1d(r.standard_normal((1, m))),
         {'2-D': lambda: u.asarray_1d(r.standard_normal((2, m))),
          '3-D': lambda: u.asarray_1d(r.standard_normal((2, m, 2)))}),
        ('rotation_rodrigues', lambda: u.rotation_rodrigues(k, 1.),
         {f'{n} coordinates': lambda: u.rotation_rodrigues(w, 1.)}),
        ('rotation_vecvec', lambda: u.rotation_vecvec(k, v),
         {'from': lambda: u.rotation_vecvec(w, v),
          'to': lambda: u.rotation_vecvec(k, w),
          'opposite': lambda: u.rotation_vecvec(k, -k)}),
        ('stack', lambda: u.stack(k, v),
         {'no common dimension': lambda: u.stack(
             r.standard_normal(m), r.standard_normal(m + 1))}),
        ('interleave_channels',
         lambda: u.interleave_channels(r.standard_normal((m, 4)),
                                       r.standard_normal((m, 4))),
         {'number': lambda: u.interleave_channels(
             r.standard_normal((m, 4)), r.standard_normal((m + 1, 4))),
          'length': lambda: u.interleave_channels(
              r.standard_normal((m, 4)), r.standard_normal((m, 5))),
          'not 360': lambda: u.interleave_channels(
              r.standard_normal((m, 4)), r.standard_normal((m, 4)),
              style='SSR'),
          **{f'{k}, not 360': lambda k=k: u.interleave_channels(
              np.ones((k, 4)), np.ones((k, 4)), style='SSR')
             for k in (1, 359, 361, 720, int(r.integers(361, 800)))}})]
    return calls[r.integers(len(calls))]


# sig / io -------------------------------------------------------------------
@entry('signals')
def trims(r):
    fs = int(r.choice([100, 8000]))
    n = int(r.integers(20, 90))
    d = n / fs
    late = d * float(r.uniform(1, 3))
    M = spa.sig.MonoSignal(r.standard_normal(n), fs)
    Q = spa.sig.MultiSignal([*r.standard_normal((3, n))], fs=fs)
    i = r.integers(3)
    c = [lambda a, b: M.copy().trim(a, b), lambda a, b: Q.copy().trim(a, b),
         lambda a, b: spa.sig.trim_audio(Q, a, b)][i]
    return (['MonoSignal.trim', 'MultiSignal.trim', 'trim_audio'][i],
            lambda: c(0, d), {f'start {late} of {d}': lambda: c(late, 9 * d)})


@entry('signals')
def constructors(r):
    s = spa.sig
    n = int(r.integers(5, 30))
    x = r.standard_normal((4, n))
    k = int(r.choice([1, 2, 3, 5, 9]))
    M = s.MultiSignal([*x], fs=100)
    calls = [
        ('MonoSignal', lambda: s.MonoSignal(x[0], 100),
         {'2-D': lambda: s.MonoSignal(x, 100)}),
        ('MultiSignal', lambda: s.MultiSignal([*x], fs=100),
         {'no rate': lambda: s.MultiSignal([*x]),
          'array': lambda: s.MultiSignal(x, fs=100)}),
        ('AmbiBSignal', lambda: s.AmbiBSignal([*x], fs=100),
         {f'{k} channels': lambda: s.AmbiBSignal(
             [*r.standard_normal((k, n))], fs=100)}),
        ('AmbiBSignal.sh_to_b', lambda: s.AmbiBSignal.sh_to_b(M),
         {'array': lambda: s.AmbiBSignal.sh_to_b(x)})]
    return calls[r.integers(len(calls))]


@entry('signals')
def files(r):
    d = os.environ.get('SCRATCH', '/tmp')
    s, io = spa.sig, spa.io
    fs = int(r.choice([44100, 48000]))
    other = 92100 - fs
    one, two, four, rate = [os.path.join(d, f'c33_{k}_{os.getpid()}_{fs}.wav')
                      for k in ('one', 'two', 'four', 'rate')]
    if not os.path.exists(rate):
        io.save_audio(np.zeros(40), one, fs)
        io.save_audio(np.zeros((40, 2)), two, fs)
        io.save_audio(np.zeros((40, 4)), four, fs)
        io.save_audio(np.zeros(40), rate, other)
    M = s.MonoSignal(r.standard_normal(9), fs)
    out = os.path.join(d, f'c33_out_{os.getpid()}.wav')
    miss = os.path.join(d, 'c33_missing.wav')
    mat = os.path.join(d, f'c33_hrirs_{os.getpid()}.mat')

    def hrir_file(rate):
        g = np.arange(1, 6.)
        savemat(mat, {'hrir_l': r.standard_normal((5, 9)),
                      'hrir_r': r.standard_normal((5, 9)), 'azi': g,
                      'zen': g / 2, ['fs', 'SamplingRate'][rate % 2]: rate})
        return io.load_hrirs(fs, mat)
    calls = [
        ('load_audio', lambda: io.load_audio([one, two], fs=fs),
         {'rate': lambda: io.load_audio(one, fs=other),
          'mixed rates': lambda: io.load_audio([one, rate]),
          'mixed rates, other order': lambda: io.load_audio([rate, one]),
          'one of three': lambda: io.load_audio([one, one, rate]),
          'missing': lambda: io.load_audio(miss)}),
        ('MonoSignal.from_file', lambda: s.MonoSignal.from_file(one, fs),
         {'rate': lambda: s.MonoSignal.from_file(one, other),
          'channels': lambda: s.MonoSignal.from_file(two)}),
        ('MultiSignal.from_file', lambda: s.MultiSignal.from_file(two, fs),
         {'rate': lambda: s.MultiSignal.from_file(two, other),
          'channels': lambda: s.MultiSignal.from_file(one)}),
        ('AmbiBSignal.from_file', lambda: s.AmbiBSignal.from_file(four),
         {'channels': lambda: s.AmbiBSignal.from_file(two)}),
        ('save_audio', lambda: io.save_audio(M, out, fs=fs),
         {'rate': lambda: io.save_audio(M, out, fs=other),
          'no rate': lambda: io.save_audio(np.zeros(4), out),
          'kind': lambda: io.save_audio('abc', out, fs=fs),
          '3-D': lambda: io.save_audio(np.zeros((3, 3, 3)), out, fs=fs)}),
        ('load_hrirs of a file', lambda: hrir_file(fs),
         {f'rate {k}': lambda k=k: hrir_file(k) for k in
          (other, 2 * fs, fs // 2, fs + 1, fs - 1, 192000,
           int(r.integers(1000, 3 * fs)) | 1)}),
        ('load_hrirs', lambda: io.load_hrirs(fs, 'dummy'),
         {'rate': lambda: io.load_hrirs(int(r.choice([1, 8000, 22050, 44099,
                                                      192000])))})]
    return calls[r.integers(len(calls))]


@entry('signals')
def brirs(r):
    d = os.environ.get('SCRATCH', '/tmp')
    out = os.path.join(d, f'c33_brir_{os.getpid()}.wav')
    from unittest import mock
    a, z = dirs(r, 10)
    fs = 44100
    H = spa.sig.HRIRs(r.standard_normal((10, 8)),
                      r.standard_normal((10, 8)), a, z, fs)
    h = octa()
    S = .01 * r.standard_normal((6, 12))
    p = .01 * r.standard_normal(5)
    pa, pz = dirs(r, 5)
    k = int(r.choice([48000, 96000, 22050, 8000, fs + 1, fs - 1]))

    def run(f, *args):
        with mock.patch.object(spa.io, 'load_hrirs', lambda *a, **k: H):
            return f(out, *args)
    io = spa.io
    if r.integers(2):
        f = io.write_ssr_brirs_loudspeaker
        return (f.__name__, lambda: run(f, S, h, fs),
                {'rate': lambda: run(f, S, h, k),
                 'loudspeakers': lambda: run(f, S[:-1], h, fs)})
    f = io.write_ssr_brirs_sdm
    return (f.__name__, lambda: run(f, p, pa, pz, fs),
            {'rate': lambda: run(f, p, pa, pz, k)})


@entry('signals')
def layouts(r):
    d = os.environ.get('SCRATCH', '/tmp')
    out = os.path.join(d, f'c33_layout_{os.getpid()}.json')
    f = spa.io.save_layout
    h = spa.decoder.LoudspeakerSetup(*OCTA.T)
    h.ambisonics_setup(N_kernel=4)
    raw = spa.decoder.LoudspeakerSetup(*OCTA.T)
    return ('save_layout', lambda: f(out, h),
            {'no ambisonics_setup': lambda: f(out, raw)})


# plot -----------------------------------------------------------------------
@entry('plot')
def plots(r):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    plt.close('all')
    n = int(r.integers(8, 40))
    f = np.linspace(10, 20000, n)
    p = spa.plot
    k = str(r.choice(['foo', '', 'VBIP2', 'nearest']))
    calls = [
        ('freq_resp', lambda: p.freq_resp(f, [np.ones(n), np.ones(n)]),
         {'length': lambda: p.freq_resp(f, [np.ones(n), np.ones(n + 1)])}),
        ('spectrum', lambda: p.spectrum(r.standard_normal(n), 48000),
         {'2-D': lambda: p.spectrum(r.standard_normal((2, n, 2)), 48000)}),
        ('hull', lambda: p.hull(octa(), color=np.ones(8)),
         {'colours': lambda: p.hull(octa(), color=np.ones(7))}),
        ('decoder_performance', lambda: p.decoder_performance(
            octa(), 'VBAP', azi_steps=45, ele_steps=45),
         {f'renderer {k}': lambda: p.decoder_performance(octa(), k)}),
    ]
    return calls[r.integers(len(calls))]


def run(mod, c, t):
    table = TABLES[mod]
    fn = table[c['which'] % len(table)]

    name, ok, wrong = fn(gen.rng(c["seed"]))
    t.label(name)
    t.nt(True)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ok()
        for what, call in wrong.items():
            try:
                call()
            except Exception:
                continue
            t.fail(f'{name} accepted a mistake: {what}')


def make(mod, quick):
    def check(c, t):
        run(mod, c, t)
    check.__name__ = mod
    check.__doc__ = f'{mod}: one mistake at a time is rejected.'
    R.sub(dict(which=st.integers(0, len(TABLES[mod]) - 1), seed=gen.seeds),
          quick=quick)(check)


for _m, _q in (('sph', 600), ('parsa', 300), ('decoder', 300),
               ('grids', 100), ('process', 150), ('utils', 200),
               ('signals', 300), ('plot', 60)):
    make(_m, _q)


@R.sub(dict(seed=gen.seeds, which=st.integers(0, 4)), quick=200)
def warned(c, t):
    """Deviations that are accepted with a warning are warned about."""
    r = gen.rng(c['seed'])
    n = 20
    M = spa.sig.MonoSignal(r.standard_normal(n), 100)
    Q = spa.sig.MultiSignal([*r.standard_normal((2, n))], fs=100)
    d = os.environ.get('SCRATCH', '/tmp')
    out = os.path.join(d, f'c33_warn_{os.getpid()}.wav')
    h = spa.decoder.LoudspeakerSetup(*OCTA.T)
    deg = int(r.choice([4, 6, 8, 10]))
    X = [('stop exceeds the signal', lambda k: M.copy().trim(0, k * .1),
          1., 3.),
         ('stop exceeds the signals', lambda k: Q.copy().trim(0, k * .1), 1.,
          3.),
         ('clipped file', lambda k: spa.io.save_audio(
             np.full(4, k), out, fs=100), .9, 1.2),
         ('imaginary loudspeaker ignored', lambda k: h.ambisonics_setup(
             imaginary_ls=k, N_kernel=4), None, [[0, 0, 2.]]),
         ('undefined Lebedev degree', lambda k: spa.grids.load_lebedev(k), 5,
          deg)]
    name, call, ok, odd = X[c['which']]
    t.label(name)
    t.nt(True)
    for arg, want in ((ok, False), (odd, True)):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            call(arg)
        w = [x for x in w if issubclass(x.category, UserWarning)]
        t.require(bool(w) == want, f'{name}: {len(w)} warnings for {arg}')
