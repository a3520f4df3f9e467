"""C06 Ambisonic channel formats."""
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from scipy import signal
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C06', 'random signals (1..5 samples, float / int data) '
                  'and source directions, W weights of 1e-3..50 and negative ones, both SH axes; '
                  'non-trivial: more than one sample or order >= 1')
weight = st.one_of(st.none(), st.sampled_from([1., 1 / np.sqrt(2),
                                               np.sqrt(2)]),
                   gen.floats(0.1, 3.), gen.floats(-3., -.1),
                   st.sampled_from([1e-3, 50., 2]))


def data(c, n, key='S'):
    r = gen.rng(c['seed'])
    x = r.standard_normal((n, c[key]))
    if c.get('integer'):
        x = np.round(10 * x).astype(int)
    return x


def w_of(c):
    return 1. if c['W'] is None else c['W']


sig = dict(seed=gen.seeds, S=st.integers(1, 5), integer=st.booleans(),
           W=weight)


@R.sub(dict(sig, N=st.integers(0, 7), axis=st.sampled_from([0, 1, -1, -2])),
       quick=150)
def n3d_sn3d(c, t):
    """Order n is divided by sqrt(2n+1) along the SH axis, and back."""
    N = c['N']
    t.nt(N >= 1)
    x = data(c, (N + 1) ** 2)
    ax = c['axis']
    if ax % 2:
        x = x.T
    keep = x.copy()
    s = np.sqrt(2 * ref.orders(N) + 1.)
    s = s[:, None] if ax % 2 == 0 else s[None, :]
    if ax == -2:
        ax = 0
    a = spa.sph.n3d_to_sn3d(x, axis=ax)
    b = spa.sph.sn3d_to_n3d(x, axis=ax)
    t.close(a, x / s, 'n3d_to_sn3d')
    t.close(b, x * s, 'sn3d_to_n3d')
    t.close(spa.sph.sn3d_to_n3d(a, axis=ax), x, 'round trip')
    t.close(spa.sph.n3d_to_sn3d(b, axis=ax), x, 'reverse round trip')
    t.close(x, keep, 'input untouched')
    if ax == 0:
        t.close(spa.sph.n3d_to_sn3d(x), a, 'default axis')
        t.close(spa.sph.sn3d_to_n3d(x), b, 'default axis')


@R.sub(dict(sig, dirs=gen.dirs(1, 1), flat=st.booleans()), quick=150)
def b_format(c, t):
    """sh_to_b maps plane waves to [W, x, y, z]; b_to_sh undoes it."""
    t.nt()
    x = data(c, 4)
    if c['flat']:
        x = x[:, 0]
    B = spa.sph.sh_to_b(x, c['W'])
    k = np.sqrt(4 * np.pi)
    M = np.zeros((4, 4))
    M[0, 0] = w_of(c) * k
    M[1, 3] = M[2, 1] = M[3, 2] = k / np.sqrt(3)
    t.close(B, M @ x, 'sh_to_b')
    t.close(spa.sph.b_to_sh(B, c['W']), x, 'b_to_sh(sh_to_b)')
    t.close(spa.sph.sh_to_b(spa.sph.b_to_sh(x, c['W']), c['W']), x,
            'sh_to_b(b_to_sh)')
    a, z = c['dirs'][0]
    F = ref.sh_real(1, a, z).T
    v = ref.cart(a, z)
    t.close(spa.sph.sh_to_b(F, c['W']),
            np.r_[w_of(c), v][:, None], 'plane wave', atol=1e-6)


@R.sub(dict(sig, dirs=gen.dirs(1, 4)), quick=100)
def sources_to_b(c, t):
    """src_to_b is [1, x, y, z] times the signal (blocks of sources)."""
    t.nt()
    s = data(c, 1)[0]
    azi, zen = gen.split(c['dirs'])
    v = ref.cart(azi, zen)
    B = spa.sph.src_to_b(s, azi, zen)
    g = np.concatenate([np.ones(len(azi)), v[:, 0], v[:, 1], v[:, 2]])
    if len(azi) == 1:
        t.close(B, np.outer(g, s), 'src_to_b')
        F = spa.sph.src_to_sh(s, azi, zen, 1)
        t.close(spa.sph.sh_to_b(F), B, 'via SH', atol=1e-6)
        t.close(spa.sph.src_to_b(s, azi[0], zen[0]), B, 'scalar direction')
    else:
        t.require(B.shape == (4 * len(azi), len(s)), f'shape {B.shape}')
        Bk = np.sort(B, axis=0)
        t.close(Bk, np.sort(np.outer(np.c_[np.ones(len(azi)), v].ravel(), s),
                            axis=0), 'gains of all sources')


@R.sub(dict(sig, N=st.integers(0, 6), dirs=gen.dirs(1, 4),
            sh_type=st.sampled_from(['real', 'complex'])), quick=120)
def sources_to_sh(c, t):
    """Sum of plane waves: conj(Y(direction)) times each signal."""
    t.nt(c['N'] >= 1)
    azi, zen = gen.split(c['dirs'])
    s = data(c, len(azi))
    F = spa.sph.src_to_sh(s if len(azi) > 1 else s[0], azi, zen, c['N'],
                          sh_type=c['sh_type'])
    E = ref.sh(c['N'], azi, zen, c['sh_type']).conj().T @ s
    t.close(F, E, 'src_to_sh', atol=1e-5)
    if c['sh_type'] == 'real':
        t.close(spa.sph.src_to_sh(s, azi, zen, c['N']), E, 'default type',
                atol=1e-5)


TETRA = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]]
                 ) / np.sqrt(3)


@R.sub(sig, quick=80)
def a_format(c, t):
    """Tetrahedral capsules of a first order field give its B-format."""
    t.nt(c['S'] > 1)
    F = data(c, 4)
    a, z, _ = ref.sph(TETRA)
    caps = ref.sh_real(1, a, z) @ F
    t.close(spa.sph.platonic_solid('tetrahedron'), TETRA, 'capsules')
    t.close(spa.sph.platonic_solid('tetra'), TETRA, 'capsules')
    B = spa.sph.soundfield_to_b(caps, c['W'])
    t.close(B, spa.sph.sh_to_b(F, c['W']), 'soundfield_to_b', atol=1e-8)
    ms = spa.sig.MultiSignal([*caps], fs=48000)
    Bs = spa.process.ambeo_a2b(ms)
    E = spa.sph.sh_to_b(F)
    t.require(isinstance(Bs, spa.sig.AmbiBSignal) and Bs.fs == 48000,
              'ambeo_a2b type / fs')
    for k, nm in enumerate('WXYZ'):
        t.close(getattr(Bs, nm), E[k], f'ambeo_a2b {nm}', atol=1e-8)
    t.close(Bs.get_signals(), E, 'ambeo_a2b channels', atol=1e-8)
    t.close(ms.get_signals(), caps, 'A-format input untouched')


coef = st.lists(gen.floats(-.4, .4), min_size=0, max_size=3)


@R.sub(dict(seed=gen.seeds, S=st.integers(4, 30), b0=coef, a0=coef, b1=coef,
            a1=coef), quick=60)
def a_format_filtered(c, t):
    """Capsule correction filters: one for W, another one for X, Y, Z."""
    F = gen.rng(c['seed']).standard_normal((4, c['S']))
    t.nt(c['b0'] != c['b1'])
    fl = [np.r_[1., c['b0']], np.r_[1., c['a0']], np.r_[.5, c['b1']],
          np.r_[1., c['a1']]]
    path = os.path.join(os.environ['SCRATCH'], f'filt_{os.getpid()}.pkl')
    with open(path, 'wb') as f:
        pickle.dump(fl, f)
    a, z, _ = ref.sph(TETRA)
    caps = ref.sh_real(1, a, z) @ F
    Bs = spa.process.ambeo_a2b(spa.sig.MultiSignal([*caps], fs=44100), path)
    os.remove(path)
    E = np.asarray(spa.sph.sh_to_b(F))
    E = np.vstack([signal.lfilter(fl[0], fl[1], E[:1]),
                   signal.lfilter(fl[2], fl[3], E[1:])])
    for k, nm in enumerate('WXYZ'):
        t.close(getattr(Bs, nm), E[k], f'filtered {nm}', atol=1e-7, rtol=1e-7)
    t.close(Bs.get_signals(), E, 'filtered channels', atol=1e-7, rtol=1e-7)


@R.sub(dict(seed=gen.seeds, S=st.integers(1, 20), dirs=gen.dirs(1, 1)),
       quick=60)
def stereo(c, t):
    """b_to_stereo: W + (X +- Y)/sqrt 2, i.e. left is 45 degree azimuth."""
    t.nt()
    x = gen.rng(c['seed']).standard_normal((4, c['S']))
    B = spa.sig.AmbiBSignal([*x], fs=48000)
    left, right = spa.process.b_to_stereo(B)
    t.close(left, x[0] + (x[1] + x[2]) / np.sqrt(2), 'left')
    t.close(right, x[0] + (x[1] - x[2]) / np.sqrt(2), 'right')
    ms = spa.sig.MultiSignal([*x], fs=44100)
    Bm = spa.sig.AmbiBSignal.sh_to_b(ms)
    t.close(Bm.get_signals(), spa.sph.sh_to_b(x), 'AmbiBSignal.sh_to_b')
    t.require(Bm.fs == 44100, 'fs')
    t.close(ms.get_signals(), x, 'MultiSignal untouched')


@R.sub(dict(seed=gen.seeds, N=st.integers(1, 4), dirs=gen.dirs(1, 3),
            W=weight), quick=60)
def levels(c, t):
    """Every conversion is linear, sample by sample, at any level; also for
    as many samples as channels."""
    r = gen.rng(c['seed'])
    N = c['N']
    t.nt()
    azi, zen = gen.split(c['dirs'])
    x = r.standard_normal(((N + 1) ** 2, (N + 1) ** 2))
    s = spa.sph
    t.linear(lambda v: s.n3d_to_sn3d(v), x, 'n3d_to_sn3d')
    t.linear(lambda v: s.sn3d_to_n3d(v), x, 'sn3d_to_n3d')
    t.linear(lambda v: s.n3d_to_sn3d(v, axis=-1), x, 'n3d_to_sn3d')
    t.close(s.n3d_to_sn3d(x, axis=1), s.n3d_to_sn3d(x.T).T, 'axes')
    t.close(s.sn3d_to_n3d(x, axis=1), s.sn3d_to_n3d(x.T).T, 'axes')
    y = r.standard_normal((4, 4))
    t.linear(lambda v: s.sh_to_b(v, c['W']), y, 'sh_to_b')
    t.linear(lambda v: s.b_to_sh(v, c['W']), y, 'b_to_sh')
    t.linear(lambda v: s.soundfield_to_b(v, c['W']), y, 'soundfield_to_b')
    t.linear(lambda v: s.src_to_b(v, azi, zen), y[0], 'src_to_b')
    t.linear(lambda v: s.src_to_sh(v, azi, zen, N), y[:len(azi)],
             'src_to_sh')
    for k in (0, 1):
        t.linear(lambda v: spa.process.b_to_stereo(
            spa.sig.AmbiBSignal([*v], fs=48000))[k], y, 'b_to_stereo')
    t.linear(lambda v: spa.process.ambeo_a2b(
        spa.sig.MultiSignal([*v], fs=48000)).get_signals(), y, 'ambeo_a2b')


@R.sub(dict(seed=gen.seeds, N=st.integers(0, 4), n=gen.bulk, W=weight,
            sh_type=st.sampled_from(['real', 'complex'])), quick=40)
def forms(c, t):
    """Any number of samples, each converted on its own, in any layout and
    number type."""
    r = gen.rng(c['seed'])
    N, n, s = c['N'], c['n'], spa.sph
    t.nt(n > 1)
    x = r.standard_normal(((N + 1) ** 2, n))
    y = r.standard_normal((4, n))
    a, z = gen.rand_dirs(r, 1)
    for nm, f, v in [
            ('n3d_to_sn3d', s.n3d_to_sn3d, x),
            ('sn3d_to_n3d', s.sn3d_to_n3d, x),
            ('sh_to_b', lambda v: s.sh_to_b(v, c['W']), y),
            ('b_to_sh', lambda v: s.b_to_sh(v, c['W']), y),
            ('soundfield_to_b', lambda v: s.soundfield_to_b(v, c['W']), y),
            ('src_to_sh', lambda v: s.src_to_sh(v[:1], a, z, N,
                                                c['sh_type']), y),
            ('src_to_b', lambda v: s.src_to_b(v[0], a, z), y),
            ('b_to_stereo', lambda v: np.array(spa.process.b_to_stereo(
                spa.sig.AmbiBSignal([*v], fs=48000))), y),
            ('ambeo_a2b', lambda v: spa.process.ambeo_a2b(
                spa.sig.MultiSignal([*v], fs=48000)).get_signals(), y)]:
        t.rows(lambda i: f(v[:, i]), n, nm, c['seed'], axis=1)
        t.forms(f, v[:, :20], nm, single=1e-4 if nm == 'b_to_stereo'
                else 1e-9)
    t.rows(lambda i: s.n3d_to_sn3d(x.T[i], axis=1), n, 'axis 1', c['seed'])
    A, Z = gen.rand_dirs(r, n)
    sg = r.standard_normal((n, 3))
    # many sources add up
    cut = n // 2
    if cut:
        t.close(s.src_to_sh(sg[:cut], A[:cut], Z[:cut], N, c['sh_type']) +
                s.src_to_sh(sg[cut:], A[cut:], Z[cut:], N, c['sh_type']),
                s.src_to_sh(sg, A, Z, N, c['sh_type']), 'sum of sources',
                atol=1e-7)
