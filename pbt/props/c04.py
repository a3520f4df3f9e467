"""C04 rotation of spherical harmonic signals."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C04', 'order 0..12, yaw/pitch/roll drawn '
                  'from special and arbitrary angles; non-trivial: order >= 1 '
                  'and some angle != 0')
ang = st.one_of(st.sampled_from([0., np.pi / 2, -np.pi / 2, np.pi, 2 * np.pi,
                                 np.pi / 4, 1e-6, 5., -7.]),
                gen.floats(-2 * np.pi, 2 * np.pi))
base = dict(N=gen.order(7, 11), yaw=ang, pitch=ang, roll=ang)


def nt(c, t):
    t.nt(c['N'] >= 1 and (c['yaw'] or c['pitch'] or c['roll']))


def args(c):
    return c['N'], c['yaw'], c['pitch'], c['roll']


@R.sub(dict(base, dirs=gen.dirs(1, 4)), quick=120,
       examples=[dict(N=12, yaw=0.4, pitch=-1.1, roll=2.2,
                      dirs=[[0.3, 1.], [-2., 2.5]])])
def rotates_directions(c, t):
    """Rotated encoding of x equals the encoding of the rotated x."""
    nt(c, t)
    N = c['N']
    azi, zen = gen.split(c['dirs'])
    rot = ref.euler(c['yaw'], c['pitch'], c['roll'])
    a2, z2, _ = ref.sph(ref.cart(azi, zen) @ rot.T)
    D = spa.sph.sh_rotation_matrix(*args(c))
    t.require(D.shape == ((N + 1) ** 2,) * 2, f'shape {D.shape}')
    Y, Y2 = ref.sh_real(N, azi, zen), ref.sh_real(N, a2, z2)
    t.close(Y @ D.T, Y2, 'rotated basis', atol=1e-7)
    t.close(spa.sph.rotate_sh(Y, *args(c)[1:]), Y2, 'rotate_sh', atol=1e-7)


@R.sub(base, quick=80)
def orthogonal_blocks(c, t):
    """Orthogonal, block diagonal per order; the block list is the same."""
    nt(c, t)
    N = c['N']
    D = spa.sph.sh_rotation_matrix(*args(c))
    o = ref.orders(N)
    t.close(D @ D.T, np.eye(len(o)), 'orthogonality', atol=1e-8)
    t.close(D[o[:, None] != o[None, :]], np.zeros(np.sum(
        o[:, None] != o[None, :])), 'mixes orders')
    bl = spa.sph.sh_rotation_matrix(*args(c), return_as_blocks=True)
    t.require(len(bl) == N + 1, f'{len(bl)} blocks for order {N}')
    for n, b in enumerate(bl):
        t.close(b, D[n * n:(n + 1) ** 2, n * n:(n + 1) ** 2], f'block {n}')
    t.close(D[0, 0], 1., 'omni channel')


@R.sub(dict(base, y2=ang, p2=ang, r2=ang), quick=60)
def composes(c, t):
    """Successive rotations act like the product of the 3x3 rotations."""
    nt(c, t)
    N = c['N']
    D1 = spa.sph.sh_rotation_matrix(*args(c))
    D2 = spa.sph.sh_rotation_matrix(N, c['y2'], c['p2'], c['r2'])
    rot = ref.euler(c['y2'], c['p2'], c['r2']) @ \
        ref.euler(c['yaw'], c['pitch'], c['roll'])
    v = np.array([[.6, .64, .48], [-.8, 0., .6], [0., 0., -1.]])
    a, z, _ = ref.sph(v)
    a2, z2, _ = ref.sph(v @ rot.T)
    t.close(ref.sh_real(N, a, z) @ (D2 @ D1).T, ref.sh_real(N, a2, z2),
            'composition', atol=1e-7)


@R.sub(dict(base, seed=gen.seeds, shape=st.sampled_from(
    ['vec', 'mat', 'cube', 'square', 'cube2', 'cube3']),
    level=gen.levels), quick=100)
def signals(c, t):
    """rotate_sh applies the matrix along the last axis, keeps the energy of
    every order, and is undone by the reverse rotation."""
    nt(c, t)
    N = c['N']
    r = gen.rng(c['seed'])
    n = (N + 1) ** 2
    shp = {'vec': (), 'mat': (3,), 'cube': (2, 3), 'square': (n,),
           'cube2': (2, n), 'cube3': (n, n) if N < 4 else (n, 2)}[c['shape']]
    F = r.standard_normal(shp + ((N + 1) ** 2,))
    G = spa.sph.rotate_sh(F, *args(c)[1:])
    D = spa.sph.sh_rotation_matrix(*args(c))
    t.close(G, np.atleast_2d(np.einsum('ij,...j->...i', D, F)),
            'rotate_sh vs matrix')
    o = ref.orders(N)
    for n in range(N + 1):
        t.close(np.sum(G[..., o == n] ** 2, -1),
                np.sum(np.atleast_2d(F)[..., o == n] ** 2, -1),
                f'energy of order {n}', rtol=1e-7)
    # undo: Rx(-r), then Ry(-p), then Rz(-y), applied last factor first
    B = spa.sph.rotate_sh(G, -c['yaw'], 0., 0.)
    B = spa.sph.rotate_sh(B, 0., -c['pitch'], 0.)
    B = spa.sph.rotate_sh(B, 0., 0., -c['roll'])
    t.close(B, np.atleast_2d(F), 'inverse rotation', atol=1e-7)
    t.close(spa.sph.rotate_sh(F * c['level'], *args(c)[1:]) / c['level'], G,
            'level', atol=1e-8)


@R.sub(dict(base, kind=st.sampled_from(['complex', 'foo'])), quick=20)
def unsupported_types(c, t):
    """Complex SHs are refused rather than rotated wrongly."""
    t.nt(c['N'] >= 1)
    exc = NotImplementedError if c['kind'] == 'complex' else ValueError
    t.raises(exc, lambda: spa.sph.sh_rotation_matrix(
        *args(c), sh_type=c['kind']), 'matrix')
    t.raises(exc, lambda: spa.sph.rotate_sh(
        np.ones((2, (c['N'] + 1) ** 2)), *args(c)[1:], sh_type=c['kind']),
        'rotate_sh')
    t.raises(AssertionError, lambda: spa.sph.rotate_sh(
        np.ones((2, (c['N'] + 1) ** 2 + 1)), *args(c)[1:]),
        'incomplete order')


@R.sub(dict(N=st.integers(0, 4), yaw=ang, pitch=ang, roll=ang, n=gen.bulk,
            seed=gen.seeds), quick=40)
def batches(c, t):
    """Every signal of a batch is rotated on its own, for any size, level
    and number type."""
    nt(c, t)
    r = gen.rng(c['seed'])
    F = r.standard_normal((c['n'], (c['N'] + 1) ** 2))

    def f(x):
        return spa.sph.rotate_sh(x, *args(c)[1:])
    t.rows(lambda i: f(F[i]), c['n'], 'rows', c['seed'])
    F = F[:3]
    t.linear(f, F, 'rotation', columns=False)
    t.forms(f, F, 'rotation')


@R.sub(dict(N=st.integers(1, 6), e=st.sampled_from([1e-9, 1e-7, 1e-6, 1e-5,
                                                    1e-4, 1e-3]),
            ax=st.integers(0, 2), sgn=st.sampled_from([-1, 1]),
            d=gen.direction, yaw=ang), quick=60)
def small_angles(c, t):
    """A small rotation is close to the identity, and not the identity: the
    difference is that of the generator."""
    t.nt()
    N, e = c['N'], c['sgn'] * c['e']
    an = [0., 0., 0.]
    an[c['ax']] = e
    d = spa.sph.sh_rotation_matrix(N, *an) - np.eye((N + 1) ** 2)
    h = 1e-4                                # central difference at zero
    an[c['ax']] = h
    g = spa.sph.sh_rotation_matrix(N, *an)
    an[c['ax']] = -h
    g = (g - spa.sph.sh_rotation_matrix(N, *an)) / (2 * h)
    t.close(d / e, g + e / 2 * g @ g, 'derivative', atol=1e-5 + 300 * e * e +
            3e-15 / abs(e) * N)
    x = np.ones((1, (N + 1) ** 2))
    an[c['ax']] = e
    t.close((spa.sph.rotate_sh(x, *an) - x) / e, x @ (g + e / 2 * g @ g).T,
            'rotated signal', atol=(1e-5 + 300 * e * e + 3e-15 / abs(e) * N)
            * (N + 1) ** 2)
