"""C01 spherical harmonic basis."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C01', 'order 0..45, lists of '
                  'directions with poles / azimuth wraps mixed in; '
                  'non-trivial: order >= 1')
types = st.sampled_from(['real', 'complex'])
D_EX = [[0., 0.], [np.pi, np.pi], [-np.pi, np.pi / 2], [2 * np.pi, 1e-9],
        [np.pi / 2, np.pi / 2], [-0.3, 2.1], [4.9, 0.6]]


@R.sub(dict(N=gen.order(12, 45), sh_type=types, dirs=gen.dirs(1, 8),
            kind=gen.kinds), quick=300,
       examples=[dict(N=30, sh_type=s, dirs=D_EX, kind='array')
                 for s in ('real', 'complex')])
def definition(c, t):
    """Every entry equals an independently computed N3D / complex SH."""
    azi, zen = gen.split(c['dirs'])
    N = c['N']
    Y = spa.sph.sh_matrix(N, gen.as_kind(azi, c['kind']),
                          gen.as_kind(zen, c['kind']), c['sh_type'])
    t.nt(N >= 1)
    t.label(c['sh_type'])
    # cos(zen) is 1 for zen below 1.5e-8, where the slope is up to N^1.5 / 3
    t.close(Y, ref.sh(N, azi, zen, c['sh_type']), 'SH value', rtol=1e-7,
            atol=2e-7 + 2e-8 * N**1.5)
    t.require(np.iscomplexobj(Y) == (c['sh_type'] == 'complex'),
              'dtype does not match sh_type')


@R.sub(dict(N=gen.order(12, 45), sh_type=types, a=gen.direction,
            b=gen.direction), quick=150)
def addition_theorem(c, t):
    """sum_m Y_nm(a) Y_nm(b)* == (2n+1)/4pi P_n(cos angle)."""
    N = c['N']
    t.nt(N >= 1)
    (a1, z1), (a2, z2) = c['a'], c['b']
    Y = spa.sph.sh_matrix(N, [a1, a2], [z1, z2], c['sh_type'])
    cosg = float(ref.cart(a1, z1) @ ref.cart(a2, z2))
    prod = Y[0] * np.conj(Y[1])
    o = ref.orders(N)
    for n in range(N + 1):
        t.close(np.sum(prod[o == n]),
                (2 * n + 1) / (4 * np.pi) * ref.legendre(n, np.array(cosg)),
                f'addition theorem, order {n}', rtol=1e-7,
                atol=1e-6 + 1e-7 * n**1.5)


@R.sub(dict(N=gen.order(10, 18), sh_type=types, rot=gen.floats(-3., 3.)),
       quick=40)
def orthonormal(c, t):
    """Quadrature of Y Y^H over the sphere is the identity."""
    N = c['N']
    t.nt(N >= 1)
    a, z, w = ref.quad(2 * N + 1)
    Y = spa.sph.sh_matrix(N, a + c['rot'], z, c['sh_type'])
    t.close(Y.conj().T @ (w[:, None] * Y), np.eye((N + 1) ** 2),
            'Gram matrix', atol=1e-8)


@R.sub(dict(N=st.integers(0, 8), dirs=gen.dirs(1, 5)), quick=60)
def real_from_complex(c, t):
    """Real and complex SHs span the same functions by the usual relation."""
    azi, zen = gen.split(c['dirs'])
    N = c['N']
    t.nt(N >= 1)
    Yr = spa.sph.sh_matrix(N, azi, zen, 'real')
    Yc = spa.sph.sh_matrix(N, azi, zen, 'complex')
    t.close(spa.sph.sh_matrix(N, azi, zen), Yr, 'default type is real')
    for n in range(N + 1):
        for m in range(-n, n + 1):
            i, j = n * n + n + m, n * n + n + abs(m)
            if m == 0:
                e = Yc[:, j].real
            elif m > 0:
                e = np.sqrt(2) * (-1) ** m * Yc[:, j].real
            else:
                e = np.sqrt(2) * (-1) ** m * Yc[:, j].imag
            t.close(Yr[:, i], e, f'real/complex relation n={n} m={m}')


@R.sub(dict(N=st.integers(0, 6), d=gen.direction, sh_type=types), quick=60)
def scalar_and_batch(c, t):
    """A scalar direction gives the row the same direction has in a batch."""
    a, z = c['d']
    N = c['N']
    t.nt(N >= 1)
    one = spa.sph.sh_matrix(N, a, z, c['sh_type'])
    t.require(one.shape == (1, (N + 1) ** 2), f'shape {one.shape}')
    batch = spa.sph.sh_matrix(N, [0.1, a, -2.], [1., z, 2.], c['sh_type'])
    t.close(batch[1], one[0], 'row of batch')
    t.close(spa.sph.sh_matrix(N, np.array([[a], [a]]), np.array([[z], [z]]),
                              c['sh_type']), np.vstack([one, one]),
            'column vectors')
    wrap = spa.sph.sh_matrix(N, a + 2 * np.pi, z, c['sh_type'])
    t.close(wrap, one, '2 pi periodic in azimuth', atol=1e-7)


@R.sub(dict(N=st.integers(0, 5), n=gen.bulk, sh_type=types, seed=gen.seeds),
       quick=40)
def batches(c, t):
    """Every direction has its own row, in batches of any size, and the
    angles may come in any container, layout or number type."""
    N, ty = c['N'], c['sh_type']
    t.nt(N >= 1 and c['n'] > 1)
    a, z = gen.rand_dirs(gen.rng(c['seed']), c['n'])
    t.rows(lambda i: spa.sph.sh_matrix(N, a[i], z[i], ty), c['n'], 'rows',
           c['seed'])
    t.forms(lambda x: spa.sph.sh_matrix(N, x, z, ty), a, 'azimuth')
    t.forms(lambda x: spa.sph.sh_matrix(N, a, x, ty), z, 'zenith')
