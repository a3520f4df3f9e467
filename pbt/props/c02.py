"""C02 spherical harmonic transforms."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C02', 'random coefficient matrices (1..4 columns or a '
                  'vector) of order 0..11 on quadrature grids, t-designs and '
                  'random grids; non-trivial: order >= 1')
types = st.sampled_from(['real', 'complex'])
base = dict(N=gen.order(6, 11), sh_type=types, S=st.integers(-1, 4),
            seed=gen.seeds, give_Y=st.booleans(), cplx=st.booleans())


def coeffs(c, N=None, Q=None):
    r = gen.rng(c['seed'])
    N = c['N'] if N is None else N
    n = (N + 1) ** 2
    S = c['S']
    if S < 0:  # as many columns as points: a square matrix of data
        S = Q if Q and Q < 200 else n
    shp = (n,) if S == 0 else (n, S)
    F = r.standard_normal(shp)
    if c['cplx'] or c['sh_type'] == 'complex':
        F = F + 1j * r.standard_normal(shp)
    return F


def col(x):
    return x[:, None] if x.ndim == 1 else x


def grid(c):
    """Sampling able to carry order N: (azi, zen, weights or None)."""
    N = c['N']
    k = c['grid']
    if k == 'gauss':
        return ref.quad(2 * N + c['extra'])
    if k == 'spa_gauss':
        return spa.grids.gauss(N + c['extra'])
    if k == 'equal_angle':
        return spa.grids.equal_angle(N + c['extra'])
    if k == 'lebedev':
        v, w = spa.grids.load_lebedev(max(3, 2 * N + c['extra']))
        a, z, _ = ref.sph(v)
        return a, z, w
    v = spa.grids.load_n_design(max(1, 2 * N + c['extra']))
    a, z, _ = ref.sph(v)
    return a, z, None


grids = dict(base, extra=st.integers(0, 3), grid=st.sampled_from(
    ['gauss', 'spa_gauss', 'equal_angle', 'lebedev', 'n_design']))


@R.sub(grids, quick=150)
def round_trip(c, t):
    """SHT of the inverse SHT restores the coefficients."""
    N = c['N']
    a, z, w = grid(c)
    F = coeffs(c, Q=len(a))
    t.nt(N >= 1)
    t.label(c['grid'])
    Y = ref.sh(N, a, z, c['sh_type']) if c['give_Y'] else None
    f = spa.sph.inverse_sht(F, a, z, c['sh_type'], Y_nm=Y)
    t.close(f, ref.sh(N, a, z, c['sh_type']) @ col(F), 'synthesis')
    back = spa.sph.sht(f, N, a, z, c['sh_type'], weights=w, Y_nm=Y)
    t.close(back, col(F), 'SHT of inverse SHT', atol=1e-7)
    if c['S'] == 0:
        t.close(spa.sph.sht(f[:, 0], N, a, z, c['sh_type'], weights=w),
                col(F), 'SHT of vector', atol=1e-7)
    lsq = spa.sph.sht_lstsq(f, N, a, z, c['sh_type'], Y_nm=Y)
    t.close(lsq, col(F), 'least squares SHT', atol=1e-7)


@R.sub(dict(grids, dN=st.integers(0, 3)), quick=80)
def lower_order(c, t):
    """Transforms to lower order are the truncation; inverse at lower order
    uses only the low orders."""
    N = c['N']
    M = max(0, N - c['dN'])
    a, z, w = grid(c)
    F = coeffs(c, Q=len(a))
    t.nt(N > M)
    f = spa.sph.inverse_sht(F, a, z, c['sh_type'])
    lo = spa.sph.sht(f, M, a, z, c['sh_type'], weights=w)
    t.close(lo, col(F)[:(M + 1) ** 2], 'truncated SHT', atol=1e-7)
    fl = spa.sph.inverse_sht(F, a, z, c['sh_type'], N_sph=M)
    t.close(fl, ref.sh(M, a, z, c['sh_type']) @ col(F)[:(M + 1) ** 2],
            'inverse SHT at lower order')


@R.sub(grids, quick=80)
def parseval(c, t):
    """Energy of the function equals energy of the coefficients."""
    N = c['N']
    t.nt(N >= 1)
    a, z, w = grid(c)
    F = coeffs(c, Q=len(a))
    if w is None:
        w = np.full(len(a), 4 * np.pi / len(a))
    f = spa.sph.inverse_sht(F, a, z, c['sh_type'])
    t.close(np.sum(w[:, None] * np.abs(f) ** 2, axis=0),
            np.sum(np.abs(col(F)) ** 2, axis=0), 'Parseval', rtol=1e-7)


@R.sub(dict(base, over=st.sampled_from([2, 3, 5]), cap=st.sampled_from(
    [0., 0., .4, .8])), quick=120)
def least_squares(c, t):
    """sht_lstsq minimises the squared error of arbitrary data on any grid."""
    N = min(c['N'], 4)
    r = gen.rng(c['seed'])
    Q = c['over'] * (N + 1) ** 2 + 1
    a, z = gen.rand_dirs(r, Q)
    if c['cap']:  # only a part of the sphere: badly conditioned
        z = z * (1 - c['cap'])
        if np.linalg.cond(ref.sh(N, a, z, c['sh_type'])) > 1e6:
            t.skip('not determined')
        t.label('cap')
    f = r.standard_normal((Q, max(c['S'], 1) if c['S'] >= 0 else Q))
    if c['cplx']:
        f = f + 1j * r.standard_normal(f.shape)
    t.nt(N >= 1)
    Y = ref.sh(N, a, z, c['sh_type'])
    F = spa.sph.sht_lstsq(f[:, 0] if c['S'] == 0 else f, N, a, z,
                          c['sh_type'], Y_nm=Y if c['give_Y'] else None)
    t.require(F.shape == ((N + 1) ** 2, f.shape[1]), f'shape {F.shape}')
    t.close(Y.conj().T @ (f - Y @ F), np.zeros_like(F),
            'normal equations', atol=1e-7)


@R.sub(grids, quick=60)
def linear_columns(c, t):
    """Columns are transformed independently and linearly."""
    N = c['N']
    t.nt(N >= 1)
    r = gen.rng(c['seed'])
    a, z, w = grid(c)
    f = r.standard_normal((len(a), 3))
    if c['cplx']:
        f = f + 1j * r.standard_normal(f.shape)
    Y = ref.sh(N, a, z, c['sh_type'])
    ww = np.full(len(a), 4 * np.pi / len(a)) if w is None else w
    full = spa.sph.sht(f, N, a, z, c['sh_type'], weights=w)
    t.close(full, Y.conj().T @ (ww[:, None] * f), 'quadrature sum',
            atol=1e-8)
    for k in range(3):
        t.close(spa.sph.sht(f[:, k], N, a, z, c['sh_type'],
                            weights=None if w is None else list(w))[:, 0],
                full[:, k], 'column')
    # no convention about the sum of the weights is assumed
    for k in (1 / (4 * np.pi), 1e-4, 1., 70., -2.):
        t.close(spa.sph.sht(f, N, a, z, c['sh_type'], weights=k * ww) / k,
                full, f'weights times {k}', atol=1e-8)
    w2 = np.where(r.uniform(size=len(a)) < .3, 0., ww)
    t.close(spa.sph.sht(f, N, a, z, c['sh_type'], weights=w2),
            Y.conj().T @ (w2[:, None] * f), 'some weights zero', atol=1e-8)


@R.sub(dict(N=st.integers(1, 6), Q=st.integers(49, 90), seed=gen.seeds,
            sh_type=types), quick=40)
def condition_number(c, t):
    """check_cond_sht is the condition number of the SH Gram matrix."""
    a, z = gen.rand_dirs(gen.rng(c['seed']), c['Q'])
    t.nt()
    Y = ref.sh(c['N'], a, z, c['sh_type'])
    s = np.linalg.svd(Y, compute_uv=False)
    k = (s[0] / s[-1]) ** 2
    if k > 1e5:
        t.skip('ill conditioned draw')
    t.close(spa.sph.check_cond_sht(c['N'], a, z, c['sh_type']), k,
            'condition number', rtol=1e-5)


@R.sub(dict(grids), quick=60)
def levels(c, t):
    """Linear at any level, per column of the data."""
    a, z, w = grid(c)
    F = col(coeffs(dict(c, S=3)))
    N = c['N']
    t.nt(N >= 1)
    ty = c['sh_type']
    f = spa.sph.inverse_sht(F, a, z, ty)
    t.linear(lambda x: spa.sph.inverse_sht(x, a, z, ty), F, 'inverse_sht')
    t.linear(lambda x: spa.sph.sht(x, N, a, z, ty, weights=w), f, 'sht')
    t.linear(lambda x: spa.sph.sht_lstsq(x, N, a, z, ty), f, 'sht_lstsq')


@R.sub(dict(N=st.integers(0, 4), n=gen.bulk, sh_type=types, seed=gen.seeds),
       quick=40)
def batches(c, t):
    """Columns and directions in batches of any size, any number type."""
    N, ty, n = c['N'], c['sh_type'], c['n']
    t.nt(N >= 1 and n > 1)
    r = gen.rng(c['seed'])
    a, z, w = spa.grids.gauss(N + 1)
    f = r.standard_normal((len(a), n))
    F = r.standard_normal(((N + 1) ** 2, n))
    t.rows(lambda i: spa.sph.sht(f[:, i], N, a, z, ty, weights=w), n,
           'sht columns', c['seed'], axis=1)
    t.rows(lambda i: spa.sph.sht_lstsq(f[:, i], N, a, z, ty), n,
           'least squares columns', c['seed'], axis=1)
    t.rows(lambda i: spa.sph.inverse_sht(F[:, i], a, z, ty), n,
           'inverse columns', c['seed'], axis=1)
    d, e = gen.rand_dirs(r, n)
    t.rows(lambda i: spa.sph.inverse_sht(F[:, :2], d[i], e[i], ty), n,
           'directions', c['seed'])
    f, F = f[:, :3], F[:, :3]
    t.forms(lambda x: spa.sph.sht(x, N, a, z, ty, weights=w), f, 'sht')
    t.forms(lambda x: spa.sph.sht(f, N, a, z, ty, weights=x), w, 'weights',
            ints=False)
    t.forms(lambda x: spa.sph.sht_lstsq(x, N, a, z, ty), f, 'least squares')
    t.forms(lambda x: spa.sph.inverse_sht(x, a, z, ty), F, 'inverse')


@R.sub(dict(N=st.integers(1, 5), Q=st.integers(0, 40), seed=gen.seeds,
            sh_type=types, squeeze=gen.floats(.05, 1.)), quick=60)
def ill_conditioned(c, t):
    """The least squares solution stays accurate up to the conditioning of
    the sampling itself (not its square)."""
    N = c['N']
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, 2 * (N + 1) ** 2 + c['Q'])
    z = z * c['squeeze']
    Y = ref.sh(N, a, z, c['sh_type'])
    k = np.linalg.cond(Y)
    if k > 1e9:
        t.skip('not determined')
    t.nt(k > 1e3)
    t.label(f'cond 1e{int(np.log10(k))}')
    F = r.standard_normal(((N + 1) ** 2, 2))
    G = spa.sph.sht_lstsq(Y @ F, N, a, z, c['sh_type'], Y_nm=Y)
    t.close(G, F.astype(G.dtype), 'coefficients', rtol=0, atol=1e-13 * k)
