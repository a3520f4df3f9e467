"""C05 products of spherical functions and sector beamformers."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C05', 'coefficient vectors of order 0..10 (sum up to '
                  '10), real and complex; sector matrices of 1..9 beams of '
                  'order 0..9; '
                  'non-trivial: at least one function is not constant')
types = st.sampled_from(['real', 'complex'])


def vec(r, N, cplx=False):
    v = r.standard_normal((N + 1) ** 2)
    if cplx:
        v = v + 1j * r.standard_normal(v.shape)
    return v


def product(a, b, sh_type):
    """Projection of the pointwise product, by own exact quadrature."""
    Na, Nb = int(np.sqrt(len(a))) - 1, int(np.sqrt(len(b))) - 1
    N = Na + Nb
    az, ze, w = ref.quad(2 * N + 1)
    f = (ref.sh(Na, az, ze, sh_type) @ a) * (ref.sh(Nb, az, ze, sh_type) @ b)
    return ref.sh(N, az, ze, sh_type).conj().T @ (w * f)


def tol(a, b):
    return 3e-4 * np.linalg.norm(a) * np.linalg.norm(b) + 1e-9


@st.composite
def pairs(draw, **k):
    N1 = draw(st.one_of(st.integers(0, 5), st.integers(0, 10)))
    N2 = draw(st.integers(0, 10 - N1 if N1 > 5 else 5))
    if draw(st.booleans()):
        N1, N2 = N2, N1
    return dict(N1=N1, N2=N2, **{i: draw(x) for i, x in k.items()})


@R.sub(pairs(sh_type=types,
            seed=gen.seeds, cplx=st.booleans(), kind=gen.kinds), quick=150,
       examples=[dict(N1=0, N2=0, sh_type=s, seed=1, cplx=x, kind='array')
                 for s in ('real', 'complex') for x in (False, True)])
def pointwise_product(c, t):
    """Coefficients of the product function, of the sum of the orders."""
    r = gen.rng(c['seed'])
    a, b = vec(r, c['N1'], c['cplx']), vec(r, c['N2'], c['cplx'])
    t.nt(c['N1'] + c['N2'] > 0)
    t.label(c['sh_type'] + ('/complex data' if c['cplx'] else ''))
    got = spa.sph.sh_mult(gen.as_kind(a, c['kind']),
                          gen.as_kind(b, c['kind']), c['sh_type'])
    t.close(got, product(a, b, c['sh_type']), 'product', atol=tol(a, b))
    t.close(spa.sph.sh_mult(b, a, c['sh_type']), got, 'commutes', atol=1e-9)
    t.linear(lambda x: spa.sph.sh_mult(x, b, c['sh_type']), a, 'first factor',
             columns=False)


@R.sub(dict(N=st.integers(0, 8), sh_type=types, seed=gen.seeds, i=st.integers(
    0, 80), gain=gen.floats(-3, 3)), quick=60)
def identities(c, t):
    """One is the neutral element; scaling and integer input work."""
    N = c['N']
    r = gen.rng(c['seed'])
    a = vec(r, N, c['sh_type'] == 'complex')
    t.nt(N > 0)
    one = [np.sqrt(4 * np.pi)]
    t.close(spa.sph.sh_mult(one, a, c['sh_type']), a, 'times one',
            atol=tol(a, one))
    t.close(spa.sph.sh_mult(a, [c['gain']], c['sh_type']),
            a * c['gain'] / np.sqrt(4 * np.pi), 'times constant',
            atol=tol(a, one))
    if N <= 4:
        e = [0] * (N + 1) ** 2
        e[c['i'] % len(e)] = 1
        t.close(spa.sph.sh_mult(e, [0, 1, 0, 1], c['sh_type']),
                product(np.array(e), np.array([0, 1, 0, 1]), c['sh_type']),
                'integer input', atol=tol(e, [1, 1]))


@R.sub(dict(N=gen.order(6, 9), J=st.integers(1, 9), seed=gen.seeds,
            dirs=gen.dirs(3, 6)), quick=80)
def sectors(c, t):
    """Per sector four rows: the pattern times 1, x, y and z."""
    N, J = c['N'], c['J']
    t.nt(J > 1)
    A = gen.rng(c['seed']).standard_normal((J, (N + 1) ** 2))
    keep = A.copy()
    W = spa.parsa.sh_sector_beamformer(A)
    t.require(W.shape == (4 * J, (N + 2) ** 2), f'shape {W.shape}')
    t.close(A, keep, 'input matrix')
    azi, zen = gen.split(c['dirs'])
    f = ref.sh_real(N, azi, zen) @ A.T
    v = ref.cart(azi, zen)
    g = ref.sh_real(N + 1, azi, zen) @ W.T
    for j in range(J):
        for k in range(4):
            e = f[:, j] * (1. if k == 0 else v[:, k - 1])
            t.close(g[:, 4 * j + k], e, f'sector {j} component {"wxyz"[k]}',
                    atol=1e-3 * np.linalg.norm(A[j]) * (N + 1))
    if J > 1:
        d = 10. ** (np.arange(J) * 3 % 7 - 4.)
        t.close(spa.parsa.sh_sector_beamformer(A * d[:, None]) /
                np.repeat(d, 4)[:, None], W, 'levels of the sectors',
                atol=1e-7 * np.max(np.abs(W)))


@R.sub(dict(N=st.integers(1, 4), pat=st.sampled_from(
    ['cardioid', 'hypercardioid', 'max_re']), mode=st.sampled_from(
        ['perfect', 'energy']), src=gen.direction), quick=40)
def sector_doa(c, t):
    """Sector intensity of one plane wave points at the plane wave in every
    sector that receives it."""
    N = c['N']
    t.nt()
    v = spa.grids.load_t_design(2 * N)
    a, z, _ = ref.sph(v)
    c_n = dict(cardioid=spa.sph.cardioid_modal_weights,
               hypercardioid=spa.sph.hypercardioid_modal_weights,
               max_re=spa.sph.maxre_modal_weights)[c['pat']](N)
    A, _ = spa.sph.design_sph_filterbank(N, a, z, c_n, c['mode'])
    W = spa.parsa.sh_sector_beamformer(A)
    (sa, sz) = c['src']
    out = W @ ref.sh_real(N + 1, sa, sz)[0]
    d = ref.cart(sa, sz)
    for j in range(len(v)):
        w, xyz = out[4 * j], out[4 * j + 1:4 * j + 4]
        t.close(xyz, w * d, f'sector {j} DOA', atol=2e-3)


@R.sub(dict(N=st.integers(0, 3), M=st.integers(0, 3), J=st.integers(1, 5),
            seed=gen.seeds, sh_type=types), quick=60)
def forms(c, t):
    """Any layout and number type of the coefficients, any level and any
    order of the sectors."""
    r = gen.rng(c['seed'])
    a, b = vec(r, c['N']), vec(r, c['M'])
    A = r.standard_normal((c['J'], (c['N'] + 1) ** 2))
    t.nt(c['N'] > 0)
    ty = c['sh_type']
    t.forms(lambda x: spa.sph.sh_mult(x, b, ty), a, 'first factor')
    t.forms(lambda x: spa.sph.sh_mult(b, x, ty), a, 'second factor')
    t.linear(lambda x: spa.sph.sh_mult(b, x, ty), a, 'second factor',
             columns=False)
    f = spa.parsa.sh_sector_beamformer
    t.forms(f, A, 'sectors')
    t.linear(f, A, 'sectors', columns=False)
    t.rows(lambda i: f(A[i]).reshape(len(i), -1), c['J'], 'sectors',
           c['seed'])
