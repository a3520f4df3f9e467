"""C08 spherical filter banks."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C08', 'orders 0..12 on t-designs / n-designs of sufficient '
                  'degree, named and random non-zero modal weights, real and '
                  'complex; non-trivial: order >= 1')
types = st.sampled_from(['real', 'complex'])
pats = st.sampled_from(['cardioid', 'hyper', 'maxre', 'butter', 'random'])


def weights(c):
    N = c['N']
    r = gen.rng(c['seed'])
    return dict(cardioid=lambda: spa.sph.cardioid_modal_weights(N),
                hyper=lambda: spa.sph.hypercardioid_modal_weights(N),
                maxre=lambda: spa.sph.maxre_modal_weights(N),
                butter=lambda: spa.sph.butterworth_modal_weights(N, 3, 2),
                random=lambda: r.uniform(.2, 2, N + 1) *
                r.choice([-1, 1], N + 1))[c['pat']]()


def secs(c):
    deg = 2 * c['N'] + c['extra']
    v = spa.grids.load_n_design(deg) if c['nd'] or deg > 21 else \
        spa.grids.load_t_design(deg)
    a, z, _ = ref.sph(v)
    return a, z


def accuracy(c):
    """t-designs are stored with few digits."""
    return 1e-8 if c['nd'] or 2 * c['N'] + c['extra'] > 21 else 2e-4


def balanced(c, cn, BA):
    """Same scale for the error of every component: the resynthesis divides
    by weights that get small at high orders."""
    d = np.abs(cn[ref.orders(c['N'])])
    return BA * d[:, None] / d


base = dict(N=gen.order(6, 12), extra=st.integers(1, 3), nd=st.booleans(),
            pat=pats, sh_type=types, seed=gen.seeds, rot=gen.floats(-3, 3),
            case=st.sampled_from(['perfect', 'Perfect', 'PERFECT']))


@R.sub(base, quick=100)
def perfect(c, t):
    """Amplitude design: resynthesis after analysis is the identity, and the
    sum over all sectors preserves the amplitude."""
    N = c['N']
    a, z = secs(c)
    cn = weights(c)
    t.nt(N >= 1)
    t.label(c['pat'])
    A, B = spa.sph.design_sph_filterbank(N, a + c['rot'], z, cn, c['case'],
                                         c['sh_type'])
    n = (N + 1) ** 2
    t.require(A.shape == (len(a), n) and B.shape == (n, len(a)), 'shapes')
    t.close(A, cn[ref.orders(N)] * ref.sh(N, a + c['rot'], z, c['sh_type']),
            'analysis patterns', atol=1e-6)
    t.close(balanced(c, cn, B @ A), np.eye(n), 'reconstruction',
            atol=accuracy(c))
    if c['sh_type'] == 'real':
        A2, B2 = spa.sph.design_sph_filterbank(N, list(a + c['rot']), list(z),
                                               list(cn), 'perfect')
        t.close(A2, A, 'default type')
        t.close(B2, B, 'default type')


@R.sub(base, quick=80)
def energy(c, t):
    """Energy design: resynthesis is the input times one gain; the gain makes
    the resynthesis of all sectors of a plane wave carry the same energy
    relation for every direction."""
    N = c['N']
    a, z = secs(c)
    cn = weights(c)
    t.nt(N >= 1)
    A, B = spa.sph.design_sph_filterbank(N, a + c['rot'], z, cn, 'energy',
                                         c['sh_type'])
    J = len(a)
    n = (N + 1) ** 2
    Y = ref.sh(N, a + c['rot'], z, c['sh_type'])
    o = ref.orders(N)
    t.close(A, cn[o] * Y, 'analysis patterns', atol=1e-6)
    beta = 4 * np.pi / (J * np.sum(
        (2 * np.arange(N + 1) + 1) / (4 * np.pi) * cn ** 2))
    gain = np.sqrt(beta) * cn[0] * J / (4 * np.pi)
    t.close(balanced(c, cn, B @ A), gain * np.eye(n), 'resynthesis',
            atol=accuracy(c) * abs(gain))
    t.close(B, np.sqrt(beta) * ((cn[0] / cn[o]) * Y).conj().T, 'resynthesis '
            'patterns', atol=1e-5)


@R.sub(dict(base, plus=st.integers(0, 5)), quick=60)
def pinv(c, t):
    """Pseudo-inverse design: identity on any sector set that can carry the
    order (random directions too)."""
    N = c['N']
    cn = weights(c)
    J = (N + 1) ** 2 + c['plus']
    a, z = gen.rand_dirs(gen.rng(c['seed']), 2 * J)
    t.nt(N >= 1)
    Y = ref.sh(N, a, z, c['sh_type'])
    if np.linalg.cond(Y) > 1e4:
        t.skip('sectors nearly dependent')
    A, B = spa.sph.design_sph_filterbank(N, a, z, cn, 'pinv', c['sh_type'])
    t.close(A, cn[ref.orders(N)] * Y, 'analysis patterns', atol=1e-6)
    t.close(B @ A, np.eye((N + 1) ** 2), 'reconstruction', atol=1e-6)
    t.close((A @ B), (A @ B).conj().T, 'projection is Hermitian', atol=1e-6)


@R.sub(dict(base, src=gen.direction), quick=100)
def factors(c, t):
    """Reconstruction factors: beam outputs of a unit plane wave sum up to
    the amplitude one / the energy one."""
    N = c['N']
    a, z = secs(c)
    cn = weights(c)
    t.nt(N >= 1)
    Y = ref.sh(N, a, z, c['sh_type'])
    W = cn[ref.orders(N)] * Y
    J = len(a)
    f = spa.sph.sph_filterbank_reconstruction_factor
    sa, sz = c['src']
    # beams are evaluated against the plane wave's coefficients
    s = W @ ref.sh(N, sa, sz, c['sh_type'])[0].conj()
    for m in ('amplitude', 'amp', 'AMP'):
        t.close(f(W[0], J, m) * np.sum(s), 1., f'{m} of a plane wave',
                rtol=1e-3, atol=1e-3)
    for m in ('energy', 'en', 'Energy'):
        t.close(f(W[0], J, m) * np.sum(np.abs(s) ** 2), 1.,
                f'{m} of a plane wave', rtol=1e-3, atol=1e-3)
    for lv in (1e-4, 1e3):
        t.close(f(lv * W[0], J, 'amp') * lv, f(W[0], J, 'amp'), 'level')
        t.close(f(lv * W[0], J, 'en') * lv ** 2, f(W[0], J, 'en'), 'level')
        for m in ('perfect', 'energy', 'pinv'):
            A, B = spa.sph.design_sph_filterbank(N, a, z, cn, m,
                                                 c['sh_type'])
            A2, B2 = spa.sph.design_sph_filterbank(N, a, z, cn * lv, m,
                                                   c['sh_type'])
            t.close(A2, A * lv, 'level of the patterns', atol=1e-8 * lv)
            t.close(B2 @ A2, (B @ A) * (1 if m != 'energy' else
                                        lv ** 1 / abs(lv)), 'level',
                    atol=1e-7)
    t.close(f(list(W[0]), J, 'en'), f(W[:1], J, 'energy'), 'containers')
    t.raises(ValueError, lambda: f(W[0], J, 'power'), 'unknown mode')
    t.raises(AssertionError, lambda: f(W[0], J), 'missing mode')
    t.raises(ValueError, lambda: spa.sph.design_sph_filterbank(
        N, a, z, cn, 'amplitudes', c['sh_type']), 'unknown design')


@R.sub(dict(N=st.integers(0, 4), pat=pats, seed=gen.seeds, sh_type=types,
            mode=st.sampled_from(['perfect', 'energy', 'pinv']),
            inv=st.booleans()), quick=60)
def forms(c, t):
    """Any order of the sectors, any container, layout and number type; the
    same bank after a change of the sign or level of all modal weights."""
    N, m, ty = c['N'], c['mode'], c['sh_type']
    t.nt(N >= 1)
    v = spa.grids.load_n_design(2 * N + 1)
    a, z, _ = ref.sph(v)
    cn = weights(c)
    r = gen.rng(c['seed'])
    f = spa.sph.design_sph_filterbank
    A, B = f(N, a, z, cn, m, ty)
    p = r.permutation(len(a))
    A2, B2 = f(N, a[p], z[p], cn, m, ty)
    t.close(A2, A[p], 'order of sectors')
    t.close(B2, B[:, p], 'order of sectors', atol=1e-8)
    A2, B2 = f(N, list(a), tuple(z), list(cn), m, ty)
    t.close(A2, A, 'lists')
    t.close(B2, B, 'lists')
    t.forms(lambda x: f(N, x, z, cn, m, ty), a, 'azimuth', ints=False)
    t.forms(lambda x: f(N, a, x, cn, m, ty), z, 'zenith', ints=False)
    t.forms(lambda x: f(N, a, z, x, m, ty),
            np.rint(3 * np.abs(cn) / np.abs(cn[0])) + 1, 'modal weights',
            ints=False)
    w = np.rint(3 * cn / cn[0]) + np.sign(np.rint(3 * cn / cn[0])) + .0
    w[w == 0] = 1.
    t.same(f(N, a, z, w.astype(int), m, ty), f(N, a, z, w, m, ty),
           'integer modal weights')
    for lv in (-1., 1e-5, -1e4):
        A2, B2 = f(N, a, z, cn * lv, m, ty)
        t.close(A2, A * lv, f'level {lv}', atol=1e-9 * abs(lv))
        E = B / lv if m != 'energy' else B / abs(lv)
        t.close(B2, E, f'level {lv}', rtol=1e-7,
                atol=1e-7 * np.max(np.abs(E)))
