"""C17 SAD / MAD / EPAD."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

dec = spa.decoder
R = core.Registry('C17', 'layouts of 4..64 loudspeakers and t-designs, '
                  'orders 0..7, random SH signals; non-trivial: order >= 1')
base = dict(s=setups.specs(), N=gen.order(4, 7), more=st.integers(0, 2),
            S=st.integers(1, 4), seed=gen.seeds)


def prepare(c, t):
    h = setups.build(c['s'])
    N = c['N']
    t.nt(N >= 1)
    a, z, _ = ref.sph(h.points)
    Y = ref.sh_real(N, a, z)
    F = gen.rng(c['seed']).standard_normal(((N + 1 + c['more']) ** 2,
                                            c['S']))
    return h, N, Y, F, F[:(N + 1) ** 2]


@R.sub(base, quick=120)
def sampling(c, t):
    """SAD projects onto the loudspeaker directions (unit energy scale)."""
    h, N, Y, F, F0 = prepare(c, t)
    keep = F.copy()
    x = dec.sad(F, h, N_sph=N)
    t.close(F, keep, 'input changed', rtol=0, atol=0)
    L = len(Y)
    t.require(x.shape == (L, c['S']), f'shape {x.shape}')
    t.close(x, np.sqrt(4 * np.pi / L * 4 * np.pi / (N + 1) ** 2) * Y @ F0,
            'projection', atol=1e-6)
    t.close(dec.sad(-2 * F, h, N_sph=N), -2 * x, 'linear', atol=1e-9)


@R.sub(base, quick=120)
def mode_matching(c, t):
    """MAD reproduces the signal when encoded again; on layouts that cannot
    carry the order it is the least squares reproduction."""
    h, N, Y, F, F0 = prepare(c, t)
    L, K = Y.shape
    s = np.linalg.svd(Y, compute_uv=False)
    if s[-1] < 1e-2 * s[0]:
        t.skip('layout badly conditioned')
    t.label('carries the order' if L >= K else 'too few loudspeakers')
    x = dec.mad(F, h, N_sph=N)
    t.require(x.shape == (L, c['S']), f'shape {x.shape}')
    f = np.sqrt(L) / (N + 1)
    if L >= K:
        t.close(Y.T @ x, f * F0, 'encoded again', atol=1e-5)
    else:
        t.close(Y @ (Y.T @ x), f * Y @ F0, 'normal equations', atol=1e-4)
    # no other loudspeaker signals with the same reproduction have less power
    q = Y @ np.linalg.lstsq(Y, x, rcond=None)[0]
    t.close(q, x, 'least power', atol=1e-5)
    t.close(dec.mad(3 * F, h, N_sph=N), 3 * x, 'linear', atol=1e-8)


@R.sub(dict(base, dirs=gen.dirs(1, 4)), quick=120)
def energy_preserving(c, t):
    """EPAD keeps the energy of every signal, if enough loudspeakers."""
    h, N, Y, F, F0 = prepare(c, t)
    L, K = Y.shape
    x = dec.epad(F, h, N_sph=N)
    t.require(x.shape == (L, c['S']), f'shape {x.shape}')
    t.close(dec.epad(3 * F, h, N_sph=N), 3 * x, 'linear', atol=1e-8)
    sc = 4 * np.pi / (N + 1) ** 2
    if L >= K:
        t.label('energy preserving')
        t.close(x.T @ x, sc * F0.T @ F0, 'energy and correlation', atol=1e-6)
        azi, zen = gen.split(c['dirs'])
        g = dec.epad(ref.sh_real(N, azi, zen).T, h, N_sph=N)
        t.close(np.sum(g ** 2, 0), np.ones(len(azi)),
                'energy of plane waves', atol=1e-6)
    else:
        t.label('too few')
        w = np.linalg.eigvalsh(x.T @ x)
        t.require(np.sum(x ** 2) <= sc * np.sum(F0 ** 2) * (1 + 1e-9),
                  'energy grows')
        t.require(w[0] > -1e-9, 'energy')
    s = np.linalg.svd(Y, compute_uv=False)
    if s[-1] > 1e-2 * s[0]:
        # closest semi-unitary matrix: polar factor of the SH matrix
        u, _, vh = np.linalg.svd(Y, full_matrices=False)
        t.close(x, np.sqrt(sc) * u @ vh @ F0, 'polar factor', atol=1e-5)


@R.sub(dict(deg=st.integers(0, 3), N=gen.order(4, 7), scale=st.sampled_from(
    [1., 2.]), dirs=gen.dirs(1, 5), default=st.booleans()), quick=80)
def designs(c, t):
    """On t-designs of degree 2N (+) all three have unit energy everywhere
    and the documented amplitude."""
    N = c['N']
    v = spa.grids.load_t_design(max(2 * N + c['deg'], 3)) * c['scale']
    h = dec.LoudspeakerSetup(*v.T)
    azi, zen = gen.split(c['dirs'])
    F = ref.sh_real(N, azi, zen).T
    t.nt(N >= 1)
    kw = dict(N_sph=N)
    if c['default'] and N >= 1:
        h.ambisonics_setup(characteristic_order=N, N_kernel=1)
        kw = {}
    for f in (dec.sad, dec.mad, dec.epad):
        g = f(F, h, **kw)
        t.close(np.sum(g ** 2, 0), np.ones(len(azi)), f.__name__ + ' energy',
                atol=1e-3)
        if c['deg'] >= 1:
            # rE / rV point at the source
            r = v.T @ g
            n = np.linalg.norm(r, axis=0)
            if N >= 1:
                t.close(r / n, ref.cart(azi, zen).T,
                        f.__name__ + ' velocity vector', atol=1e-3)


@R.sub(dict(s=setups.specs(kinds=('random', 'design', 'rings'),
                           offset=False), more=st.integers(-1, 2),
            seed=gen.seeds, given=st.integers(0, 3)), quick=60)
def default_order(c, t):
    """The order defaults to the characteristic order; signals of lower
    order are refused, higher ones truncated."""
    h = setups.build(dict(c['s'], a=1))
    if not setups.well_posed(h.points, h.simplices):
        t.skip('degenerate')
    N = c['given'] or h.get_characteristic_order()
    if c['given']:
        h.characteristic_order = N
    M = N + c['more']
    F = gen.rng(c['seed']).standard_normal(((M + 1) ** 2, 2))
    t.nt(True)
    for f in (dec.sad, dec.mad, dec.epad):
        if M < N:
            t.raises(AssertionError, lambda: f(F, h), 'order too low')
            t.raises(AssertionError, lambda: f(F, h, N_sph=N), 'too low')
        else:
            t.close(f(F, h), f(F[:(N + 1) ** 2], h, N_sph=N), f.__name__)


@R.sub(dict(s=setups.specs(), N=gen.order(3, 5), n=gen.bulk, seed=gen.seeds,
            more=st.integers(0, 2)), quick=60)
def forms(c, t):
    """Any number of samples, each decoded on its own, at any level, in any
    layout and number type."""
    h, N, n = setups.build(c['s']), c['N'], c['n']
    r = gen.rng(c['seed'])
    t.nt(N >= 1 and n > 1)
    F = r.standard_normal(((N + 1 + c['more']) ** 2, n))
    for f in (dec.sad, dec.mad, dec.epad):
        nm = f.__name__
        x = f(F[:, :5], h, N_sph=N)
        s = np.max(np.abs(x))
        t.rows(lambda i: f(F[:, i], h, N_sph=N), n, nm, c['seed'], axis=1,
               atol=1e-9 * s)
        t.forms(lambda x: f(x, h, N_sph=N), F[:, :5], nm)
        t.linear(lambda x: f(x, h, N_sph=N), F[:, :5], nm)


@R.sub(dict(setups.changes(), N=gen.order(3, 5), seed=gen.seeds), quick=60)
def moved_layouts(c, t):
    """The decoders do not know the order of the loudspeakers, their
    distance, or the orientation of the coordinate system."""
    h, h2, i, q, k = setups.change(c)
    N = c['N']
    t.nt(N >= 1)
    t.label(c['how'])
    r = gen.rng(c['seed'])
    v = gen.rand_vecs(r, 3 * (N + 1) ** 2)
    w = r.standard_normal((len(v), 2))
    a, z, _ = ref.sph(v)
    a2, z2, _ = ref.sph(v @ q.T)
    F, F2 = ref.sh_real(N, a, z).T @ w, ref.sh_real(N, a2, z2).T @ w
    pa, pz, _ = ref.sph(h.points)
    s = np.linalg.svd(ref.sh_real(N, pa, pz), compute_uv=False)
    if s[-1] < 1e-2 * s[0]:
        t.skip('layout badly conditioned')
    L, K = h.npoints, (N + 1) ** 2
    for f in (dec.sad, dec.mad, dec.epad):
        x = f(F, h, N_sph=N)
        t.close(f(F2, h2, N_sph=N), x[i], f.__name__,
                atol=1e-5 * np.max(np.abs(x)))
