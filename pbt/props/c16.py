"""C16 AllRAP / AllRAD."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

dec = spa.decoder
R = core.Registry('C16', 'layouts with radius variation, optional imaginary '
                  'loudspeakers, kernels of order 1..13, orders 1..12; '
                  'non-trivial: order >= 1 and a source panned between '
                  'loudspeakers')
base = dict(s=setups.specs(kinds=('random', 'rings', 'dome', 'design')),
            imag=st.sampled_from(['no', 'no', 'one', 'two', 'auto']),
            N=st.one_of(st.integers(1, 5), st.integers(1, 5),
                      st.integers(6, 12)),
            Nk=st.one_of(st.integers(1, 6), st.integers(1, 6),
                         st.integers(7, 13)),
            dirs=gen.dirs(1, 5),
            # characteristic order of the layout, other than the decoder's
            char=st.sampled_from([None, None, 1, 2, 4, 7]))


def prepare(c, t):
    s = c['s']
    h = setups.build(s)
    L = h.npoints
    if s['kind'] == 'dome':
        h.pop_triangles(normal_limit=85, aperture_limit=110)
    r = gen.rng(s['seed'] + 9)
    im = None
    if c['imag'] in ('one', 'two'):
        im = gen.rand_vecs(r, 1 if c['imag'] == 'one' else 2) * 1.4 * \
            s['scale']
        im[0] = np.array([.05, .1, -1.1]) * s['scale']
        if s['seed'] % 2 and c['imag'] == 'one':
            im = im[0]
    elif c['imag'] == 'auto' and s['kind'] != 'dome':
        h.pop_triangles(normal_limit=None, blacklist=[int(h.vertices[0])])
    try:
        h.ambisonics_setup(update_hull=c['imag'] != 'no', imaginary_ls=im,
                           characteristic_order=c['char'] or c['N'],
                           N_kernel=c['Nk'])
    except RuntimeError:
        t.skip('no rim')
    ah = h.ambisonics_hull
    n_im = ah.npoints - L
    t.require(n_im == {'no': 0, 'one': 1, 'auto': 1, 'two': 2}[c['imag']],
              f'{n_im} loudspeakers added')
    t.close(ah.points[:L], h.points, 'real loudspeakers first')
    if im is not None:
        t.close(ah.points[L:], np.atleast_2d(im), 'imaginary positions')
    if not setups.well_posed(ah.points, ah.valid_simplices) or \
            setups.depth(ah, ah.valid_simplices) < 1e-3:
        t.skip('degenerate ambisonic hull')
    t.close(h.kernel_hull.points, spa.grids.load_n_design(2 * c['Nk']),
            'kernel')
    t.label(s['kind'] + '/' + c['imag'])
    t.label(f"order {c['N']}")
    return h, L


def kernel_gains(h, L):
    ah = h.ambisonics_hull
    k = h.kernel_hull.points
    G, margin = setups.pan(ah.points, ah.valid_simplices, k)
    return k, (G * ah.d ** h.a)[:, :L], np.all(np.abs(margin) > 2e-5)


def max_re(N):
    x = np.cos(np.deg2rad(137.9 / (N + 1.51)))
    a = np.array([ref.legendre(n, x) for n in range(N + 1)])
    n = np.arange(N + 1)
    return a / np.sum((2 * n + 1) / (4 * np.pi) * a)


def sh_of(v, N):
    a, z, _ = ref.sph(v)
    return ref.sh_real(N, a, z)


def allrap_model(h, L, src, N, two=False):
    k, G, sure = kernel_gains(h, L)
    n = np.arange(N + 1)
    a = max_re(N)
    if two:
        a = a / np.sqrt(np.sum((2 * n + 1) / (4 * np.pi) * a ** 2))
    B = (sh_of(src, N) * a[ref.orders(N)]) @ sh_of(k, N).T
    J = len(k)
    if two:
        return np.sqrt(4 * np.pi / J * B ** 2 @ G ** 2), sure
    return 4 * np.pi / J * B @ G, sure


@R.sub(dict(base, far=st.sampled_from([1., 3., .2, 1e4, 1e-4]),
            default=st.booleans()), quick=150)
def panning(c, t):
    """AllRAP and AllRAP2 equal the kernel model for sources at any
    distance."""
    h, L = prepare(c, t)
    N = c['N']
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen) * c['far']
    m1, sure = allrap_model(h, L, src, N)
    m2, _ = allrap_model(h, L, src, N, True)
    tol = 1e-4 if sure else 3e-4
    kw = {} if c['default'] and not c['char'] else dict(N_sph=N)
    g1, g2 = dec.allrap(src, h, **kw), dec.allrap2(src, h, **kw)
    t.nt(np.any(np.abs(m1) > 1e-3))
    t.close(g1, m1, 'allrap', atol=tol * np.max(h.d ** h.a))
    t.close(g2, m2, 'allrap2', atol=20 * tol * np.max(h.d ** h.a))
    t.require(np.all(g2 >= 0), 'negative AllRAP2 gain')
    t.close(dec.allrap(src[0], h, **kw), g1[:1], 'single', atol=1e-12)
    t.close(dec.allrap2(src[-1], h, **kw), g2[-1:], 'single', atol=1e-12)


@R.sub(dict(base, S=st.integers(1, 4), seed=gen.seeds,
            default=st.booleans()), quick=100, weight=2.)
def decoding(c, t):
    """AllRAD decodes a plane wave like AllRAP pans it, and is linear;
    AllRAD2 does so for the AllRAP2 kernel."""
    h, L = prepare(c, t)
    N = c['N']
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    F = ref.sh_real(N, azi, zen).T
    kw = {} if c['default'] and not c['char'] else dict(N_sph=N)
    t.nt(True)
    keep = F.copy()
    sig = dec.allrad(F, h, **kw)
    t.close(F, keep, 'input changed', rtol=0, atol=0)
    dmax = max(1., np.max(h.d ** h.a))
    t.close(sig, dec.allrap(src, h, **kw).T, 'plane waves',
            atol=1e-6 * dmax)
    m1, sure = allrap_model(h, L, src, N)
    t.close(sig, m1.T, 'model', atol=3e-4 * np.max(h.d ** h.a))
    r = gen.rng(c['seed'])
    A = r.standard_normal((F.shape[0], c['S']))
    B = r.standard_normal((F.shape[0], c['S']))
    for f in (dec.allrad, dec.allrad2):
        a, b = f(A, h, **kw), f(B, h, **kw)
        t.require(a.shape == (L, c['S']), f'shape {a.shape}')
        t.close(f(2 * A - B, h, **kw), 2 * a - b, 'linear',
                atol=1e-9 * dmax)
    k = h.kernel_hull.points
    G2 = dec.allrap2(k, h, **kw)
    D2 = 4 * np.pi / len(k) * G2.T @ sh_of(k, N)
    t.close(dec.allrad2(F, h, **kw), D2 @ F, 'allrad2', atol=1e-6 * dmax)
    m2, _ = allrap_model(h, L, k, N, True)
    t.close(dec.allrad2(F, h, **kw),
            4 * np.pi / len(k) * m2.T @ sh_of(k, N) @ F, 'allrad2 model',
            atol=1e-2 * np.max(h.d ** h.a))


@R.sub(dict(s=setups.specs(kinds=('random', 'rings', 'design'),
                           radii=(0.,), scales=(1.,), offset=False),
            N=st.one_of(st.integers(1, 4), st.integers(1, 11)),
            extra=st.integers(0, 2),
            dirs=gen.dirs(1, 5)), quick=80)
def constant_energy(c, t):
    """AllRAP2 on a closed unit-radius layout has unit energy everywhere."""
    N = c['N']
    h = setups.build(c['s'])
    if len(h.valid_simplices) != len(h.simplices) or \
            not setups.well_posed(h.points, h.simplices):
        t.skip('not closed')
    h.ambisonics_setup(characteristic_order=N, N_kernel=N + c['extra'])
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    t.nt(True)
    g = dec.allrap2(src, h)
    t.close(np.sum(g ** 2, axis=1), np.ones(len(src)), 'energy', atol=1e-4)


@R.sub(dict(s=setups.specs(kinds=('random', 'rings', 'design'),
                           offset=False), Nk=st.one_of(st.none(),
                                                       st.integers(1, 5)),
            order=st.one_of(st.none(), st.integers(1, 3)),
            dirs=gen.dirs(1, 2)), quick=50)
def defaults(c, t):
    """Kernel and order default to the characteristic order."""
    h = setups.build(dict(c['s'], a=1))
    if len(h.valid_simplices) != len(h.simplices) or \
            not setups.well_posed(h.points, h.simplices):
        t.skip('not closed')
    N = c['order'] or h.get_characteristic_order()
    if N > 6:
        t.skip('large kernel')
    h.ambisonics_setup(characteristic_order=c['order'], N_kernel=c['Nk'])
    t.nt(c['order'] is None or c['Nk'] is None)
    t.require(h.characteristic_order == N, 'characteristic order')
    t.require(h.get_characteristic_order() == N, 'characteristic order')
    t.close(h.kernel_hull.points,
            spa.grids.load_n_design(2 * (c['Nk'] or N)), 'kernel')
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    t.close(dec.allrap(src, h), dec.allrap(src, h, N_sph=N), 'allrap')
    t.close(dec.allrap2(src, h), dec.allrap2(src, h, N_sph=N), 'allrap2')
    F = ref.sh_real(N, azi, zen).T
    t.close(dec.allrad(F, h), dec.allrad(F, h, N_sph=N), 'allrad')
    t.close(dec.allrad2(F, h), dec.allrad2(F, h, N_sph=N), 'allrad2')


@R.sub(dict(s=setups.specs(kinds=('random',), offset=False),
            N=st.integers(1, 3), dirs=gen.dirs(1, 2)), quick=20)
def refused(c, t):
    """Needs ambisonics_setup; orders of signal and decoder have to match."""
    h = setups.build(c['s'])
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    N = c['N']
    F = ref.sh_real(N, azi, zen).T
    t.nt(True)
    for f, x in ((dec.allrap, src), (dec.allrap2, src), (dec.allrad, F),
                 (dec.allrad2, F)):
        t.raises(ValueError, lambda: f(x, h, N_sph=N), 'without setup')
    h.ambisonics_setup(characteristic_order=N, N_kernel=2)
    for f in (dec.allrad, dec.allrad2):
        t.raises(AssertionError, lambda: f(F, h, N_sph=N + 1), 'order')


@R.sub(dict(base, n=gen.block, seed=gen.seeds), quick=24, weight=2.)
def forms(c, t):
    """Any number of sources and samples, each rendered on its own, at any
    level, in any layout and number type; the default order is that of the
    layout."""
    c = dict(c, N=min(c['N'], 6), Nk=min(c['Nk'], 6))
    h, L = prepare(c, t)
    N, n = c['N'], c['n']
    r = gen.rng(c['seed'])
    t.nt(n > 1)
    src = gen.rand_vecs(r, n)
    F = r.standard_normal(((N + 1) ** 2, n))
    for f in (dec.allrap, dec.allrap2):
        nm = f.__name__
        t.rows(lambda i: f(src[i], h, N_sph=N), n, nm, c['seed'])
        t.forms(lambda x: f(x, h, N_sph=N), src[:5], nm, ints=False)
        x = np.rint(30 * src[:5])
        t.same(f(x.astype(int), h, N_sph=N), f(x, h, N_sph=N),
               f'{nm} of integers')
        t.close(f(src[:5].tolist(), h, N_sph=N), f(src[:5], h, N_sph=N),
                f'{nm} of a list')
        t.close(f(src[:5], h), f(src[:5], h, N_sph=c['char'] or N),
                f'{nm}, default order')
    for f in (dec.allrad, dec.allrad2):
        nm = f.__name__
        t.rows(lambda i: f(F[:, i], h, N_sph=N), n, nm, c['seed'], axis=1)
        t.forms(lambda x: f(x, h, N_sph=N), F[:, :5], nm)
        t.linear(lambda x: f(x, h, N_sph=N), F[:, :5], nm)


@R.sub(dict(s=setups.specs(kinds=('random',), offset=False), N=st.integers(
    1, 5), Nk=st.integers(1, 6), dirs=gen.dirs(1, 5),
    by=st.sampled_from([1., .2, 5.])), quick=40)
def moved_layouts(c, t):
    """Gains follow their loudspeakers to another place in the layout, and
    scale with the distance compensation."""
    h, h2, i, q, k = setups.moved(dict(c['s'], turn=False, by=c['by']))
    for x in (h, h2):
        x.ambisonics_setup(characteristic_order=c['N'], N_kernel=c['Nk'])
    if not setups.well_posed(h.points, h.simplices) or setups.depth(h) < \
            1e-3 or not kernel_gains(h, h.npoints)[2]:
        t.skip('degenerate')
    t.nt()
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    F = ref.sh_real(c['N'], azi, zen).T
    tol = 1e-6 * np.max(h2.d ** h.a)
    for f in (dec.allrap, dec.allrap2):
        t.close(f(src, h2), k ** h.a * f(src, h)[:, i], f.__name__, atol=tol)
    for f in (dec.allrad, dec.allrad2):
        t.close(f(F, h2), k ** h.a * f(F, h)[i], f.__name__, atol=tol)
