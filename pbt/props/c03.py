"""C03 sampling grids and quadrature weights."""
import os
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C03', 'every shipped grid family at drawn degrees (all '
                  'degrees in the thorough tier); non-trivial: degree >= 2')
g = spa.grids


def moments(v, w, deg, t, what, atol):
    """All SHs of degree 1..deg integrate to zero, the constant to 4 pi."""
    a, z, _ = ref.sph(v)
    I = w @ ref.sh_real(deg, a, z)
    I[0] -= np.sqrt(4 * np.pi)
    k = int(np.argmax(np.abs(I)))
    t.require(abs(I[k]) < atol,
              f'{what}: SH channel {k} integrates with error {I[k]:.3g}')


def points(v, w, t, what):
    t.require(np.ndim(v) == 2 and np.shape(v)[1] == 3, f'{what}: shape')
    t.close(np.linalg.norm(v, axis=1), np.ones(len(v)),
            f'{what}: not on the unit sphere', atol=1e-8)
    if w is not None:
        t.require(np.shape(w) == (len(v),), f'{what}: weights shape')
        t.close(np.sum(w), 4 * np.pi, f'{what}: sum of weights', rtol=1e-7)
    d = v[:, None, :] - v[None, :200, :]
    d = np.linalg.norm(d, axis=-1)
    d[np.arange(min(200, len(v))), np.arange(min(200, len(v)))] = 9
    t.require(d.min() > 1e-6, f'{what}: repeated point')


SIZES = {1: 2, 2: 4, 3: 6, 4: 12, 5: 12, 6: 24, 7: 24, 8: 36, 9: 48, 10: 60,
         11: 70, 12: 84, 13: 94, 14: 108, 15: 120, 16: 144, 17: 156, 18: 180,
         19: 204, 20: 216, 21: 240}


@R.sub(dict(degree=st.integers(1, 21)), quick=40, thorough=100,
       examples=[dict(degree=k) for k in range(1, 22)])
def t_design(c, t):
    k = c['degree']
    t.nt(k > 1)
    v = g.load_t_design(k)
    points(v, None, t, f't-design {k}')
    t.require(len(v) == SIZES[k], f't-design {k} has {len(v)} points')
    moments(v, np.full(len(v), 4 * np.pi / len(v)), k, t, f't-design {k}',
            1e-4)


@R.sub(dict(degree=st.one_of(st.integers(1, 40), st.integers(1, 124))),
       quick=25, thorough=300,
       examples=[dict(degree=k) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14,
                                          30, 31, 123, 124)])
def n_design(c, t):
    k = c['degree']
    t.nt(k > 1)
    v = g.load_n_design(k)
    points(v, None, t, f'n-design {k}')
    moments(v, np.full(len(v), 4 * np.pi / len(v)), min(k, 60), t,
            f'n-design {k}', 1e-7)


@R.sub(dict(degree=st.one_of(st.integers(3, 40), st.integers(3, 131))),
       quick=25, thorough=300,
       examples=[dict(degree=k) for k in (3, 4, 5, 6, 7, 13, 14, 25, 26, 27,
                                          31, 32, 33, 60, 130, 131)])
def lebedev(c, t):
    k = c['degree']
    t.nt(k > 1)
    v, w = g.load_lebedev(k)
    points(v, w, t, f'Lebedev {k}')
    moments(v, w, min(k, 60), t, f'Lebedev {k}', 1e-8)


@R.sub(dict(order=st.integers(2, 30)), quick=20, thorough=60,
       examples=[dict(order=k) for k in range(2, 31)])
def fliege_maier(c, t):
    k = c['order']
    t.nt(k > 2)
    v, w = g.load_Fliege_Maier_nodes(k)
    points(v, w, t, f'Fliege-Maier {k}')
    t.require(len(v) == k * k, f'Fliege-Maier {k} has {len(v)} points')
    moments(v, w, k - 1, t, f'Fliege-Maier {k}', 1e-6)


@R.sub(dict(n=st.integers(0, 25), which=st.sampled_from(['gauss', 'equal'])),
       quick=50, thorough=300,
       examples=[dict(n=k, which=x) for k in range(12)
                 for x in ('gauss', 'equal')])
def product_grids(c, t):
    n = c['n']
    t.nt(n > 0)
    a, z, w = (g.gauss if c['which'] == 'gauss' else g.equal_angle)(n)
    rows = (n + 1) if c['which'] == 'gauss' else 2 * n + 2
    t.require(np.shape(a) == np.shape(z) == np.shape(w) ==
              (rows * (2 * n + 2),), f'{c["which"]} {n}: shapes')
    points(ref.cart(a, z), w, t, f'{c["which"]} {n}')
    t.require(np.all(np.asarray(w) > 0), 'weights not positive')
    t.require(np.all((z >= 0) & (z <= np.pi)), 'colatitude range')
    moments(ref.cart(a, z), w, 2 * n, t, f'{c["which"]} {n}', 1e-9)
    # 2-D samples: sampled separable
    t.close(np.unique(np.round(np.cos(z), 9)).size, rows, 'zenith rings')


@R.sub(dict(n=st.integers(0, 60)), quick=30, thorough=100)
def circle(c, t):
    n = c['n']
    t.nt(n > 0)
    pol, w = g.equal_polar_angle(n)
    t.require(np.shape(pol) == np.shape(w) == (2 * n + 1,), 'shape')
    t.require(np.all((pol >= 0) & (pol < 2 * np.pi)), 'range')
    for m in range(1, 2 * n + 1):
        t.close(np.sum(w * np.exp(1j * m * pol)), 0, f'circular moment {m}',
                atol=1e-9)
    t.close(np.sum(w), 1., 'weights sum to one')
    t.close(np.diff(np.sort(pol)), np.full(2 * n, 2 * np.pi / (2 * n + 1)),
            'equi-angular')


@R.sub(dict(fam=st.sampled_from(['t', 'n', 'lebedev', 'fm']),
            off=st.integers(1, 1000), low=st.booleans()), quick=60,
       thorough=100,
       examples=[dict(fam=f, off=1, low=lo)
                 for f in ('t', 'n', 'lebedev', 'fm') for lo in (0, 1)])
def range_rejected(c, t):
    fn, lo, hi = dict(t=(g.load_t_design, 1, 21),
                      n=(g.load_n_design, 1, 124),
                      lebedev=(g.load_lebedev, 3, 131),
                      fm=(g.load_Fliege_Maier_nodes, 2, 30))[c['fam']]
    k = lo - c['off'] if c['low'] else hi + c['off']
    t.nt()
    t.raises(ValueError, lambda: fn(k), f'{c["fam"]} degree {k}')


@R.sub(dict(N=st.integers(1, 14), grid=st.sampled_from(
    ['t', 'gauss', 'equal', 'lebedev', 'fm', 'random', 'bent']),
    seed=gen.seeds, give=st.booleans()), quick=60, thorough=500)
def weights_from_points(c, t):
    """Computed quadrature weights integrate every SH up to the supported
    order exactly."""
    N = c['N']
    t.nt(N > 1)
    order = N if c['give'] else None
    if c['grid'] == 't':
        v = g.load_n_design(2 * N)
        a, z, _ = ref.sph(v)
    elif c['grid'] == 'gauss':
        a, z, _ = g.gauss(N)
    elif c['grid'] == 'equal':
        a, z, _ = g.equal_angle(N)
    elif c['grid'] == 'lebedev':
        v, _ = g.load_lebedev(2 * N + 1)
        a, z, _ = ref.sph(v)
    elif c['grid'] == 'fm':
        v, _ = g.load_Fliege_Maier_nodes(N + 2)
        a, z, _ = ref.sph(v)
    elif c['grid'] == 'bent':
        # neighbourhood of a design: equal weights do not do any more
        v = g.load_n_design(2 * N)
        v = v + .06 / N * gen.rng(c['seed']).standard_normal(v.shape)
        a, z, _ = ref.sph(v)
    else:
        a, z = gen.rand_dirs(gen.rng(c['seed']), 4 * (N + 1) ** 2)
        order = N
    t.label(c['grid'])
    w = g.calculate_grid_weights(a, z, order)
    t.require(np.shape(w) == (len(a),), 'shape')
    full = order or c['grid'] in ('t', 'bent', 'lebedev', 'fm')
    moments(ref.cart(a, z), w, N if full else 1, t, 'computed weights',
            1e-6)
    if c['grid'] == 't' and order is None:
        t.close(w, np.full(len(a), 4 * np.pi / len(a)), 'weights of a design',
                rtol=1e-3)


@R.sub(dict(degree=st.integers(1, 200)), quick=5)
def max_det(c, t):
    """Only where the (large) data file is part of the tree."""
    p = os.path.join(os.path.dirname(spa.__file__),
                     '../data/Grids/maxDetPoints_1_200.mat')
    if not os.path.exists(p):
        t.skip('data file not shipped')
    v, w = g.load_maxDet(c['degree'])
    points(v, w, t, 'maxDet')


@R.sub(dict(N=st.integers(1, 8), seed=gen.seeds, give=st.booleans(),
            rot=gen.floats(-3, 3)), quick=30, thorough=300)
def weights_follow_points(c, t):
    """Weights belong to points: any order of the points, any container and
    layout of the angles, any azimuth of the grid."""
    N = c['N']
    t.nt(N > 1)
    r = gen.rng(c['seed'])
    v = g.load_n_design(2 * N + 1)
    v = v + .05 / N * r.standard_normal(v.shape)
    a, z, _ = ref.sph(v)
    o = N if c['give'] else None
    w = g.calculate_grid_weights(a, z, o)
    p = r.permutation(len(a))
    t.close(g.calculate_grid_weights(a[p], z[p], o), w[p], 'other order',
            atol=1e-6)
    t.close(g.calculate_grid_weights(a + c['rot'], z, o), w, 'turned grid',
            atol=1e-5)
    t.close(g.calculate_grid_weights(list(a), tuple(z), o), w, 'lists')
    t.close(g.calculate_grid_weights(a[:, None], z[:, None], o), w,
            'column vectors')
    t.forms(lambda x: g.calculate_grid_weights(x, z, o), a, 'azimuth',
            ints=False)
    t.forms(lambda x: g.calculate_grid_weights(a, x, o), z, 'zenith',
            ints=False)
