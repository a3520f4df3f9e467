"""C12 coordinates, rotations, angles."""
import numpy as np
from scipy.spatial.transform import Rotation
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

u = spa.utils
R = core.Registry('C12', 'vectors and angles from special (axes, poles, '
                  'wrap, equal, opposite) and arbitrary values, scalars and '
                  'arrays; non-trivial: not all inputs are zero')
coord = st.one_of(st.sampled_from([0., 1., -1., 1e-8, -0., 1e3, 1e-3]),
                  gen.floats(-10, 10))
vec = st.lists(coord, min_size=3, max_size=3)
vecs = st.lists(vec, min_size=1, max_size=6)
ang = st.one_of(st.sampled_from([0., np.pi / 2, -np.pi / 2, np.pi, -np.pi,
                                 2 * np.pi, 1e-5, -1e-5, 1e-7, 3., -2.]),
                gen.floats(-4 * np.pi, 4 * np.pi))
shapes = st.sampled_from(['flat', 'scalar', 'grid'])


def mk(v, shape):
    v = np.array(v, float).reshape(-1, 3)
    v[np.linalg.norm(v, axis=1) < 1e-3] = [0., 0., 1.]
    if shape == 'scalar':
        return v[0]
    if shape == 'grid':
        return np.stack([v, -v])
    return v


@R.sub(dict(v=vecs, shape=shapes, pos=st.booleans(), steady=st.booleans(),
            kind=st.booleans()), quick=200)
def cartesian_to_sphere(c, t):
    """The angles and radius describe the same point; ranges."""
    v = mk(c['v'], c['shape'])
    t.nt(np.any(v[..., :2]))
    x, y, z = v[..., 0], v[..., 1], v[..., 2]
    if c['kind'] and c['shape'] == 'flat':
        x, y, z = x.tolist(), y.tolist(), z.tolist()
    azi, zen, r = u.cart2sph(x, y, z, positive_azi=c['pos'],
                             steady_zen=c['steady'])
    a0, z0, r0 = ref.sph(v)
    t.close(r, r0, 'radius')
    t.close(zen, z0, 'zenith', atol=5e-8)
    flat = np.hypot(v[..., 0], v[..., 1]) > 0
    d = (np.asarray(azi) - a0 + np.pi) % (2 * np.pi) - np.pi
    t.close(np.where(flat, d, 0.), np.zeros(d.shape), 'azimuth', atol=1e-9)
    lo, hi = (0., 2 * np.pi) if c['pos'] else (-np.pi, np.pi)
    t.require(np.all(azi >= lo) and np.all(azi <= hi), 'azimuth range')
    t.close(np.stack(u.sph2cart(azi, zen, r), -1), v, 'round trip',
            atol=2e-7 * max(1., np.max(r0)))
    ca, cz = u.cart2dir(v[..., 0], v[..., 1], v[..., 2])
    t.close(ca, a0, 'cart2dir azimuth')
    t.close(cz, z0, 'cart2dir zenith', atol=5e-8)
    d2 = u.vec2dir(v)
    t.close(d2, np.stack([ca, cz], -1), 'vec2dir', atol=1e-12)
    t.close(np.stack(u.dir2cart(ca, cz), -1), v / r0[..., None], 'dir2cart',
            atol=2e-7)


@R.sub(dict(d=gen.dirs(1, 6), r=st.lists(gen.floats(.01, 20), min_size=6,
                                         max_size=6), shape=shapes,
            one=st.booleans()), quick=150)
def sphere_to_cartesian(c, t):
    """Definition, zenith and elevation conventions, and back."""
    azi, zen = gen.split(c['d'])
    r = np.array(c['r'][:len(azi)])
    if c['shape'] == 'scalar':
        azi, zen, r = azi[0], zen[0], r[0]
    if c['shape'] == 'grid':
        azi, zen, r = [np.stack([x, x]) for x in (azi, zen, r)]
    t.nt(np.any(azi))
    rr = 1. if c['one'] else r
    v = ref.cart(azi, zen) * np.asarray(rr)[..., None] if not c['one'] \
        else ref.cart(azi, zen)
    got = u.sph2cart(azi, zen) if c['one'] else u.sph2cart(azi, zen, r)
    t.close(np.stack(got, -1), v, 'sph2cart')
    got = u.matlab_sph2cart(azi, np.pi / 2 - zen) if c['one'] else \
        u.matlab_sph2cart(azi, np.pi / 2 - zen, r)
    t.close(np.stack(got, -1), v, 'matlab_sph2cart')
    t.close(np.stack(u.dir2cart(azi, zen), -1), ref.cart(azi, zen),
            'dir2cart')
    a2, z2, r2 = u.cart2sph(v[..., 0], v[..., 1], v[..., 2])
    t.close(z2, zen, 'zenith restored', atol=2e-7)
    t.close(r2, np.ones_like(z2) * rr, 'radius restored')
    t.close(np.stack(u.sph2cart(a2, z2, r2), -1), v, 'point restored',
            atol=2e-7 * np.max(rr))


@R.sub(dict(v=vec, w=vecs, vi=vec, use_vi=st.booleans(), rel=st.sampled_from(
    ['free', 'same', 'opposite', 'near', 'far']), eps=st.sampled_from(
        [1e-3, 1e-6, 1e-9])), quick=200)
def angles(c, t):
    """angle_between of one vector and many, seen from any point."""
    vi = np.array(c['vi']) if c['use_vi'] else np.zeros(3)
    v = mk([c['v']], 'scalar')
    w = mk(c['w'], 'flat')
    if c['rel'] == 'same':
        w = 2. * v[None, :]
    elif c['rel'] == 'opposite':
        w = -3. * v[None, :]
    elif c['rel'] in ('near', 'far'):
        o = np.cross(v, [.3, .5, .8])
        w = np.atleast_2d((v + c['eps'] * o) * (
            1 if c['rel'] == 'near' else -1))
    t.label(c['rel'])
    t.nt(True)
    e = ref.angle(np.broadcast_to(v, w.shape), w)
    kw = dict(vi=vi) if c['use_vi'] else {}
    tol = 1e-7 + 4e-8 * np.sqrt(1 + np.max(np.abs(vi))
                                / min(np.linalg.norm(v),
                                      np.min(np.linalg.norm(w, axis=1))))
    got = u.angle_between(v + vi, w + vi, **kw)
    t.close(got, e, 'many', atol=tol, rtol=1e-7)
    t.close(u.angle_between(v + vi, w[0] + vi, **kw), e[0], 'one', atol=tol,
            rtol=1e-7)
    t.close(u.angle_between((w[0] + vi).tolist(), (v + vi).tolist(), **kw),
            e[0], 'swapped lists', atol=tol, rtol=1e-7)


@R.sub(dict(d1=gen.dirs(1, 5), d2=gen.dirs(1, 5), r=st.sampled_from(
    [None, 1., 2.5, 6371.]), rel=st.sampled_from(
        ['free', 'free', 'same', 'antipodal', 'near']), turns=st.integers(
            -2, 2), single=st.booleans()), quick=200)
def great_circle(c, t):
    """haversine is the great circle distance, symmetric and periodic."""
    a1, z1 = gen.split(c['d1'])
    a2, z2 = gen.split(c['d2'])
    n = min(len(a1), len(a2))
    a1, z1, a2, z2 = a1[:n], z1[:n], a2[:n], z2[:n]
    if c['rel'] == 'same':
        a2, z2 = a1.copy(), z1.copy()
    if c['rel'] == 'antipodal':
        a2, z2 = a1 + np.pi, np.pi - z1
    if c['rel'] == 'near':
        a2, z2 = a1 + 1e-6, np.clip(z1 + 1e-6, 0, np.pi)
    t.label(c['rel'])
    t.nt(np.any(a1) or np.any(a2))
    r = c['r'] or 1.
    kw = {} if c['r'] is None else dict(r=r)
    e = r * ref.angle(ref.cart(a1, z1), ref.cart(a2, z2))
    tol = 1e-7 * r
    if c['single']:
        t.close(u.haversine(a1[0], z1[0], a2[0], z2[0], **kw), e[0],
                'single', atol=tol)
    t.close(u.haversine(a1, z1, a2, z2, **kw), e, 'distance', atol=tol)
    t.close(u.haversine(list(a2), list(z2), list(a1), list(z1), **kw), e,
            'symmetric', atol=tol)
    t.close(u.haversine(list(a1), z1, a2, z2, **kw), e, 'azi1 as list',
            atol=tol)
    t.close(u.haversine(a1, list(z1), a2, list(z2), **kw), e,
            'zeniths as lists', atol=tol)
    t.close(u.haversine(a1 + 2 * np.pi * c['turns'], z1, a2, z2, **kw), e,
            'periodic', atol=tol)
    t.close(u.haversine(a1[0], z1[0], a2, z2, **kw),
            r * ref.angle(ref.cart(a1[0], z1[0])[None], ref.cart(a2, z2)),
            'one to many', atol=tol)


@R.sub(dict(yaw=ang, pitch=ang, roll=ang, v=vec), quick=150)
def euler_rotation(c, t):
    """Proper rotation, composed of the three axis rotations."""
    y, p, r = c['yaw'], c['pitch'], c['roll']
    M = u.rotation_euler(y, p, r)
    t.nt(y or p or r)
    t.close(M, ref.euler(y, p, r), 'matrix')
    t.close(M @ M.T, np.eye(3), 'orthogonal')
    t.close(np.linalg.det(M), 1., 'determinant')
    t.close(u.rotation_euler(yaw=y) @ u.rotation_euler(pitch=p) @
            u.rotation_euler(roll=r), M, 'composition')
    t.close(u.rotation_euler(yaw=-y) @ u.rotation_euler(yaw=y), np.eye(3),
            'inverse')


@R.sub(dict(k=vec, th=ang, v=vec), quick=150)
def axis_rotation(c, t):
    """Rotation about an axis of any length by any angle, right handed."""
    k = mk([c['k']], 'scalar')
    th = c['th']
    M = u.rotation_rodrigues(k, th)
    t.nt(th != 0)
    e = Rotation.from_rotvec(k / np.linalg.norm(k) * th).as_matrix()
    t.close(M, e, 'matrix', atol=2e-9)
    t.close(M @ k, k, 'axis fixed', atol=1e-9 * max(1, np.linalg.norm(k)))
    t.close(u.rotation_rodrigues(-k, -th), M, 'reversed axis and angle',
            atol=2e-9)
    t.close(u.rotation_rodrigues(k.tolist(), th), M, 'list', atol=2e-9)


@R.sub(dict(f=vec, g=vec, rel=st.sampled_from(['free', 'free', 'near',
                                               'far', 'perp']),
            eps=st.sampled_from([1e-3, 1e-5, 1e-8]), s=gen.floats(.1, 9)),
       quick=200)
def vector_to_vector(c, t):
    """Maps f to t by the smallest rotation; parallel vectors refused."""
    f = mk([c['f']], 'scalar')
    g = mk([c['g']], 'scalar')
    o = np.cross(f, [.31, .57, .76])
    o = o / (np.linalg.norm(o) or 1.) * np.linalg.norm(f)
    if c['rel'] == 'near':
        g = c['s'] * (f + c['eps'] * o)
    if c['rel'] == 'far':
        g = -c['s'] * (f + c['eps'] * o)
    if c['rel'] == 'perp':
        g = c['s'] * o
    t.label(c['rel'])
    if np.linalg.norm(g) < 1e-3:
        t.skip('no vector')
    fu, gu = f / np.linalg.norm(f), g / np.linalg.norm(g)
    sep = np.linalg.norm(np.cross(fu, gu))
    if sep < 1e-13:
        if sep == 0.:
            t.raises(ValueError, lambda: u.rotation_vecvec(f, g),
                     'no unique axis')
        return
    t.nt(True)
    M = u.rotation_vecvec(f, g)
    tol = 1e-7
    t.close(M @ fu, gu, 'maps f to t', atol=tol)
    t.close(M @ M.T, np.eye(3), 'orthogonal', atol=1e-8)
    t.close(np.linalg.det(M), 1., 'determinant', atol=1e-8)
    if sep > 1e-6:
        n = np.cross(fu, gu) / sep
        t.close(M @ n, n, 'axis is perpendicular to both', atol=1e-6)
    t.close(u.rotation_vecvec(f.tolist(), g.tolist()), M, 'lists',
            atol=1e-8)


@R.sub(dict(p=st.lists(vec, min_size=3, max_size=3), deg=st.lists(
    st.one_of(st.sampled_from([0., 360., -90., 720., 359.9]),
              gen.floats(-1000, 1000)), min_size=1, max_size=5)), quick=100)
def areas_and_degrees(c, t):
    """Triangle areas (Heron) and the degree/radian conversion."""
    p = np.array(c['p'])
    a, b, d = [np.linalg.norm(p[i] - p[j]) for i, j in
               ((0, 1), (1, 2), (2, 0))]
    e = .5 * np.linalg.norm(np.cross(p[1] - p[2], p[0] - p[2]))
    got = u.area_triangle(*p)
    t.nt(e > 0)
    sc = max(1., a * b)
    t.close(got, e, 'area', atol=1e-9 * sc)
    t.require(got <= .5 * min(a * b, b * d, a * d) * (1 + 1e-9) + 1e-12,
              'area exceeds half the product of two sides')
    t.close(u.area_triangle(p[2], p[0], p[1]), got, 'cyclic',
            atol=1e-9 * sc)
    t.close(u.area_triangle(*(2 * p + 1.)), 4 * got, 'scaled and moved',
            atol=1e-8 * sc)
    g = np.array(c['deg'])
    rad = u.deg2rad(g)
    t.require(np.all(rad >= 0) and np.all(rad <= 2 * np.pi), 'range')
    t.close(np.exp(1j * rad), np.exp(1j * np.pi * g / 180), 'deg2rad')
    t.close(np.exp(1j * np.pi * u.rad2deg(rad) / 180),
            np.exp(1j * rad), 'rad2deg')
    back = u.rad2deg(np.pi * g / 180)
    t.require(np.all(back >= 0) and np.all(back <= 360), 'range')
    t.close(u.rad2deg(u.deg2rad(90.)), 90., 'value')
    t.close(u.deg2rad(180.), np.pi, 'value')


@R.sub(dict(n=gen.bulk, seed=gen.seeds, lv=st.sampled_from(
    [1., 1e-9, 1e-4, 1e3, 1e9])), quick=60)
def forms(c, t):
    """Any number of points, each converted on its own, at any distance, in
    any layout and number type."""
    t.single = 1e-4  # parts work in single precision
    n, lv = c['n'], c['lv']
    r = gen.rng(c['seed'])
    v = r.standard_normal((n, 3)) * lv
    w = r.standard_normal((n, 3)) * lv
    a, z = gen.rand_dirs(r, n)
    b, y = gen.rand_dirs(r, n)
    t.nt(n > 1)
    rad = r.uniform(.1, 3, n) * lv
    for nm, f, k in [
            ('cart2sph', lambda i: u.cart2sph(*v[i].T), 1.),
            ('cart2sph, positive', lambda i: u.cart2sph(
                *v[i].T, positive_azi=True), 1.),
            ('cart2dir', lambda i: u.cart2dir(*v[i].T), 1.),
            ('vec2dir', lambda i: u.vec2dir(v[i]), 1.),
            ('sph2cart', lambda i: u.sph2cart(a[i], z[i], rad[i]), lv),
            ('matlab_sph2cart', lambda i: u.matlab_sph2cart(
                a[i], z[i] - np.pi / 2, rad[i]), lv),
            ('dir2cart', lambda i: u.dir2cart(a[i], z[i]), 1.),
            ('angle_between', lambda i: u.angle_between(v[0], w[i]), 1.),
            ('haversine', lambda i: u.haversine(a[i], z[i], b[i], y[i]), 1.),
            ('deg2rad', lambda i: u.deg2rad(1e3 * v[i, 0] / lv), 1.),
            ('rad2deg', lambda i: u.rad2deg(10 * v[i, 0] / lv), 1.)]:
        t.rows(f, n, nm, c['seed'], atol=1e-10 * k)
    A, Z, Q = u.cart2sph(*v.T)
    t.close(Q / lv, np.linalg.norm(v / lv, axis=1), 'radius')
    t.close(ref.cart(A, Z), v / np.linalg.norm(v, axis=1)[:, None],
            'direction', atol=1e-7)
    t.close(np.array(u.cart2dir(*v.T)), np.array([A, Z]), 'cart2dir',
            atol=1e-9)
    t.close(u.angle_between(v[0], w), ref.angle(
        np.broadcast_to(v[0], w.shape), w), 'angle', atol=1e-6)
    i = slice(0, 5)
    t.close(u.rotation_rodrigues(v[0], 1.3),
            u.rotation_rodrigues(v[0] / lv, 1.3), 'axis of any length')
    t.close(u.rotation_vecvec(v[0], w[0]),
            u.rotation_vecvec(v[0] / lv, w[0] / lv), 'vectors of any length',
            atol=1e-7)
    e = .5 * np.linalg.norm(np.cross(v[0] - w[0], v[-1] - w[0])) / lv ** 2
    t.close(u.area_triangle(v[0], w[0], v[-1]) / lv ** 2, e, 'area',
            atol=1e-7)
    x, q = v[i] / lv, w[i] / lv
    t.forms(lambda m: u.cart2sph(m[:, 0], m[:, 1], m[:, 2]), x + 1e-3,
            'cart2sph', ints=False)
    t.forms(u.vec2dir, x, 'vec2dir', ints=False)
    t.forms(lambda m: u.vec2dir(m), np.rint(5 * x) + [.0, .0, 11.],
            'vec2dir', ints=True)
    t.forms(lambda m: u.cart2sph(m[:, 0], m[:, 1], m[:, 2]),
            np.rint(5 * x) + [.0, .0, 11.], 'cart2sph')
    t.forms(lambda m: u.cart2dir(m[:, 0], m[:, 1], m[:, 2]),
            np.rint(5 * x) + [.0, .0, 11.], 'cart2dir')
    t.forms(lambda m: u.sph2cart(m, z[i], rad[i] / lv), a[i], 'sph2cart')
    t.forms(lambda m: u.sph2cart(a[i], z[i], m), rad[i] / lv, 'sph2cart')
    t.forms(lambda m: u.dir2cart(m, z[i]), a[i], 'dir2cart')
    t.forms(lambda m: u.dir2cart(a[i], m), z[i], 'dir2cart')
    t.forms(lambda m: u.angle_between(m, q + 20.), x[0] + 20.,
            'angle_between', rtol=1e-6, atol=1e-6, single=4e-3)
    t.forms(lambda m: u.angle_between(x[0] + 20., m), q + [9., 0, -9.],
            'angle_between', rtol=1e-6, atol=1e-6, single=4e-3)
    t.forms(lambda m: u.haversine(m, z[i], b[i], y[i]), a[i], 'haversine',
            rtol=1e-6, single=4e-3)
    t.forms(lambda m: u.haversine(a[i], m, b[i], y[i]), z[i], 'haversine',
            rtol=1e-6, single=4e-3)
    t.forms(lambda m: u.rotation_rodrigues(m, .4), x[0] + 1.5, 'rodrigues')
    t.forms(lambda m: u.rotation_vecvec(m, x[0] + [9., 0., 0.]), q[0] + [
        0., 9., 0.], 'vecvec', rtol=1e-6, single=4e-3)
    t.forms(u.deg2rad, 100 * x[0], 'deg2rad')
    t.forms(u.rad2deg, x[0], 'rad2deg')
    for k in (0, 1, -2, 3):
        t.close(u.rotation_euler(k, k + 1, -k),
                u.rotation_euler(float(k), k + 1., -1. * k), 'integer angles')
        t.close(u.rotation_rodrigues([1, 2, k], k), u.rotation_rodrigues(
            [1., 2., float(k)], float(k)), 'integer axis')
