"""C13 loudspeaker setups."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C13', 'layouts of 4..64 loudspeakers (random, rings, '
                  'domes, designs, cubes, shipped), radii variation, listener '
                  'offset, scale; non-trivial: radii differ or listener is '
                  'off centre or faces are dropped')
spec = setups.specs()


def faces_of(x):
    return sorted(tuple(sorted(int(i) for i in f)) for f in x)


def nt(s, t):
    t.nt(s['radii'] or s['offset'])
    t.label(s['kind'])


def outward(p, f):
    """Area normals of the faces, away from the mean of all points."""
    n = np.cross(p[f[:, 1]] - p[f[:, 0]], p[f[:, 2]] - p[f[:, 0]])
    c = np.mean(p[f], axis=1)
    side = np.sum(n * (c - np.mean(p, axis=0)), axis=1)
    return n * np.sign(side)[:, None], np.abs(side)


@R.sub(dict(s=spec), quick=150)
def geometry(c, t):
    """Positions, distances, closed hull, per-face and per-vertex data."""
    s = c['s']
    nt(s, t)
    h = setups.build(s)
    p = setups.rel_points(s)
    L = len(p)
    t.close(h.points, p, 'positions from the listener')
    t.close(np.stack([h.x, h.y, h.z], 1), p, 'x, y, z')
    t.close(h.d, np.linalg.norm(p, axis=1), 'distances')
    t.require(h.npoints == L, 'count')
    t.close(h.ls_gains, np.ones(L), 'static gains')
    t.close(h.listener_position, np.zeros(3), 'listener in the origin')
    t.close(h.barycenter, p.mean(0), 'barycenter')
    f = np.asarray(h.simplices)
    t.require(f.shape == (h.nsimplex, 3), 'face array')
    t.require(np.all(f[:, 0] == f.min(1)), 'faces start at lowest vertex')
    # a closed triangulated surface around all loudspeakers
    ed = {}
    for a in f:
        for i, j in ((0, 1), (1, 2), (0, 2)):
            k = tuple(sorted((a[i], a[j])))
            ed[k] = ed.get(k, 0) + 1
    t.require(set(ed.values()) == {2}, 'hull is not closed')
    V = len(np.unique(f))
    t.require(len(f) == 2 * V - 4, 'Euler characteristic')
    t.require(sorted(h.vertices) == sorted(np.unique(f)), 'vertices')
    n, side = outward(p, f)
    for k in range(len(f)):
        d = (p - p[f[k, 0]]) @ (n[k] / np.linalg.norm(n[k]))
        t.require(np.all(d < 1e-7 * s['scale']), 'point outside the hull')
    t.close(h.centroids, p[f].mean(1), 'centroids')
    A = np.linalg.norm(n, axis=1) / 2
    t.close(h.face_areas, A, 'areas')
    sure = np.abs(side) > 1e-4
    t.close(h.face_normals[sure], n[sure], 'normals')
    if np.all(sure):
        vn = np.zeros((L, 3))
        for k, a in enumerate(f):
            vn[a] += A[k] * n[k]
        t.close(h.vertex_normals, vn, 'vertex normals')
        t.close(spa.decoder.calculate_face_normals(h, normalize=True),
                n / np.linalg.norm(n, axis=1)[:, None], 'unit normals')
        v = h.vertices
        t.close(spa.decoder.calculate_vertex_normals(h, normalize=True)[v],
                vn[v] / np.linalg.norm(vn[v], axis=1)[:, None],
                'unit vertex normals')
    t.close(spa.decoder.calculate_centroids(h), h.centroids, 'centroids')
    t.close(spa.decoder.calculate_face_areas(h), h.face_areas, 'areas')
    t.close(spa.decoder.calculate_barycenter(h), h.barycenter, 'barycenter')


@R.sub(dict(s=spec, kind=gen.kinds), quick=80)
def constructors(c, t):
    """Spherical constructor, listener offset and input kinds agree."""
    s = c['s']
    nt(s, t)
    h = setups.build(s)
    v = setups.points(s)
    lp = setups.listener(s) if s['offset'] else np.zeros(3)
    azi, zen, r = ref.sph(v)
    h2 = spa.decoder.LoudspeakerSetup.from_sph(
        azi, zen, r, listener_position=ref.sph(lp) if s['offset'] else None)
    t.close(h2.points, h.points, 'from_sph', atol=1e-6 * s['scale'])
    k = c['kind']
    a = [gen.as_kind(x, k) for x in v.T]
    h3 = spa.decoder.LoudspeakerSetup(*a, gen.as_kind(lp, k))
    t.close(h3.points, h.points, f'{k} input', atol=1e-12)
    t.require(faces_of(h3.simplices) == faces_of(h.simplices), 'faces')
    u = v / np.linalg.norm(v, axis=1)[:, None]
    h4 = spa.decoder.LoudspeakerSetup.from_sph(azi, zen)
    t.close(h4.points, u, 'unit radius by default', atol=1e-6)


@R.sub(dict(s=setups.specs(radii=(0., .2, .4)), far=gen.floats(0, 1.6)),
       quick=100)
def enclosing_faces(c, t):
    """By default the faces with the listener on the side of the barycenter
    are valid, wherever the listener is."""
    s = dict(c['s'], offset=c['far'])
    t.label(s['kind'])
    h = setups.build(s)
    b = h.points.mean(0)
    cen = h.points[h.simplices].mean(1)
    crit = np.sum(-cen * (b - cen), axis=1)
    if np.any(np.abs(crit) < 1e-6):
        t.skip('listener on a limit')
    t.nt(np.any(crit < 0))
    t.label('some faces dropped' if np.any(crit < 0) else 'all faces')
    want = h.simplices[crit > 0]
    t.require(np.array_equal(h.valid_simplices.reshape(-1, 3), want),
              'valid faces')
    inside = spa.decoder.check_listener_inside(h, np.zeros(3))
    t.require(np.array_equal(inside.reshape(-1, 3), want), 'direct call')
    bary = spa.decoder.check_listener_inside(h, b)
    t.require(len(bary) == len(h.simplices), 'barycenter is inside')
    for f in h.simplices:
        ok = any(set(f) == set(w) for w in want)
        for perm in (f, f[::-1], f[[1, 2, 0]]):
            t.require(bool(h.is_simplex_valid(perm)) == ok,
                      'is_simplex_valid')


def deg(a, b):
    return np.degrees(ref.angle(a, b))


def pop_model(h, p, valid, op, val, t):
    """Faces that stay after one kind of limit."""
    keep = []
    for f in valid:
        v = p[f]
        if op == 'normal':
            i = [k for k, g in enumerate(h.simplices) if set(g) == set(f)][0]
            x = [deg(v.mean(0), h.face_normals[i])]
        elif op == 'aperture':
            x = [deg(v[0], v[1]), deg(v[1], v[2]), deg(v[0], v[2])]
        elif op == 'opening':
            x = [deg(v[1] - v[0], v[2] - v[0]), deg(v[0] - v[1], v[2] - v[1]),
                 deg(v[0] - v[2], v[1] - v[2])]
        else:
            if not all(i in f for i in val):
                keep.append(f)
            continue
        if np.min(np.abs(np.array(x) - val)) < 1e-5:
            t.skip('on a limit')
        if max(x) <= val:
            keep.append(f)
    return np.array(keep)


@R.sub(dict(s=setups.specs(radii=(0., .2, .4)),
            normal=st.sampled_from([None, 85., 45., 20., 10., 5., 60.]),
            aperture=st.sampled_from([None, None, 90., 70., 55., 110.]),
            opening=st.sampled_from([None, None, 135., 100., 75., 150.]),
            black=st.one_of(st.none(), st.lists(st.integers(0, 40),
                                                min_size=1, max_size=3)),
            twice=st.booleans()), quick=150)
def removed_triangles(c, t):
    """Exactly the faces beyond a limit go, in every combination."""
    s = c['s']
    h = setups.build(s)
    p = h.points.copy()
    valid = h.valid_simplices.copy()
    if len(valid) == 0:
        t.skip('nothing valid')
    black = c['black']
    if black is not None:
        # mostly an existing face
        f = valid[black[0] % len(valid)]
        black = [int(i) for i in f[:len(black)]]
    before = h.simplices.copy(), h.face_normals.copy(), h.face_areas.copy()
    n0 = len(valid)
    for op, val in (('normal', c['normal']), ('aperture', c['aperture']),
                    ('opening', c['opening']), ('blacklist', black)):
        if val is not None and len(valid):
            valid = pop_model(h, p, valid, op, val, t)
    kw = dict(normal_limit=c['normal'], aperture_limit=c['aperture'],
              opening_limit=c['opening'], blacklist=black)
    if c['twice']:
        # one limit per call, same order
        for k, v in kw.items():
            one = dict.fromkeys(kw)
            one[k] = v
            h.pop_triangles(**one)
    else:
        h.pop_triangles(**kw)
    t.nt(len(valid) < n0)
    t.label('all removed' if not len(valid) else
            'some removed' if len(valid) < n0 else 'none removed')
    t.require(np.array_equal(h.valid_simplices.reshape(-1, 3),
                             valid.reshape(-1, 3)), 'remaining faces')
    t.require(np.array_equal(h.simplices, before[0]) and
              np.array_equal(h.face_normals, before[1]) and
              np.array_equal(h.face_areas, before[2]),
              'hull data changed')
    for f in h.simplices:
        t.require(bool(h.is_simplex_valid(f)) ==
                  any(set(f) == set(w) for w in valid), 'is_simplex_valid')


@R.sub(dict(s=setups.specs(kinds=('dome', 'random', 'rings', 'solid',
                                  'random'), lo=7)), quick=100)
def imaginary_loudspeaker(c, t):
    """Against the mean normal of an open hull; refused for a closed one."""
    s = c['s']
    t.label(s['kind'])
    h = setups.build(s)
    if s['kind'] == 'dome':
        h.pop_triangles(normal_limit=85, aperture_limit=100)
    elif s['seed'] % 3:
        # open it at one face: remove the faces around one vertex
        v = int(h.vertices[s['seed'] % len(h.vertices)])
        h.pop_triangles(normal_limit=None, blacklist=[v])
    f = h.valid_simplices
    if len(f) == len(h.simplices):
        t.raises(RuntimeError,
                 lambda: spa.decoder.find_imaginary_loudspeaker(h),
                 'closed hull')
        t.label('closed')
        return
    if len(f) == 0:
        t.skip('no faces')
    ed = {}
    for a in f:
        for i, j in ((0, 1), (1, 2), (0, 2)):
            k = tuple(sorted((a[i], a[j])))
            ed[k] = ed.get(k, 0) + 1
    rim = [k for k, v in ed.items() if v == 1]
    ends = {}
    for k in rim:
        for i in k:
            ends[i] = ends.get(i, 0) + 1
    if set(ends.values()) != {2}:
        t.skip('rims touch')
    t.nt(True)
    n, side = outward(h.points, f)
    if np.any(side < 1e-4):
        t.skip('degenerate face')
    A = np.linalg.norm(n, axis=1) / 2
    d = np.mean(np.linalg.norm(h.points, axis=1)[f])
    want = -np.sum(A[:, None] * n, axis=0) / d ** 3
    got = spa.decoder.find_imaginary_loudspeaker(h)
    t.close(np.squeeze(got), want, 'position', atol=1e-9)


@R.sub(dict(s=setups.specs(radii=(0.,), offset=False)), quick=80)
def characteristic_order(c, t):
    """From the energy spread in the face centres (uniform radius)."""
    s = dict(c['s'], a=1)
    t.label(s['kind'])
    h = setups.build(s)
    if len(h.valid_simplices) != len(h.simplices) or \
            not setups.well_posed(h.points, h.simplices) or \
            setups.depth(h) < 1e-3:
        t.skip('panning base degenerate')
    u = h.points / np.linalg.norm(h.points, axis=1)[:, None]
    m = np.linalg.norm(u[h.simplices].mean(1), axis=1)
    x = 2 * 137.9 / np.mean(np.degrees(2 * np.arccos(m))) - 1.51
    if abs(x - round(x)) < 1e-4:
        t.skip('on a limit')
    N = int(np.ceil(x))
    t.nt(True)
    t.label(f'order {N}')
    p = h.points.copy()
    t.require(spa.decoder.characteristic_ambisonic_order(h) == N, 'order')
    if N < 1:
        t.raises(ValueError, h.get_characteristic_order, 'order below 1')
    else:
        t.require(h.get_characteristic_order() == N, 'method')
    t.close(h.points, p, 'positions unchanged', atol=0, rtol=0)


def table(h, faces, names):
    """Per-face data in the order of the faces' vertices."""
    rows = sorted((tuple(sorted(int(i) for i in f)), k)
                  for k, f in enumerate(faces))
    return [f for f, _ in rows], [np.array([getattr(h, n)[k] for _, k in
                                            rows]) for n in names]


@R.sub(dict(setups.changes(), normal=st.sampled_from([85., 30., 15.]),
            aperture=st.sampled_from([None, 80., 65.]),
            opening=st.sampled_from([None, 120., 90.])), quick=80)
def moved_layouts(c, t):
    """Another order of the loudspeakers, a turned or scaled layout have the
    same faces, limits and order, and the data that belong to it."""
    h, h2, i, q, k = setups.change(c)
    if np.min(np.abs(outward(h.points, h.simplices)[1])) < \
            1e-3 * c['s']['scale'] ** 3 or \
            c['s']['scale'] * k < .2:
        t.skip('flat face')
    t.nt()
    t.label(c['how'])
    inv = np.argsort(i)
    t.close(h2.d, k * h.d[i], 'distances')
    t.close(h2.barycenter, k * h.barycenter @ q.T, 'barycenter', atol=1e-8)

    def relabel(f):
        return inv[np.asarray(f, int).reshape(-1, 3)]
    names = ['face_areas', 'face_normals', 'centroids']
    f1, (A1, n1, c1) = table(h, relabel(h.simplices), names)
    f2, (A2, n2, c2) = table(h2, h2.simplices, names)
    t.require(f1 == f2, 'faces')
    t.close(A2, k ** 2 * A1, 'areas', atol=1e-8 * k ** 2)
    t.close(n2, k ** 2 * n1 @ q.T, 'normals', atol=1e-7 * k ** 2)
    t.close(c2, k * c1 @ q.T, 'centroids', atol=1e-8 * k)
    t.close(h2.vertex_normals, k ** 4 * h.vertex_normals[i] @ q.T,
            'vertex normals', atol=1e-7 * k ** 4)

    def valid():
        return faces_of(relabel(h.valid_simplices)), faces_of(
            np.reshape(h2.valid_simplices, (-1, 3)))
    a, b = valid()
    t.require(a == b, 'faces around the listener')
    if len(a) == len(h.simplices) and setups.well_posed(
            h.points, h.simplices):
        o = [spa.decoder.characteristic_ambisonic_order(x) for x in (h, h2)]
        t.require(o[0] == o[1], f'characteristic order {o}')
    for x in (h, h2):
        x.pop_triangles(normal_limit=c['normal'],
                        aperture_limit=c['aperture'],
                        opening_limit=c['opening'])
    a, b = valid()
    t.require(a == b, 'faces after pop_triangles')
    if 0 < len(a) < len(h.simplices):
        res = []
        for x in (h, h2):
            try:
                res.append(np.squeeze(
                    spa.decoder.find_imaginary_loudspeaker(x)))
            except (NotImplementedError, RuntimeError) as e:
                res.append(type(e))
        if isinstance(res[0], type):
            t.require(res[0] is res[1], 'imaginary loudspeaker')
        else:
            # (square metres times square metres over cubic metres)
            t.close(res[1], k * res[0] @ q.T, 'imaginary loudspeaker',
                    atol=1e-6 * k)


@R.sub(dict(s=setups.specs(kinds=('random', 'solid', 'rings')),
            seed=gen.seeds), quick=40)
def forms(c, t):
    """Coordinates in any layout and number type."""
    p = setups.rel_points(c['s'])
    t.nt()

    def facts(v):
        h = spa.decoder.LoudspeakerSetup(v[:, 0], v[:, 1], v[:, 2])
        h.pop_triangles()
        return (h.points, h.d, h.simplices, h.valid_simplices,
                h.face_areas, h.face_normals, h.centroids, h.x, h.y, h.z)
    t.forms(facts, p, 'coordinates', ints=False)
    v = np.rint(20 * p / np.max(np.abs(p)))
    if np.min(np.linalg.norm(v[:, None] - v[None] + 9 * np.eye(
            len(v))[:, :, None], axis=-1)) > 1:
        t.same(facts(v.astype(int)), facts(v), 'integers')
        lp = [1, -1, 2]
        a = spa.decoder.LoudspeakerSetup(*v.astype(int).T,
                                         listener_position=lp)
        b = spa.decoder.LoudspeakerSetup(*v.T, listener_position=[
            1., -1., 2.])
        t.same((a.points, a.d, a.valid_simplices),
               (b.points, b.d, b.valid_simplices), 'integer listener')
    azi, zen, r = ref.sph(p)

    def sphe(x):
        return spa.decoder.LoudspeakerSetup.from_sph(
            x[0], x[1], x[2]).points
    t.forms(sphe, np.array([azi, zen, r]), 'from_sph', ints=False)


@R.sub(dict(seed=gen.seeds, n=st.integers(4, 9), flat=gen.floats(0., 3.),
            lim=gen.floats(5., 178.), pop=st.booleans()), quick=150)
def face_shapes(c, t):
    """check_normals, check_aperture and check_opening over faces of any
    shape (thin, flat, tiny), in any order."""
    r = gen.rng(c['seed'])
    n = c['n']
    p = setups.fibonacci(n)
    # pairs of loudspeakers close to each other
    q = p + 10. ** -r.uniform(0, c['flat'], (n, 1)) * gen.rand_vecs(r, n)
    p = np.vstack([p, q[:n // 2 + 1]])
    p = p / np.linalg.norm(p, axis=1)[:, None]
    hull = spa.decoder.LoudspeakerSetup(*p.T)
    lim, D = c['lim'], spa.decoder
    f = hull.valid_simplices.copy()
    if len(f) < 4:
        t.skip('no faces')
    v = p[f]
    e = np.stack([deg(v[:, (i + 1) % 3] - v[:, i], v[:, (i + 2) % 3] -
                      v[:, i]) for i in range(3)], 1).max(1)
    a = np.stack([deg(v[:, i], v[:, i - 1]) for i in range(3)], 1).max(1)
    t.nt(np.min(np.sort(e)) < lim < e.max())
    for nm, fun, x in (('opening', D.check_opening, e),
                       ('aperture', D.check_aperture, a)):
        if np.min(np.abs(x - lim)) < 1e-3:
            t.skip('on a limit')
        h = hull
        if c['pop']:
            h = spa.decoder.LoudspeakerSetup(*p.T)
            h.pop_triangles(**{'normal_limit': None, nm + '_limit': lim})
            got = h.valid_simplices
        else:
            got = fun(hull, lim)
        got = np.asarray(got).reshape(-1, 3)
        t.require(np.array_equal(got, f[x <= lim]), f'{nm}: {x} {lim}: {got} '
                  f'of {f}')
