"""C36 results follow rotations and mirroring of the whole scene."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

S, U, D, P, PR, G = (spa.sph, spa.utils, spa.decoder, spa.parsa, spa.process,
                     spa.grids)
R = core.Registry('C36', 'random scenes (sources, layouts, sound fields, '
                  'responses) that are turned by a random rotation, mirrored '
                  'at a plane, or both; non-trivial: the transformation '
                  'is not the identity')
turns = st.sampled_from(['rotation', 'rotation', 'mirror x', 'mirror y',
                         'mirror z', 'improper', 'point', 'axes', 'yaw',
                         'half'])


def matrix(how, r):
    q = np.linalg.qr(r.standard_normal((3, 3)))[0]
    q = q * np.sign(np.linalg.det(q))
    a = r.uniform(-np.pi, np.pi)
    yaw = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0],
                    [0, 0, 1]])
    return {'rotation': q, 'improper': -q, 'point': -np.eye(3),
            'mirror x': np.diag([-1., 1, 1]),
            'mirror y': np.diag([1., -1, 1]),
            'mirror z': np.diag([1., 1, -1]), 'yaw': yaw,
            'axes': np.eye(3)[[1, 2, 0]],
            'half': np.diag([-1., -1, 1])}[how]


def turn(Q, a, z):
    """The directions after the transformation."""
    v = ref.cart(np.asarray(a), np.asarray(z)) @ Q.T
    return ref.sph(v)[:2]


CHECK = ref.cart(*gen.rand_dirs(np.random.default_rng(5), 150))


def field(Q, N):
    """Matrix that transforms SH coefficients of a sound field."""
    a, z, _ = ref.sph(CHECK)
    b, y, _ = ref.sph(CHECK @ Q)
    return np.linalg.lstsq(ref.sh(N, a, z, 'real'), ref.sh(N, b, y, 'real'),
                           rcond=None)[0]


def scene(c):
    r = gen.rng(c['seed'])
    return r, matrix(c['how'], r)


base = dict(seed=gen.seeds, how=turns)


@R.sub(dict(base, N=st.integers(0, 6), n=st.integers(1, 8),
            pole=st.sampled_from([None, 0., .003, .03, .3])), quick=200)
def encoding(c, t):
    """Sources, plane waves, transforms, patterns, filter banks, sectors."""
    r, Q = scene(c)
    N, n = c['N'], c['n']
    W = field(Q, N)
    t.nt()
    t.label(c['how'])
    a, z = gen.rand_dirs(r, n)
    if c['pole'] is not None:
        z[0], z[-1] = c['pole'], np.pi - c['pole']
    b, y = turn(Q, a, z)
    x = r.standard_normal((n, 5))
    t.close(S.src_to_sh(x, b, y, N), W @ S.src_to_sh(x, a, z, N),
            'src_to_sh', atol=1e-7)
    t.close(S.sh_matrix(N, b, y), S.sh_matrix(N, a, z) @ W.T, 'sh_matrix',
            atol=1e-7)
    F = r.standard_normal(((N + 1) ** 2, 3))
    t.close(S.inverse_sht(W @ F, b, y, 'real'),
            S.inverse_sht(F, a, z, 'real'), 'inverse_sht', atol=1e-6)
    k = (N + 2) ** 2 + 20
    ga, gz = gen.rand_dirs(r, k)
    gb, gy = turn(Q, ga, gz)
    f = r.standard_normal((k, 2))
    Y = ref.sh(N, ga, gz, 'real')
    if np.linalg.cond(Y) < 50:
        t.close(S.sht_lstsq(f, N, gb, gy, 'real'),
                W @ S.sht_lstsq(f, N, ga, gz, 'real'), 'sht_lstsq',
                atol=1e-6)
    t.close(S.sht(f, N, gb, gy, 'real'), W @ S.sht(f, N, ga, gz, 'real'),
            'sht', atol=1e-6)
    for pat in ('max_re', 'cardioid', 'hypercardioid'):
        if N:
            t.close(P.sh_beamformer_from_pattern(pat, N, b, y),
                    P.sh_beamformer_from_pattern(pat, N, a, z) @ W.T,
                    f'beamformer {pat}', atol=1e-7)
    # sector beamformers: pressure as it is, velocity turns
    A = r.standard_normal((2, (N + 1) ** 2))
    V = field(Q, N + 1)
    s0 = P.sh_sector_beamformer(A).reshape(2, 4, -1)
    s1 = P.sh_sector_beamformer(A @ W.T).reshape(2, 4, -1)
    want = s0 @ V.T
    want[:, 1:] = np.einsum('ij,sjk->sik', Q, want[:, 1:])
    t.close(s1, want, 'sectors', atol=1e-6)
    # products
    B = r.standard_normal(4)
    t.close(S.sh_mult(W @ F[:, 0], field(Q, 1) @ B, 'real'),
            V @ S.sh_mult(F[:, 0], B, 'real'), 'sh_mult', atol=1e-6)


@R.sub(dict(base, N=st.integers(1, 4), K=st.integers(1, 3),
            pole=st.sampled_from([None, 0., .003, .03, .3])), quick=150)
def arrays(c, t):
    """Spectra and weights of the adaptive methods."""
    r, Q = scene(c)
    N = c['N']
    W = field(Q, N)
    t.nt()
    t.label(c['how'])
    x = r.standard_normal(((N + 1) ** 2, 3 * (N + 1) ** 2))
    a, z = gen.rand_dirs(r, 6)
    if c['pole'] is not None:
        z[[1, 3]] = c['pole'], np.pi - c['pole']
    b, y = turn(Q, a, z)
    K = min(c['K'], (N + 1) ** 2 - 1)
    x = x + 6 * ref.sh(N, a, z, 'real')[:K].T @ r.standard_normal(
        (K, x.shape[1]))
    C = x @ x.T / x.shape[1]
    C2 = W @ C @ W.T
    C2 = (C2 + C2.T) / 2
    t.close(P.sh_music(C2, K, b, y), P.sh_music(C, K, a, z), 'sh_music',
            rtol=1e-4)
    t.close(P.sh_mvdr(C2, b, y), P.sh_mvdr(C, a, z) @ W.T, 'sh_mvdr',
            atol=1e-6)
    g = r.standard_normal(2)
    if ref.angle(*ref.cart(a, z)[:2]) > .5:
        t.close(P.sh_lcmv(C2, b[:2], y[:2], g),
                W @ P.sh_lcmv(C, a[:2], z[:2], g), 'sh_lcmv', atol=1e-6)
    t.require(P.estimate_num_sources(C2) == P.estimate_num_sources(C),
              'number of sources')
    for p, q, nm in zip(P.separate_cov(C2, K), P.separate_cov(C, K),
                        ('source', 'noise')):
        t.close(p, W @ q @ W.T, f'{nm} covariance', rtol=1e-6,
                atol=1e-7 * np.max(np.abs(C)))


@R.sub(dict(base, n=st.integers(60, 200), bp=st.booleans(),
            win=st.sampled_from([5, 9, 33])), quick=60)
def intensity(c, t):
    """The pseudo intensity vector turns with the B-format signal."""
    r, Q = scene(c)
    x = r.standard_normal((4, c['n']))
    x[1:] += .8 * x[0] * gen.rand_vecs(r, 1).T
    y = np.vstack([x[:1], Q @ x[1:]])
    kw = dict(win_len=c['win'], f_bp=(100, 3000) if c['bp'] else None)
    t.nt()
    t.label(c['how'])

    def vec(q):
        a, z, d = P.pseudo_intensity(spa.sig.AmbiBSignal([*q], fs=8000),
                                     **kw)
        return ref.cart(a, z) * np.asarray(d)[:, None]
    v, w = vec(x), vec(y)
    t.close(w, v @ Q.T, 'intensity', rtol=1e-6,
            atol=1e-7 * np.max(np.abs(v)))


@R.sub(dict(base, n=st.integers(2, 30)), quick=200)
def geometry(c, t):
    """Angles, distances, areas, energy vectors and quadrature weights."""
    r, Q = scene(c)
    n = c['n']
    p = r.standard_normal((n, 3)) * 10. ** r.integers(-2, 3)
    q = p @ Q.T
    k = np.abs(p).max()
    t.nt()
    t.label(c['how'])
    t.close(U.angle_between(q[0], q[1]), U.angle_between(p[0], p[1]),
            'angle_between', atol=1e-6)
    a, z, _ = ref.sph(p)
    b, y, _ = ref.sph(q)
    t.close(U.haversine(b, y, b[0], y[0], 2.),
            U.haversine(a, z, a[0], z[0], 2.), 'haversine', atol=1e-6)
    if n > 2:
        t.close(U.area_triangle(*q[:3]), U.area_triangle(*p[:3]),
                'area_triangle', rtol=1e-6, atol=1e-8 * k * k)
    t.close(np.stack(S.project_on_sphere(*q.T), 1),
            np.stack(S.project_on_sphere(*p.T), 1) @ Q.T,
            'project_on_sphere')
    g = r.uniform(.1, 1, (4, n))
    u = p / np.linalg.norm(p, axis=1)[:, None]
    v0, m0 = S.r_E(u, g)
    v1, m1 = S.r_E(u @ Q.T, g)
    t.close(v1, v0 @ Q.T, 'r_E', atol=1e-8)
    t.close(m1, m0, 'length of r_E', atol=1e-8)
    # the shortest turn from one vector to another follows
    rv0 = U.rotation_vecvec(u[0], u[1])
    rv1 = U.rotation_vecvec(Q @ u[0], Q @ u[1])
    if u[0] @ u[1] > -.99:
        t.close(rv1, Q @ rv0 @ Q.T, 'rotation_vecvec', atol=1e-6)
    th = r.uniform(-3, 3)
    s = np.sign(np.linalg.det(Q))
    t.close(U.rotation_rodrigues(s * Q @ u[0], th),
            Q @ U.rotation_rodrigues(u[0], th) @ Q.T, 'rotation_rodrigues',
            atol=1e-8)
    N = int(r.integers(1, 4))
    a, z, _ = ref.sph(setups.fibonacci(40) + .1 * r.standard_normal((40, 3)))
    t.close(G.calculate_grid_weights(*turn(Q, a, z), N),
            G.calculate_grid_weights(a, z, N), 'grid weights', rtol=1e-6,
            atol=1e-7)


@R.sub(dict(base, s=setups.specs(kinds=('random',), lo=6, offset=False),
            dirs=gen.dirs(1, 4)), quick=120, weight=2)
def layouts(c, t):
    """Setups, panning and decoding in mirrored and turned rooms."""
    r, Q = scene(c)
    p = setups.points(c['s'])
    h = D.LoudspeakerSetup(*p.T)
    k = D.LoudspeakerSetup(*(p @ Q.T).T)
    h.a = k.a = c['s']['a']
    f, g = [{tuple(sorted(map(int, s))) for s in x.simplices}
            for x in (h, k)]
    if f != g:
        t.skip('other triangles')
    t.nt()
    t.label(c['how'])
    if setups.depth(h) < .05 * c['s']['scale']:
        t.skip('listener not inside')

    def by_face(x, v):
        o = {tuple(sorted(map(int, s))): i for i, s in enumerate(
            x.simplices)}
        return np.asarray(v)[[o[s] for s in sorted(f)]]
    tol = dict(rtol=1e-6, atol=1e-8 * c['s']['scale'])
    t.close(by_face(k, k.centroids), by_face(h, h.centroids) @ Q.T,
            'centroids', **tol)
    t.close(by_face(k, k.face_areas), by_face(h, h.face_areas), 'areas',
            rtol=1e-6, atol=1e-8 * c['s']['scale'] ** 2)
    t.close(k.barycenter, Q @ h.barycenter, 'barycenter', **tol)
    fn = by_face(h, h.face_normals) @ Q.T
    t.close(by_face(k, k.face_normals), fn, 'face normals', rtol=1e-5,
            atol=1e-5 * np.max(np.abs(fn)))
    t.close(k.vertex_normals, h.vertex_normals @ Q.T, 'vertex normals',
            rtol=1e-5, atol=1e-5 * np.max(np.abs(h.vertex_normals)))
    t.close(k.d, h.d, 'distances')
    t.require(k.get_characteristic_order() == h.get_characteristic_order(),
              'characteristic order')
    src = ref.cart(*gen.split(c['dirs']))
    _, m = setups.pan(h.points, h.simplices, src)
    ok = np.abs(m) > 1e-4
    for fn, nm in ((D.vbap, 'vbap'), (D.vbip, 'vbip')):
        x, y = fn(src, h), fn(src @ Q.T, k)
        t.close(y[ok], x[ok], nm, rtol=1e-6, atol=1e-7 * np.max(np.abs(x)))
    N = 1 + c['s']['seed'] % 3
    W = field(Q, N)
    F = r.standard_normal(((N + 1) ** 2, 3))
    for fn, nm in ((D.sad, 'sad'), (D.mad, 'mad'), (D.epad, 'epad')):
        if nm != 'sad':
            e = np.linalg.svd(ref.sh(N, *ref.sph(p)[:2], 'real'),
                              compute_uv=False)
            if len(e) < (N + 1) ** 2 or e[-1] < 1e-2 * e[0]:
                continue        # not unique
        x, y = fn(F, h, N_sph=N), fn(W @ F, k, N_sph=N)
        t.close(y, x, nm, rtol=1e-6, atol=1e-7 * np.max(np.abs(x)))
    x, y = D.nearest_loudspeaker(src, h), D.nearest_loudspeaker(src @ Q.T, k)
    u = h.points / np.linalg.norm(h.points, axis=1)[:, None]
    e = np.sort(src @ u.T, axis=1)
    ok = e[:, -1] - e[:, -2] > 1e-6
    t.close(np.asarray(y)[ok] != 0, np.asarray(x)[ok] != 0,
            'nearest_loudspeaker')


def ears(r, g, taps, Q=None):
    """A head's responses, and those of the head in the other scene."""
    a, z = gen.rand_dirs(r, g)
    L, q = r.standard_normal((2, g, taps))
    h = spa.sig.HRIRs(L, q, a, z, 48000)
    if Q is None:
        # left and right swapped
        return h, spa.sig.HRIRs(q, L, -a, z, 48000)
    return h, spa.sig.HRIRs(L, q, *turn(Q, a, z), 48000)


@R.sub(dict(base, n=st.integers(1, 60), g=st.integers(2, 40),
            s=setups.specs(kinds=('random',), lo=6, offset=False),
            taps=st.integers(1, 30)), quick=120)
def ears_and_sides(c, t):
    """Renderings: turned with the head nothing changes, mirrored left and
    right change places."""
    r, Q = scene(c)
    n, g = c['n'], c['g']
    h, turned = ears(r, g, c['taps'], Q)
    _, swapped = ears(gen.rng(c['seed'] + 1), g, c['taps'])
    h1 = spa.sig.HRIRs(swapped.right, swapped.left, -swapped.azi,
                       swapped.zen, 48000)
    t.nt()
    t.label(c['how'])
    p = r.standard_normal(n)
    a, z = gen.rand_dirs(r, n)
    x = P.render_bsdm(p, a, z, h)
    y = P.render_bsdm(p, *turn(Q, a, z), turned)
    t.same(y, x, 'render_bsdm turned', rtol=1e-7)
    x = P.render_bsdm(p, a, z, h1)
    y = P.render_bsdm(p, -a, z, swapped)
    t.same(y[::-1], x, 'render_bsdm mirrored', rtol=1e-7)
    x, y = P.render_stereo_sdm(p, a, z), P.render_stereo_sdm(p, -a, z)
    t.same(y[::-1], x, 'render_stereo_sdm mirrored', rtol=1e-7)
    # loudspeakers
    v = setups.points(c['s'])
    sig = .1 * r.standard_normal((len(v), n))

    def play(v, h, **k):
        ls = D.LoudspeakerSetup(*v.T)
        ls.a = c['s']['a']
        return ls.binauralize(sig, 48000, hrirs=h, **k)
    x = play(v, h)
    if np.all(np.abs(sig) * np.min(
            np.linalg.norm(v, axis=1) ** -c['s']['a']) > 2e-5):
        t.same(play(v @ Q.T, turned), x, 'binauralize turned', rtol=1e-7)
        t.same(play(v * [1, -1, 1], swapped)[::-1], play(v, h1),
               'binauralize mirrored', rtol=1e-7)
        b = r.uniform(-3, 3)
        yaw = np.array([[np.cos(b), np.sin(b), 0],
                        [-np.sin(b), np.cos(b), 0], [0, 0, 1]])
        t.same(play(v, h, orientation=(b, 0)), play(v @ yaw.T, h),
               'looking to a side turns the room', rtol=1e-7)
    # cues
    if c['taps'] > 15:
        env = np.exp(-np.arange(120) / 20)
        e, o = r.standard_normal((2, g, 120)) * env
        w = spa.sig.HRIRs(e, o, h.azi, h.zen, 48000)
        m = spa.sig.HRIRs(o, e, -h.azi, h.zen, 48000)
        t.close(PR.ilds_from_hrirs(m), -PR.ilds_from_hrirs(w), 'level '
                'differences mirrored', atol=1e-7)
        # magnitude least squares filters: mirrored ears, mirrored signals
    if c['taps'] > 8 and g > 12:
        M = field(np.diag([1., -1, 1]), 1)
        grid = U.cart2sph(*G.load_t_design(7).T)
        k = len(grid[0])
        e, o = r.standard_normal((2, k, 32))
        w = spa.sig.HRIRs(e, o, grid[0], grid[1], 48000)
        m = spa.sig.HRIRs(o, e, -grid[0], grid[1], 48000)
        f0, f1 = D.magls_bin(w, 1), D.magls_bin(m, 1)
        t.close(f1[::-1], np.einsum('ij,ejk->eik', M, f0), 'magls mirrored',
                atol=1e-6 * np.max(np.abs(f0)), rtol=1e-6)
