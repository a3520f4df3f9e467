"""C18 nearest loudspeaker and nearest HRIR."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C18', 'random and structured grids of 1..60 points, '
                  'layouts with different radii; directions at grid points, '
                  'poles and the azimuth wrap; non-trivial: more than one '
                  'candidate')
period = st.integers(-2, 2)


def nearest_ok(idx, v, cand, t, msg):
    """idx is a nearest candidate, up to ties."""
    ang = ref.angle(np.broadcast_to(v, cand.shape), cand)
    t.require(0 <= idx < len(cand), f'{msg}: index {idx}')
    t.require(ang[idx] <= ang.min() + 1e-6,
              f'{msg}: {ang[idx]} rad instead of {ang.min()}')


def grid(c):
    r = gen.rng(c['seed'])
    n = c['n']
    if c['grid'] == 'random':
        a, z = gen.rand_dirs(r, n)
    elif c['grid'] == 'horizontal':
        a = r.permutation(np.linspace(-np.pi, np.pi, n, endpoint=False))
        z = np.full(n, np.pi / 2)
    else:
        a = np.r_[0., 0., r.uniform(0, 2 * np.pi, n)]
        z = np.r_[0., np.pi, np.full(n, np.pi / 2 - .3)]
    return a + 2 * np.pi * c['turn'], z


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 60), turn=st.integers(-1, 1),
            grid=st.sampled_from(['random', 'horizontal', 'polar']),
            dirs=gen.dirs(1, 6), per=period, at=st.integers(0, 100),
            taps=st.integers(1, 4)), quick=200)
def hrirs(c, t):
    """Index and responses of the nearest grid point, scalar and batch."""
    a, z = grid(c)
    n = len(a)
    r = gen.rng(c['seed'] + 1)
    left, right = r.standard_normal((2, n, c['taps']))
    h = spa.sig.HRIRs(left, right, a, z, 48000)
    cand = ref.cart(a, z)
    azi, zen = gen.split(c['dirs'])
    azi, zen = np.r_[azi, a[c['at'] % n]], np.r_[zen, z[c['at'] % n]]
    azi = azi + 2 * np.pi * c['per']
    t.nt(n > 1)
    v = ref.cart(azi, zen)
    got = h.nearest_idx(azi, zen)
    t.require(np.shape(got) == azi.shape, f'shape {np.shape(got)}')
    for i, x in zip(got, v):
        nearest_ok(int(i), x, cand, t, 'batch')
    for i, x in zip(h.nearest_idx(list(azi), list(zen)), v):
        nearest_ok(int(i), x, cand, t, 'lists')
    for i in range(len(azi)):
        one = h.nearest_idx(azi[i], zen[i])
        t.require(np.ndim(one) == 0, 'scalar query gives no scalar')
        nearest_ok(int(one), v[i], cand, t, 'scalar')
        l, rr = h.nearest_hrirs(azi[i], zen[i])
        t.close(l, left[int(one)], 'left response', rtol=0, atol=0)
        t.close(rr, right[int(one)], 'right response', rtol=0, atol=0)
        l, rr = h[int(one)]
        t.close(l, left[int(one)], 'left item', rtol=0, atol=0)
        t.close(rr, right[int(one)], 'right item', rtol=0, atol=0)
    for i, k in enumerate(np.atleast_1d(h.nearest_idx(a, z))):
        nearest_ok(int(k), cand[i], cand, t, 'grid point')


@R.sub(dict(s=setups.specs(radii=(0., .2, .5)), dirs=gen.dirs(1, 6),
            at=st.integers(0, 50), far=st.sampled_from([1., .2, 5.])),
       quick=150)
def loudspeakers(c, t):
    """One loudspeaker per source, the one of smallest angle."""
    h = setups.build(c['s'])
    azi, zen = gen.split(c['dirs'])
    src = np.vstack([ref.cart(azi, zen), h.points[c['at'] % h.npoints]]) \
        * c['far']
    keep = src.copy()
    G = spa.decoder.nearest_loudspeaker(src, h)
    t.nt(True)
    t.label(c['s']['kind'])
    t.close(src, keep, 'sources changed', rtol=0, atol=0)
    t.require(G.shape == (len(src), h.npoints), f'shape {G.shape}')
    for g, x in zip(G, src):
        on = np.flatnonzero(g)
        t.require(len(on) == 1, f'{len(on)} active')
        nearest_ok(int(on[0]), x, h.points, t, 'loudspeaker')
        t.close(g[on[0]], h.d[on[0]] ** h.a, 'gain')
    one = spa.decoder.nearest_loudspeaker(src[0], h)
    every = spa.decoder.nearest_loudspeaker(src.tolist(), h)
    t.require(np.shape(one) == (1, h.npoints) and every.shape == G.shape,
              'shapes')
    for g, x in zip(np.vstack([one, every]), np.vstack([src[:1], src])):
        on = np.flatnonzero(g)
        t.require(len(on) == 1, f'{len(on)} active, single source or list')
        nearest_ok(int(on[0]), x, h.points, t, 'single source or list')
        t.close(g[on[0]], h.d[on[0]] ** h.a, 'gain, single source or list')


@R.sub(dict(seed=gen.seeds, n=gen.bulk, g=st.sampled_from([1, 7, 60, 300]),
            s=setups.specs(kinds=('random',), radii=(0., .2))), quick=60)
def forms(c, t):
    """Any number of directions, each looked up on its own, at any distance,
    in any layout and number type."""
    r = gen.rng(c['seed'])
    n = c['n']
    a, z = gen.rand_dirs(r, c['g'])
    left, right = r.standard_normal((2, c['g'], 2))
    hr = spa.sig.HRIRs(left, right, a, z, 48000)
    A, Z = gen.rand_dirs(r, n)
    cand = ref.cart(a, z)
    ang = np.sort(np.arccos(np.clip(ref.cart(A, Z) @ cand.T, -1, 1)), axis=1)
    sure = np.ones(n, bool) if c['g'] == 1 else ang[:, 1] - ang[:, 0] > 1e-5
    A, Z = A[sure], Z[sure]
    n = len(A)
    if not n:
        t.skip('ties')
    t.nt(n > 1)
    want = np.argmax(ref.cart(A, Z) @ cand.T, axis=1)
    # (a batch of one gives a scalar)
    t.close(np.atleast_1d(hr.nearest_idx(A, Z)), want, 'nearest_idx')
    t.rows(lambda i: np.atleast_1d(hr.nearest_idx(A[i], Z[i])), n, 'nearest_idx', c['seed'])
    t.forms(lambda x: hr.nearest_idx(x, Z[:9]), A[:9], 'azimuth', ints=False)
    t.forms(lambda x: hr.nearest_idx(A[:9], x), Z[:9], 'zenith', ints=False)
    for x in (-2, 0, 1, 3):
        for y in (0, 1, 2, 3):
            p = ref.cart(float(x), float(y))
            nearest_ok(int(hr.nearest_idx(x, y)), p, cand, t, 'integers')
    h = setups.build(c['s'])
    p = h.points / h.d[:, None]
    src = gen.rand_vecs(r, n) * 10. ** r.uniform(-6, 6, (n, 1))
    q = np.sort(src @ p.T / np.linalg.norm(src, axis=1)[:, None], axis=1)
    src = src[q[:, -1] - q[:, -2] > 1e-6]
    if not len(src):
        return
    G = spa.decoder.nearest_loudspeaker(src, h)
    E = np.zeros_like(G)
    k = np.argmax(src @ p.T, axis=1)
    E[np.arange(len(src)), k] = h.d[k] ** h.a
    t.close(G, E, 'nearest_loudspeaker')
    t.rows(lambda i: spa.decoder.nearest_loudspeaker(src[i], h), len(src),
           'nearest_loudspeaker', c['seed'])
    x = src[:7] / np.linalg.norm(src[:7], axis=1)[:, None]
    t.forms(lambda v: spa.decoder.nearest_loudspeaker(v, h), x, 'sources',
            ints=False)


@R.sub(dict(seed=gen.seeds, step=st.sampled_from([1e-2, 1e-3, 3e-4, 2e-5]),
            q=st.sampled_from([1, 9, 65, 130, 300, 1100]),
            off=gen.floats(0., .4)), quick=50)
def fine_grid(c, t):
    """Grids with a far finer spacing than the usual ones (a densely sampled
    arc or patch), scalar and batches of any size."""
    r = gen.rng(c['seed'])
    d = c['step']
    a0, z0 = r.uniform(-3, 3), r.uniform(.6, 2.5)
    i, j = np.meshgrid(np.arange(12), np.arange(12))
    a, z = a0 + d * i.ravel(), z0 + d * j.ravel()
    k = r.permutation(len(a))
    a, z = a[k], z[k]
    left, right = r.standard_normal((2, len(a), 2))
    hr = spa.sig.HRIRs(left, right, a, z, 48000)
    want = r.integers(0, len(a), c['q'])
    A = a[want] + c['off'] * d * r.uniform(-1, 1, c['q'])
    Z = z[want] + c['off'] * d * r.uniform(-1, 1, c['q'])
    t.nt()
    got = np.atleast_1d(hr.nearest_idx(A, Z))
    t.require(np.array_equal(got, want), f'{np.sum(got != want)} of '
              f"{c['q']} not the nearest")
    t.require(int(hr.nearest_idx(A[0], Z[0])) == want[0], 'scalar')
    n = min(c['q'], 130)
    p = np.random.default_rng(0).standard_normal(n)
    y = spa.parsa.render_bsdm(p, A[:n], Z[:n], hr)
    e = np.zeros((2, n + 1))
    for m in range(n):
        e[:, m:m + 2] += p[m] * np.stack([left[want[m]], right[want[m]]])
    t.close(np.stack(y), e, 'rendered', atol=1e-9)
    # loudspeakers as close to each other, around the sphere
    v = np.vstack([ref.cart(a[:20], z[:20]), np.eye(3), -np.eye(3)])
    if len(np.unique(v, axis=0)) == len(v):
        h = spa.decoder.LoudspeakerSetup(*v.T)
        w = want[want < 20]
        if len(w):
            G = spa.decoder.nearest_loudspeaker(ref.cart(a[w], z[w]), h)
            t.require(np.array_equal(np.argmax(G, axis=1), w) and
                      np.all(np.sum(G != 0, axis=1) == 1), 'loudspeakers')
