"""Generated loudspeaker layouts."""
import os

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

LAYOUTS = sorted(f for f in os.listdir(os.path.join(core.REPO, 'data',
                                                    'ls_layouts'))
                 if f.endswith('.json'))
KINDS = ['random', 'random', 'random', 'rings', 'dome', 'design', 'solid']


@st.composite
def specs(draw, kinds=tuple(KINDS), lo=5, hi=20, radii=(0., 0., .05, .2),
          offset=True, scales=(1., 1., 2.5, .5, 12.)):
    return dict(kind=draw(st.sampled_from(list(kinds))),
                n=draw(st.integers(lo, hi) if hi < 20 else st.one_of(
                    *[st.integers(lo, hi)] * 7, st.integers(hi, 64))),
                seed=draw(gen.seeds),
                radii=draw(st.sampled_from(list(radii))),
                scale=draw(st.sampled_from(list(scales))),
                offset=draw(st.sampled_from([0., 0., .05, .15]))
                if offset else 0.,
                a=draw(st.sampled_from([1, 1, 0, .5, 2, -1,
                                             -.5, 3])))


def fibonacci(n):
    i = np.arange(n) + .5
    z = 1 - 2 * i / n
    phi = np.pi * (1 + 5 ** .5) * i
    s = np.sqrt(1 - z * z)
    return np.stack([s * np.cos(phi), s * np.sin(phi), z], 1)


def ring(n, elev, off):
    a = 2 * np.pi * (np.arange(n) + off) / n
    return ref.cart(a, np.full(n, np.pi / 2 - elev))


def points(s):
    """(L, 3) loudspeaker positions around the centre of the layout."""
    r = gen.rng(s['seed'])
    k, n = s['kind'], s['n']
    if k == 'random':
        v = fibonacci(n) + .25 * r.standard_normal((n, 3)) / np.sqrt(n)
        q, _ = np.linalg.qr(r.standard_normal((3, 3)))
        v = (v @ q)[r.permutation(n)] if n % 2 else v @ q
    elif k == 'rings':
        m = max(3, n // 3)
        v = np.vstack([ring(m, -.5, r.uniform()), ring(m + 1, .05,
                                                       r.uniform()),
                       ring(m, .7, r.uniform()), [[0, 0, 1.], [0, 0, -1.]]])
    elif k == 'dome':
        m = max(4, n // 2)
        v = np.vstack([ring(m, .02, r.uniform()), ring(max(3, m - 2), .6,
                                                       r.uniform()),
                       [[0, 0, 1.]]])
    elif k == 'design':
        v = spa.grids.load_t_design(3 + n % 3)
    else:
        v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1],
                      [-1, -1, -1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]],
                     float)
        if n % 5 == 2:
            v = v[:4]
        elif n % 2:
            v = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0],
                          [0, 0, 1], [0, 0, -1]], float)
        v = v[r.permutation(len(v))]
    v = v / np.linalg.norm(v, axis=1)[:, None]
    if s.get('front') is not None:
        # loudspeaker 0 at this azimuth (degree)
        a = np.deg2rad(s['front']) - np.arctan2(v[0, 1], v[0, 0])
        v = v @ np.array([[np.cos(a), np.sin(a), 0],
                          [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    v = v * (1 + s['radii'] * r.uniform(-1, 1, (len(v), 1)))
    return v * s['scale']


def listener(s):
    r = gen.rng(s['seed'] + 1)
    return s['offset'] * s['scale'] * gen.rand_vecs(r, 1)[0]


def build(s, cls=None):
    """The layout as seen from its listener, distance exponent applied."""
    v = points(s)
    lp = listener(s) if s['offset'] else None
    h = spa.decoder.LoudspeakerSetup(v[:, 0], v[:, 1], v[:, 2],
                                     listener_position=lp)
    h.a = s['a']
    return h


def rel_points(s):
    return points(s) - (listener(s) if s['offset'] else 0.)


def base_cond(p, faces):
    """Smallest |det| of the unit vector triplets of the faces."""
    u = p / np.linalg.norm(p, axis=1)[:, None]
    return np.min(np.abs(np.linalg.det(u[np.asarray(faces, int)]))) \
        if len(faces) else 0.


def well_posed(p, faces, lim=2e-2):
    """All faces are real triangles and real panning bases."""
    return len(faces) > 0 and base_cond(p, faces) > lim


def shipped(name):
    return os.path.join(core.REPO, 'data', 'ls_layouts', name)


def depth(h, faces=None):
    """Smallest signed distance of the listener to the face planes
    (positive: strictly inside of the hull, as far as it is used)."""
    p, f = h.points, np.asarray(h.simplices if faces is None else faces)
    if len(f) == 0:
        return 1.
    n = np.cross(p[f[:, 1]] - p[f[:, 0]], p[f[:, 2]] - p[f[:, 0]])
    n = n / np.linalg.norm(n, axis=1)[:, None]
    b = p.mean(0)
    side = np.sign(np.sum(n * (p[f[:, 0]] - b), axis=1))
    return float(np.min(side * np.sum(n * p[f[:, 0]], axis=1)))


def pan(p, faces, src, norm=2):
    """Own VBAP: (gains without distance compensation, margin).  The face
    with the largest smallest coefficient is used; margin is that coefficient
    (negative: outside of all faces)."""
    src = np.atleast_2d(np.asarray(src, float))
    out = np.zeros((len(src), len(p)))
    margin = np.full(len(src), -np.inf)
    faces = np.asarray(faces, int).reshape(-1, 3)
    if len(faces) == 0:
        return out, margin
    B = np.linalg.inv(np.swapaxes(p[faces], 1, 2))  # (F, 3, 3)
    g = np.einsum('fij,sj->sfi', B, src)
    g = g / np.linalg.norm(g, ord=norm, axis=2, keepdims=True)
    m = g.min(axis=2)
    best = m.argmax(axis=1)
    for i, b in enumerate(best):
        margin[i] = m[i, b]
        if m[i, b] > -1e-5:
            out[i, faces[b]] = g[i, b]
    return out, margin


def sources(c, p, faces):
    """Source vectors: given directions, loudspeakers, edge and face
    centres."""
    azi, zen = gen.split(c['dirs'])
    v = ref.cart(azi, zen)
    k = len(faces)
    for i in c['at']:
        kind, j = i % 3, i // 3
        if k == 0:
            continue
        f = np.asarray(faces[j % k], int)
        x = {0: p[f[0]], 1: p[f[0]] + p[f[1]],
             2: p[f].mean(0)}[kind]
        v = np.vstack([v, x])
    return v


def source_strats():
    return dict(dirs=gen.dirs(1, 5), at=st.lists(st.integers(0, 60),
                                                 max_size=4))


def moved(s):
    """A layout and, with the same geometry, one of permuted, turned and
    scaled loudspeakers: (h, h2, permutation, 3x3 matrix without scale,
    scale)."""
    r = gen.rng(s['seed'] + 77)
    p = rel_points(s)
    i = r.permutation(len(p)) if s.get('perm', True) else np.arange(len(p))
    q = np.linalg.qr(r.standard_normal((3, 3)))[0] if s.get('turn', True) \
        else np.eye(3)
    q = q * np.sign(np.linalg.det(q))
    k = s.get('by', 1.)
    h = spa.decoder.LoudspeakerSetup(*p.T)
    h2 = spa.decoder.LoudspeakerSetup(*(k * p[i] @ q.T).T)
    h.a = h2.a = s['a']
    return h, h2, i, q, k


def changes():
    """Strategies for the layout changes of moved()."""
    return dict(s=specs(kinds=('random',), lo=6),
                how=st.sampled_from(['order', 'turn', 'scale', 'all']),
                by=st.sampled_from([.1, .5, 3., 20.]))


def change(c):
    w = c['how']
    return moved(dict(c['s'], perm=w in ('order', 'all'),
                      turn=w in ('turn', 'all'),
                      by=c['by'] if w in ('scale', 'all') else 1.))
