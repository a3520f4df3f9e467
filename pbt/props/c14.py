"""C14 VBAP / VBIP."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C14', 'layouts of 4..64 loudspeakers with radius '
                  'variation, listener offset, dropped faces, distance '
                  'exponent; sources anywhere, at loudspeakers, edges and '
                  'face centres; non-trivial: some source has two or three '
                  'active loudspeakers')
norms = st.sampled_from([2, 2, 1, 3, 1.5, float('inf')])
# limits that may be applied to the layout first
pops = st.sampled_from([None, None, dict(normal_limit=85),
                        dict(normal_limit=40), dict(normal_limit=None,
                                                    aperture_limit=80)])


def prepare(c, t, key='s'):
    h = setups.build(c[key])
    if c.get('pop'):
        h.pop_triangles(**c['pop'])
    elif c[key]['kind'] == 'dome':
        h.pop_triangles()
    if not setups.well_posed(h.points, h.valid_simplices):
        t.skip('face in a plane with the listener')
    if setups.depth(h, h.valid_simplices) < 1e-3:
        t.skip('listener outside')
    t.label(c[key]['kind'])
    return h


def validity(G, p, d, a, faces, src, norm, t, what='', intensity=False):
    """The gains are a correct panning of the sources, where decidable."""
    model, margin = setups.pan(p, faces, src, 2 if intensity else norm)
    t.require(G.shape == (len(src), len(p)), f'{what}: shape {G.shape}')
    sets = [set(int(i) for i in f) for f in faces]
    active2 = False
    for g, m, x, mod in zip(G, margin, src, model):
        if intensity:
            dg = g ** 2 / d ** a
            dg = dg / (np.linalg.norm(dg) or 1.)
        else:
            dg = g / d ** a
        x = x / np.linalg.norm(x)
        if m < -1e-4:
            t.close(g, np.zeros(len(p)), f'{what}: source outside', atol=0)
            continue
        if m < 1e-4 and not np.any(g):
            if m > 1e-7 or m > -9e-6 and len(faces) == 1:
                t.fail(f'{what}: silent source inside')
            continue
        on = np.flatnonzero(np.abs(dg) > 2e-5)
        active2 |= len(on) >= 2
        t.require(len(np.flatnonzero(g)) <= 3, f'{what}: more than three')
        t.require(any(set(map(int, on)) <= s for s in sets),
                  f'{what}: loudspeakers {on.tolist()} share no valid face')
        t.require(np.all(dg > -2e-5), f'{what}: negative gain')
        v = dg @ p
        t.close(v / np.linalg.norm(v), x, f'{what}: direction',
                atol=1e-3 if intensity else 1e-7)
        t.close(np.linalg.norm(g if intensity else dg, ord=norm), 1.,
                f'{what}: norm', atol=1e-6)
        if m > 1e-4 or not intensity:
            t.close(dg, mod, f'{what}: gains', atol=1e-4)
    return active2


@R.sub(dict(setups.source_strats(), s=setups.specs(), norm=norms, pop=pops,
            far=st.sampled_from([1., .1, 7., 1e-5, 1e5])), quick=250,
       examples=[dict(s=dict(kind='random', n=12, seed=4, radii=.2, scale=1.,
                             offset=.15, a=1), norm=1, pop=None, far=2.,
                      dirs=[[0., 0.], [0., np.pi]], at=[0, 1, 2, 4])])
def amplitude(c, t):
    """VBAP on the valid faces of the setup."""
    h = prepare(c, t)
    p = h.points.copy()
    src = setups.sources(c, p, h.valid_simplices) * c['far']
    keep = src.copy()
    G = spa.decoder.vbap(src, h, norm=c['norm'])
    t.nt(validity(G, p, h.d, h.a, h.valid_simplices, src, c['norm'], t,
                  'vbap'))
    t.close(src, keep, 'sources changed', rtol=0, atol=0)
    t.close(spa.decoder.vbap(src[0], h, norm=c['norm']), G[:1],
            'single source', atol=1e-12)
    t.close(spa.decoder.vbap([x.tolist() for x in src], h, norm=c['norm']),
            G, 'list of sources', atol=1e-12)
    t.close(spa.decoder.vbap(src[::-1], h, norm=c['norm']), G[::-1],
            'order of sources', atol=1e-12)
    if c['norm'] == 2:
        t.close(spa.decoder.vbap(src, h), G, 'default norm', atol=1e-12)


@R.sub(dict(setups.source_strats(), s=setups.specs(), norm=norms, pop=pops,
            pick=gen.seeds), quick=150)
def chosen_faces(c, t):
    """Only the faces that are passed are used."""
    h = prepare(c, t)
    p = h.points.copy()
    n = len(h.valid_simplices)
    r = gen.rng(c['pick'])
    k = int(r.integers(1, n + 1))
    sub = h.valid_simplices[r.permutation(n)[:k]]
    src = setups.sources(c, p, sub)
    for f, name in ((spa.decoder.vbap, 'vbap'), (spa.decoder.vbip, 'vbip')):
        if name == 'vbip' and h.a != 1:
            continue
        G = f(src, h, norm=c['norm'], valid_simplices=sub)
        t.nt(validity(G, p, h.d, h.a, sub, src, c['norm'], t, name,
                      name == 'vbip'))
    t.label(f'{k} of {n}' if n < 4 else 'subset' if k < n else 'all')


@R.sub(dict(setups.source_strats(), s=setups.specs(), norm=norms, pop=pops),
       quick=150)
def intensity(c, t):
    """VBIP: non-negative, unit norm, energy vector at the source."""
    h = prepare(dict(c, s=dict(c['s'], a=1)), t)
    p = h.points.copy()
    src = setups.sources(c, p, h.valid_simplices)
    G = spa.decoder.vbip(src, h, norm=c['norm'])
    t.require(np.all(G >= 0), 'negative gain')
    t.nt(validity(G, p, h.d, 1, h.valid_simplices, src, c['norm'], t, 'vbip',
                  True))
    on = np.linalg.norm(G, axis=1) > 0
    rE = spa.sph.r_E(p / h.d[:, None], G[on])[0] if np.any(on) else []
    for e, x in zip(np.asarray(rE), src[on]):
        t.close(e / np.linalg.norm(e), x / np.linalg.norm(x),
                'energy vector', atol=1e-3)
    t.close(spa.decoder.vbip(src[0], h, norm=c['norm']), G[:1], 'single',
            atol=1e-12)


@R.sub(dict(setups.source_strats(), s=setups.specs(kinds=(
    'dome', 'dome', 'random', 'rings')), norm=norms, imag=st.sampled_from(
        ['auto', 'one', 'two', 'flat'])), quick=120)
def retained_outside(c, t):
    """With an imaginary loudspeaker the real gains are kept (faded) and no
    column of the imaginary one is left."""
    s = dict(c['s'], a=1)
    h = setups.build(s)
    t.label(s['kind'] + '/' + c['imag'])
    if s['kind'] == 'dome':
        h.pop_triangles(normal_limit=85, aperture_limit=100)
    r = gen.rng(s['seed'] + 5)
    if c['imag'] == 'auto':
        if s['kind'] != 'dome':
            h.pop_triangles(normal_limit=None,
                            blacklist=[int(h.vertices[0])])
        im = None
    else:
        im = gen.rand_vecs(r, 2 if c['imag'] == 'two' else 1) * 1.3 * \
            s['scale']
        if s['kind'] == 'dome':
            im[0] = [.1, .05, -1. * s['scale']]
        if c['imag'] == 'flat':
            im = im[0]
    try:
        h.ambisonics_setup(update_hull=True, imaginary_ls=im,
                           characteristic_order=2, N_kernel=2)
    except RuntimeError:
        t.skip('no rim')
    ah = h.ambisonics_hull
    L = h.npoints
    K = ah.npoints - L
    if K not in (1, 2):
        t.fail(f'{K} loudspeakers were added')
    if im is not None:
        t.close(ah.points[L:], np.atleast_2d(im), 'imaginary positions')
    t.close(ah.points[:L], h.points, 'real positions')
    if not setups.well_posed(ah.points, ah.valid_simplices) or \
            setups.depth(ah) < 1e-3:
        t.skip('degenerate with imaginary loudspeaker')
    p, d = ah.points, ah.d
    src = setups.sources(c, p, ah.valid_simplices)
    src = np.vstack([src, p[L:]])
    model, margin = setups.pan(p, ah.valid_simplices, src, c['norm'])
    G = spa.decoder.vbap(src, h, norm=c['norm'], retain_outside=True)
    t.require(G.shape == (len(src), L), f'shape {G.shape}')
    sure = margin > -9e-6
    t.close(G[sure], (model * d)[sure][:, :L], 'gains of the real ones',
            atol=1e-4)
    t.nt(np.any(model[:, L:] > 1e-3))
    if K + L - 1 in ah.vertices:
        t.close(G[-1], np.zeros(L), 'at the imaginary loudspeaker',
                atol=1e-4)
    Gi = spa.decoder.vbip(src, h, norm=c['norm'], retain_outside=True)
    t.require(Gi.shape == G.shape, 'shape of vbip')
    for i in np.flatnonzero(sure):
        e = np.sqrt(np.clip((setups.pan(p, ah.valid_simplices, src[i])[0]
                             * d)[0, :L], 0, None))
        if np.linalg.norm(e) > 1e-2:
            e = e / np.linalg.norm(e, ord=c['norm'])
            t.close(Gi[i], e, 'vbip', atol=2e-2)


@R.sub(dict(s=setups.specs(kinds=('random', 'solid', 'rings')),
            dirs=gen.dirs(1, 3)), quick=40)
def refused(c, t):
    """Outside rendering needs the extended hull; sources are 3-vectors."""
    h = setups.build(dict(c['s'], offset=0.))
    azi, zen = gen.split(c['dirs'])
    v = ref.cart(azi, zen)
    t.nt()
    t.raises(ValueError, lambda: spa.decoder.vbap(v, h, retain_outside=True),
             'without ambisonics_setup')
    h.ambisonics_setup(characteristic_order=1, N_kernel=1)
    t.raises(ValueError, lambda: spa.decoder.vbap(v, h, retain_outside=True),
             'without imaginary loudspeaker')
    t.raises(AssertionError, lambda: spa.decoder.vbap(v[:, :2], h), '2D')
    t.raises(AssertionError, lambda: spa.decoder.vbap(
        v, h, valid_simplices=h.valid_simplices, retain_outside=True),
        'own faces with retain_outside')


LAYS = setups.LAYOUTS


@R.sub(dict(i=st.integers(0, len(LAYS) - 1), dirs=gen.dirs(2, 8),
            at=st.lists(st.integers(0, 90), max_size=4), norm=norms),
       quick=24)
def shipped_layouts(c, t):
    """The layouts that come with the package."""
    h = spa.io.load_layout(setups.shipped(LAYS[c['i']]), N_kernel=2)
    t.label(LAYS[c['i']])
    h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    if not setups.well_posed(h.points, h.valid_simplices, 1e-3):
        t.skip('degenerate base')
    src = setups.sources(c, h.points, h.valid_simplices)
    t.nt()
    G = spa.decoder.vbap(src, h, norm=c['norm'])
    validity(G, h.points, h.d, h.a, h.valid_simplices, src, c['norm'], t,
             'vbap')


@R.sub(dict(setups.changes(), n=gen.block, norm=norms, seed=gen.seeds),
       quick=60)
def moved_layouts(c, t):
    """Gains follow their loudspeakers to another place in the layout, turn
    with the layout, and scale with the distance compensation."""
    h, h2, i, q, k = setups.change(c)
    if not setups.well_posed(h.points, h.valid_simplices) or setups.depth(
            h) < 1e-3 or len(h.simplices) != len(h.valid_simplices):
        t.skip('degenerate')
    src = gen.rand_vecs(gen.rng(c['seed']), c['n'])
    margin = setups.pan(h.points, h.valid_simplices, src, c['norm'])[1]
    src = src[np.abs(margin) > 1e-4]
    if not len(src):
        t.skip('on an edge')
    t.nt()
    t.label(c['how'])
    a = spa.decoder.vbap(src, h, norm=c['norm'])
    b = spa.decoder.vbap(src @ q.T, h2, norm=c['norm'])
    s = np.max(h2.d ** h.a)
    t.close(b, k ** h.a * a[:, i], 'vbap', atol=1e-7 * s)
    a = spa.decoder.vbip(src, h, norm=c['norm'])
    b = spa.decoder.vbip(src @ q.T, h2, norm=c['norm'])
    t.close(b, a[:, i], 'vbip', atol=1e-6)


@R.sub(dict(s=setups.specs(kinds=('random', 'rings', 'dome', 'solid')),
            n=gen.block, norm=norms, seed=gen.seeds, pop=pops), quick=60)
def forms(c, t):
    """Any number of sources, each panned on its own, in any layout and
    number type, on any kind of list of faces."""
    h = prepare(c, t)
    r = gen.rng(c['seed'])
    n = c['n']
    t.nt(n > 1)
    src = gen.rand_vecs(r, n) * 10. ** r.uniform(-5, 5, (n, 1))
    v = h.valid_simplices
    s = np.max(h.d ** h.a)
    for f in (spa.decoder.vbap, spa.decoder.vbip):
        nm = f.__name__
        # only where the choice of the face is sure
        m = setups.pan(h.points, v, src, 2)[1]
        x = src[np.abs(m) > 1e-4]
        if not len(x):
            t.skip('edges')
        t.rows(lambda i: f(x[i], h, norm=c['norm']), len(x), nm, c['seed'],
               atol=1e-9 * s)
        x = x[:7] / np.linalg.norm(x[:7], axis=1)[:, None]
        t.forms(lambda y: f(y, h, norm=c['norm']), x, nm, ints=False)
        y = np.rint(40 * x)
        y = y[np.abs(setups.pan(h.points, v, y, 2)[1]) > 1e-4]
        if len(y):
            t.same(f(y.astype(int), h, norm=c['norm']),
                   f(y, h, norm=c['norm']), f'{nm} of integers')
        g = f(x, h, norm=c['norm'])
        for w in (list(v), v.tolist(), tuple(map(tuple, v)),
                  np.asfortranarray(v), v[::-1], v.astype(np.int64)):
            t.close(f(x, h, norm=c['norm'], valid_simplices=w), g,
                    f'{nm}, faces given', atol=1e-8 * s)
