"""C15 panning does not depend on the call history (stateful)."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

dec = spa.decoder
R = core.Registry('C15', 'sequences of 2..10 operations (panning, decoding, '
                  'face subsets, removal of faces, kernel setups, distance '
                  'exponents, plots of no interest excluded) on one layout, '
                  'each result compared to a fresh layout that only saw the '
                  'documented state changes; non-trivial: at least two '
                  'panning calls with a different call or change between')

STATE = ['pop', 'black', 'kernel', 'expo']
QUERY = ['vbap', 'vbip', 'subset', 'allrap', 'allrap2', 'allrad', 'allrad2',
         'sad', 'mad', 'epad', 'nls', 'order', 'outside', 'valid', 'imag',
         'binaural']


@st.composite
def operation(draw):
    op = draw(st.sampled_from(STATE + QUERY + ['vbap', 'subset', 'subset',
                                               'kernel', 'allrap']))
    return dict(op=op, k=draw(st.integers(0, 1000)),
                norm=draw(st.sampled_from([2, 1])),
                dirs=draw(gen.dirs(1, 3)))


def change(h, o):
    """Documented changes of the state of a setup."""
    k = o['k']
    if o['op'] == 'pop':
        h.pop_triangles(**[dict(normal_limit=85), dict(normal_limit=30),
                           dict(normal_limit=None, aperture_limit=80),
                           dict(opening_limit=110),
                           dict(normal_limit=85, aperture_limit=90,
                                opening_limit=150),
                           dict(normal_limit=None, aperture_limit=65),
                           dict(normal_limit=12)][k % 7])
    elif o['op'] == 'black':
        n = len(h.valid_simplices)
        if n > 4:
            h.pop_triangles(normal_limit=None, blacklist=[
                int(i) for i in h.valid_simplices[k % n]])
    elif o['op'] == 'expo':
        h.a = [0, 1, 2, .5][k % 4]
    elif o['op'] == 'kernel':
        im = [None, [[0., 0., -1.5]], [[0., .1, -1.5], [0., 0., 1.7]]][k % 3]
        h.ambisonics_setup(update_hull=im is not None, imaginary_ls=im,
                           characteristic_order=1 + k % 2,
                           N_kernel=1 + k % 3)


def query(h, o):
    """One rendering call -> array(s)."""
    k, op = o['k'], o['op']
    azi, zen = gen.split(o['dirs'])
    src = ref.cart(azi, zen)
    N = 1 + k % 2
    F = gen.rng(k).standard_normal(((N + 1) ** 2, 2))
    if op == 'vbap':
        return dec.vbap(src, h, norm=o['norm'])
    if op == 'vbip':
        return dec.vbip(src, h, norm=o['norm'])
    if op == 'outside':
        return dec.vbap(src, h, norm=o['norm'], retain_outside=True)
    if op == 'subset':
        # another choice of equally many faces for every k
        f = h.valid_simplices
        n = len(f)
        sub = np.array([f[(k + 3 * i) % n] for i in range(max(1, n // 2))])
        return [dec.vbap(src, h, norm=o['norm'], valid_simplices=sub),
                dec.vbip(src, h, norm=o['norm'], valid_simplices=sub)]
    if op == 'allrap':
        return dec.allrap(src, h, N_sph=None if k % 3 == 0 else N)
    if op == 'allrap2':
        return dec.allrap2(src, h, N_sph=None if k % 3 == 0 else N)
    if op == 'allrad':
        return dec.allrad(F, h, N_sph=N)
    if op == 'allrad2':
        return dec.allrad2(F, h, N_sph=N)
    if op in ('sad', 'mad', 'epad'):
        return getattr(dec, op)(F, h, N_sph=None if k % 3 == 0 else N)
    if op == 'nls':
        return dec.nearest_loudspeaker(src, h)
    if op == 'order':
        return h.get_characteristic_order()
    if op == 'valid':
        return [bool(h.is_simplex_valid(f)) for f in h.simplices]
    if op == 'imag':
        return dec.find_imaginary_loudspeaker(h)
    if op == 'binaural':
        r = gen.rng(k)
        a, z = gen.rand_dirs(r, 6)
        hr = spa.sig.HRIRs(r.standard_normal((6, 4)),
                           r.standard_normal((6, 4)), a, z, 48000)
        return h.binauralize(r.standard_normal((h.npoints, 5)), 48000,
                             orientation=(.3, 0), hrirs=hr)
    raise KeyError(op)


def outcome(h, o):
    try:
        return 'value', query(h, o)
    except (ValueError, AssertionError, RuntimeError, NotImplementedError,
            IndexError, ZeroDivisionError, AttributeError, TypeError) as e:
        return 'raises', type(e).__name__


def same(a, b, t, msg):
    t.require(a[0] == b[0], f'{msg}: {a[0]} instead of {b[0]} ({a[1]!r} / '
              f'{b[1]!r})')
    if a[0] == 'raises':
        t.require(a[1] == b[1], f'{msg}: {a[1]} instead of {b[1]}')
        return
    x, y = a[1], b[1]
    if not isinstance(x, (list, tuple)):
        x, y = [x], [y]
    for i, j in zip(x, y):
        t.close(i, j, msg, rtol=1e-10, atol=1e-12)


def snapshot(h):
    return [h.points.copy(), np.array(h.simplices), np.array(h.d),
            np.array([h.x, h.y, h.z]), np.array(h.listener_position),
            np.array(h.face_normals), np.array(h.centroids),
            np.array(h.vertices), np.array([h.npoints, h.nsimplex])]


@R.sub(dict(s=setups.specs(kinds=('random', 'rings', 'dome', 'solid')),
            start=st.sampled_from([None, None, None, 0, 1, 2, 4, 8, 5]),
            ops=st.lists(operation(), min_size=2, max_size=10)), quick=200,
       thorough=4000, weight=3.)
def histories(c, t):
    h = setups.build(c['s'])
    if not setups.well_posed(h.points, h.simplices):
        t.skip('degenerate layout')
    geo = snapshot(h)
    log, queries = [], 0
    ops = list(c['ops'])
    if c['start'] is not None:
        ops.insert(0, dict(op='kernel', k=c['start']))
    for i, o in enumerate(ops):
        if o['op'] in STATE:
            change(h, o)
            log.append(o)
        else:
            queries += 1
            valid = np.array(h.valid_simplices)
            got = outcome(h, o)
            t.require(np.array_equal(valid, h.valid_simplices),
                      f"{o['op']} changed the valid faces")
            fresh = setups.build(c['s'])
            for p in log:
                change(fresh, p)
            same(got, outcome(fresh, o), t, f"step {i}: {o['op']}")
            t.label(o['op'] + (' (raises)' if got[0] == 'raises' else ''))
        for a, b in zip(snapshot(h), geo):
            t.require(np.array_equal(a, b), f"{o['op']} changed the layout")
    t.nt(queries >= 2)


@R.sub(dict(s=setups.specs(kinds=('random', 'rings')), dirs=gen.dirs(2, 4),
            n=st.integers(2, 4), seed=gen.seeds), quick=60)
def disjoint_subsets(c, t):
    """Equally large, different face subsets on one object."""
    h = setups.build(c['s'])
    if not setups.well_posed(h.points, h.valid_simplices):
        t.skip('degenerate layout')
    src = setups.sources(dict(c, at=[2, 5, 8]), h.points, h.valid_simplices)
    r = gen.rng(c['seed'])
    parts = np.array_split(r.permutation(len(h.valid_simplices)), c['n'])
    m = min(map(len, parts))
    total = 0.
    for part in parts:
        sub = h.valid_simplices[np.sort(part[:m])]
        got = dec.vbap(src, h, valid_simplices=sub)
        fresh = dec.vbap(src, setups.build(c['s']), valid_simplices=sub)
        t.close(got, fresh, 'subset', atol=1e-12)
        model, margin = setups.pan(h.points, sub, src)
        sure = np.abs(margin) > 1e-4
        t.close((got / h.d ** h.a)[sure], model[sure], 'subset model',
                atol=1e-5)
        total += np.sum(got)
    t.nt(total > 0)


@R.sub(dict(s=setups.specs(kinds=('random', 'rings')), dirs=gen.dirs(2, 4),
            scale=st.sampled_from([1., 2.]), seed=gen.seeds), quick=60)
def two_setups(c, t):
    """Interleaved calls on two layouts, and on a copy, do not mix."""
    s2 = dict(c['s'], seed=c['seed'], scale=c['scale'])
    h1, h2 = setups.build(c['s']), setups.build(s2)
    for h in (h1, h2):
        if not setups.well_posed(h.points, h.valid_simplices):
            t.skip('degenerate layout')
    azi, zen = gen.split(c['dirs'])
    src = ref.cart(azi, zen)
    t.nt(True)
    f1 = dec.vbap(src, setups.build(c['s']))
    f2 = dec.vbap(src, setups.build(s2))
    for _ in range(2):
        t.close(dec.vbap(src, h1), f1, 'first', atol=1e-12)
        t.close(dec.vbap(src, h2), f2, 'second', atol=1e-12)
        t.close(dec.vbip(src, h1), dec.vbip(src, setups.build(c['s'])),
                'vbip', atol=1e-12)


@R.sub(dict(s=setups.specs(kinds=('random', 'rings', 'dome', 'random')),
            pops=st.lists(st.integers(0, 1000), min_size=0, max_size=2),
            kernel=st.one_of(st.none(), st.none(), st.integers(0, 8)),
            seed=gen.seeds, dirs=gen.dirs(1, 3)), quick=60, weight=3.)
def every_query(c, t):
    """All rendering calls, once each in any order, on a layout with and
    without removed faces, with and without a kernel."""
    r = gen.rng(c['seed'])

    def prepared():
        h = setups.build(c['s'])
        for k in c['pops']:
            change(h, dict(op='pop', k=k))
        if c['kernel'] is not None:
            change(h, dict(op='kernel', k=c['kernel']))
        return h
    h = prepared()
    if not setups.well_posed(h.points, h.simplices):
        t.skip('degenerate layout')
    t.nt(len(h.valid_simplices) < len(h.simplices))
    t.label('faces removed' if len(h.valid_simplices) < len(h.simplices)
            else 'all faces')
    geo, valid = snapshot(h), np.array(h.valid_simplices)
    for i in r.permutation(len(QUERY)):
        o = dict(op=QUERY[i], k=int(r.integers(1000)), norm=2,
                 dirs=c['dirs'])
        got = outcome(h, o)
        t.require(np.array_equal(valid, h.valid_simplices),
                  f"{o['op']} changed the valid faces")
        same(got, outcome(prepared(), o), t, o['op'])
        for a, b in zip(snapshot(h), geo):
            t.require(np.array_equal(a, b), f"{o['op']} changed the layout")
