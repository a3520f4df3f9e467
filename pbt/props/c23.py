"""C23 loudspeaker layout files."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C23', 'layouts of 5..20 loudspeakers with gains, 0..2 '
                  'imaginary loudspeakers, listener offsets, saved and '
                  'loaded or written by hand, and the shipped files; '
                  'non-trivial: gains, imaginary loudspeakers or an offset')
NK = 4
# azimuth of the first loudspeaker
fronts = st.one_of(
    st.sampled_from([None, 0., -.004, -.3, -1., 359.9, 180., -179.998, 90.,
                     1e-7]),
    st.sampled_from([None, 359.95, -.05, .05, .01, 359.99, -.01]),
    gen.floats(-.2, .2), gen.floats(-180., 360.))


def tmp():
    return tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH'))


def cart(azi_deg, ele_deg, r):
    return ref.cart(np.deg2rad(azi_deg), np.deg2rad(90. - np.asarray(
        ele_deg, float)), np.asarray(r, float))


def read(f):
    """Positions, gains and imaginary flags as written in the file."""
    with open(f) as fp:
        d = json.load(fp)
    ls = d['LoudspeakerLayout']['Loudspeakers']
    p = cart([x['Azimuth'] for x in ls], [x['Elevation'] for x in ls],
             [x['Radius'] for x in ls])
    gain = np.array([x.get('Gain', 1.) for x in ls], float)
    im = np.array([x.get('IsImaginary', False) for x in ls], bool)
    return d, ls, p, gain, im


def compare(h, p, gain, im, t, msg, offset=None, tol=1e-9):
    """A loaded setup holds exactly these loudspeakers."""
    o = np.zeros(3) if offset is None else np.asarray(offset, float)
    t.require(h.npoints == np.sum(~im), f'{msg}: {h.npoints} loudspeakers')
    t.close(h.points, p[~im] - o, f'{msg}: positions', rtol=0, atol=tol)
    t.close(np.stack([h.x, h.y, h.z], 1), p[~im] - o, f'{msg}: x, y, z',
            rtol=0, atol=tol)
    t.close(h.d, np.linalg.norm(p[~im] - o, axis=1), f'{msg}: distances',
            rtol=0, atol=tol)
    t.close(h.ls_gains, gain[~im], f'{msg}: gains')
    ah = h.ambisonics_hull
    t.close(ah.points, np.vstack([p[~im], p[im]]) - o,
            f'{msg}: ambisonics hull', rtol=0, atol=tol)
    got = np.asarray(ah.imaginary_ls_idx if ah.imaginary_ls_idx is not None
                     else [], float).ravel()
    t.close(np.sort(got), np.arange(np.sum(~im), len(p)).astype(float),
            f'{msg}: imaginary loudspeakers')


def same_gains(src, h, fresh, t):
    """Planar quads may be split either way, then gains are not compared."""
    faces = [sorted(map(tuple, np.sort(x.valid_simplices, axis=1).tolist()))
             for x in (h, fresh)]
    if faces[0] == faces[1]:
        t.label('gains compared')
        g, margin = setups.pan(h.points, h.valid_simplices, src)
        ok = np.abs(margin) > 1e-4
        t.close(spa.decoder.vbap(src, h)[ok], spa.decoder.vbap(src,
                                                               fresh)[ok],
                'panning gains', atol=1e-9)


@R.sub(dict(s=setups.specs(lo=5, hi=16, radii=(0., .2),
                           scales=(1., 2.5, .4, 30.)), front=fronts,
            n_im=st.integers(0, 2), gains=st.booleans(),
            how=st.sampled_from(['given', 'auto', 'none']),
            dirs=gen.dirs(1, 5), name=st.text(max_size=8)), quick=130,
       weight=3)
def round_trip(c, t):
    """Saved, read by an own parser, loaded, and saved again."""
    h = setups.build(dict(c['s'], front=c['front']))
    L = h.npoints
    r = gen.rng(c['s']['seed'] + 4)
    if c['gains']:
        h.ls_gains = r.uniform(.1, 2, L)
    im = None
    how = c['how'] if c['n_im'] else 'none'
    if how == 'given':
        im = gen.rand_vecs(r, c['n_im']) * 1.4 * c['s']['scale']
        im[0] = np.array([.05, .1, -1.3]) * c['s']['scale']
    elif how == 'auto':
        h.pop_triangles(normal_limit=None, blacklist=[int(h.vertices[0])])
    try:
        h.ambisonics_setup(update_hull=how != 'none', imaginary_ls=im,
                           N_kernel=NK)
    except RuntimeError:
        t.skip('no rim')
    a = h.ambisonics_hull
    want = a.points.copy()
    flags = np.arange(len(want)) >= L
    t.nt(c['gains'] or how != 'none' or c['s']['offset'] > 0)
    t.label(how)
    with tmp() as d:
        f, g = os.path.join(d, 'a.json'), os.path.join(d, 'b.json')
        spa.io.save_layout(f, h, name=c['name'], description='d ' + c['name'])
        data, ls, p, gain, isim = read(f)
        t.require(data['Name'] == c['name'] and
                  data['LoudspeakerLayout']['Name'] == c['name'] and
                  data['LoudspeakerLayout']['Description'] ==
                  'd ' + c['name'], 'names')
        t.require([x['Channel'] for x in ls] ==
                  list(range(1, len(want) + 1)), 'channel numbers')
        t.require(all(isinstance(x['IsImaginary'], bool) for x in ls),
                  'flags are no booleans')
        t.close(isim, flags, 'imaginary flags')
        t.close(gain, np.r_[h.ls_gains, np.zeros(len(want) - L)],
                'gains in the file')
        # two digits for angles and radius
        rad = np.linalg.norm(want, axis=1)
        t.require(p.shape == want.shape, 'number of loudspeakers')
        r_file = np.linalg.norm(p, axis=1)
        t.close(r_file, rad, 'radius in the file', rtol=0, atol=.0051)
        off = np.linalg.norm(p / r_file[:, None] - want / rad[:, None],
                             axis=1)
        t.require(np.all(off <= 1.5 * np.deg2rad(.0051)),
                  f'directions in the file off by {np.rad2deg(off.max())} deg')
        t.close(a.points, want, 'setup changed', rtol=0, atol=0)
        try:
            k = spa.io.load_layout(f, N_kernel=NK)
        except Exception as e:
            if type(e).__name__ == 'QhullError':
                t.skip('flat after rounding')
            raise
        compare(k, p, gain, isim, t, 'loaded')
        spa.io.save_layout(g, k, name='second')
        _, _, p2, gain2, im2 = read(g)
        t.close(p2, p, 'positions saved again', atol=1e-9)
        t.close(gain2, gain, 'gains saved again')
        t.close(im2, isim, 'flags saved again')
    # the same panning as a setup built from the same positions
    fresh = spa.decoder.LoudspeakerSetup(*p[~isim].T)
    src = ref.cart(*gen.split(c['dirs']))
    same_gains(src, k, fresh, t)


@R.sub(dict(s=setups.specs(lo=5, hi=14, radii=(0., .2)),
            n_im=st.integers(0, 3), seed=gen.seeds,
            keys=st.sampled_from(['all', 'no gain', 'no flag', 'none',
                                  'extra']),
            front=fronts,
            listener=st.sampled_from([None, [0., 0., 0.], [.1, -.05, .05],
                                      [0., 0., -.12], [.3, 0., 0.]]),
            lk=gen.kinds, turn=st.integers(-1, 1), ints=st.booleans()),
       quick=150, weight=2)
def hand_written(c, t):
    """Files in which imaginary loudspeakers are mixed with others, optional
    keys are missing, and a listener position is given."""
    s = c['s']
    r = gen.rng(c['seed'])
    p = setups.points(dict(s, front=c['front']))
    n_im = c['n_im'] if c['keys'] in ('all', 'no gain', 'extra') else 0
    im = 1.5 * s['scale'] * gen.rand_vecs(r, n_im)
    allp = np.vstack([p, im])
    flag = np.arange(len(allp)) >= len(p)
    o = r.permutation(len(allp))
    allp, flag = allp[o], flag[o]
    gain = np.round(r.uniform(0, 2, len(allp)), 3)
    a, z, rad = ref.sph(allp)
    azi, ele = np.rad2deg(a) + 360 * c['turn'], 90 - np.rad2deg(z)
    if c['ints']:
        azi, ele = np.round(azi), np.round(ele)
    ls = []
    for k in range(len(allp)):
        x = dict(Azimuth=int(azi[k]) if c['ints'] else float(azi[k]),
                 Elevation=int(ele[k]) if c['ints'] else float(ele[k]),
                 Radius=float(rad[k]), Channel=k + 1)
        if c['keys'] in ('all', 'no flag', 'extra'):
            x['Gain'] = float(gain[k])
        if c['keys'] in ('all', 'no gain', 'extra'):
            x['IsImaginary'] = bool(flag[k])
        if c['keys'] == 'extra':
            x['Comment'] = 'x'
        ls.append(x)
    if 'Gain' not in ls[0]:
        gain = np.ones(len(allp))
    off = c['listener']
    if off is not None:
        off = (np.array(off) * s['scale']).tolist()
    kw = {} if off is None else \
        {'listener_position': gen.as_kind(off, c['lk'])}
    t.nt(n_im > 0 or off is not None)
    t.label(c['keys'])
    t.label(f'{n_im} imaginary')
    pos = cart(azi, ele, rad)
    rel = pos[~flag] - (0 if off is None else off)
    try:
        spa.decoder.LoudspeakerSetup(*rel.T).get_characteristic_order()
    except Exception:
        t.skip('degenerate after rounding')
    with tmp() as d:
        f = os.path.join(d, 'a.json')
        with open(f, 'w') as fp:
            json.dump({'Name': 'x', 'LoudspeakerLayout':
                       {'Name': 'y', 'Loudspeakers': ls}}, fp)
        h = spa.io.load_layout(f, N_kernel=NK, **kw)
    compare(h, pos, gain, flag, t, 'loaded', off)
    if off is not None:
        t.close(kw['listener_position'], off, 'argument changed')


@R.sub(dict(file=st.sampled_from(setups.LAYOUTS), dirs=gen.dirs(1, 6),
            listener=st.sampled_from([None, [.1, .1, 0.]])), quick=20,
       examples=[dict(file=f, dirs=[[.3, 1.2]], listener=None)
                 for f in setups.LAYOUTS])
def shipped(c, t):
    """The shipped files load to the positions they hold and pan there."""
    f = setups.shipped(c['file'])
    _, ls, p, gain, im = read(f)
    t.nt()
    t.label(c['file'])
    h = spa.io.load_layout(f, listener_position=c['listener'], N_kernel=NK)
    compare(h, p, gain, im, t, 'loaded', c['listener'])
    t.require(h.ambisonics_hull.a == h.a, 'distance exponent')
    src = ref.cart(*gen.split(c['dirs']))
    rel = p - (0 if c['listener'] is None else np.array(c['listener']))
    fresh = spa.decoder.LoudspeakerSetup(*rel[~im].T)
    same_gains(src, h, fresh, t)


@R.sub(dict(s=setups.specs(lo=5, hi=8)), quick=15)
def refused(c, t):
    """Without an ambisonics hull there is nothing to save."""
    h = setups.build(c['s'])
    t.nt()
    with tmp() as d:
        f = os.path.join(d, 'a.json')
        t.raises(ValueError, lambda: spa.io.save_layout(f, h), 'no hull')
        t.require(not os.path.exists(f), 'file written')


@R.sub(dict(seed=gen.seeds, L=st.sampled_from([5, 6, 24, 40, 64, 101]),
            level=st.integers(-9, 4), zero=st.integers(0, 5),
            n_im=st.integers(0, 4), home=st.booleans()), quick=30, weight=3)
def many(c, t):
    """Large layouts and gains of any size, muted loudspeakers included;
    names in the home folder."""
    r = gen.rng(c['seed'])
    u = gen.spread(r, c['L']) if hasattr(gen, 'spread') else \
        gen.rand_vecs(r, c['L'])
    p = u * r.uniform(1., 3., (c['L'], 1))
    im = 1.2 * gen.rand_vecs(r, c['n_im'])
    g = r.uniform(.1, 1., c['L']) * 10. ** c['level']
    g[r.permutation(c['L'])[:c['zero']]] = 0.
    t.nt()
    t.label(f'{c["L"]} loudspeakers')
    h = spa.decoder.LoudspeakerSetup(*p.T)
    h.ls_gains = g
    try:
        if c['n_im']:
            h.ambisonics_setup(update_hull=True, imaginary_ls=im,
                               N_kernel=NK)
        else:
            h.ambisonics_setup(update_hull=False, N_kernel=NK)
    except RuntimeError:
        t.skip('no rim')
    with tmp() as d:
        home = os.environ.get('HOME')
        os.environ['HOME'] = d
        try:
            f = '~/a.json' if c['home'] else os.path.join(d, 'a.json')
            spa.io.save_layout(f, h)
            _, _, pos, gain, flag = read(os.path.join(d, 'a.json'))
            k = spa.io.load_layout(f, N_kernel=NK)
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
    t.close(gain, np.r_[g, np.zeros(len(gain) - c['L'])],
            'gains in the file', rtol=1e-9, atol=0)
    t.close(pos, np.vstack([p, im]) if c['n_im'] else p, 'positions', rtol=0,
            atol=.02)
    compare(k, pos, gain, flag, t, 'loaded')
    t.close(k.ls_gains, g, 'gains loaded', rtol=1e-9, atol=0)
