"""C07 beam patterns and modal weights."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C07', 'orders 0..25, arbitrary steering and source '
                  'directions, random modal weights; non-trivial: order >= 1')
PATS = {'cardioid': 'card', 'inphase': 'card', 'hypercardioid': 'hyper',
        'max_di': 'hyper', 'max_re': 'maxre', 'maxre': 'maxre',
        'Cardioid': 'card', 'MAX_RE': 'maxre', 'HyperCardioid': 'hyper'}
C137 = np.deg2rad(137.9)


def pattern(kind, N, cosg):
    """Axisymmetric pattern of unit on-axis gain over the cosine of the
    angle."""
    cosg = np.asarray(cosg, float)
    if kind == 'card':
        return ((1 + cosg) / 2) ** N
    if kind == 'hyper':
        w = np.ones(N + 1)
    else:
        x = np.cos(C137 / (N + 1.51))
        w = np.array([ref.legendre(n, np.array(x)) for n in range(N + 1)])
    k = w * (2 * np.arange(N + 1) + 1)
    return sum(k[n] * ref.legendre(n, cosg) for n in range(N + 1)) / k.sum()


@R.sub(dict(N=gen.order(12, 25), pat=st.sampled_from(sorted(PATS)),
            steer=gen.dirs(1, 4), src=gen.dirs(1, 3)), quick=200)
def named_patterns(c, t):
    """A steered beamformer picks up a plane wave with its pattern."""
    N = c['N']
    t.nt(N >= 1)
    t.label(PATS[c['pat']])
    a, z = gen.split(c['steer'])
    sa, sz = gen.split(c['src'])
    w = spa.parsa.sh_beamformer_from_pattern(c['pat'], N, a, z)
    t.require(w.shape == (len(a), (N + 1) ** 2), f'shape {w.shape}')
    out = spa.parsa.sh_beamform(w, ref.sh_real(N, sa, sz).T)
    cosg = ref.cart(a, z) @ ref.cart(sa, sz).T
    t.close(out, pattern(PATS[c['pat']], N, cosg), 'beam output', atol=1e-5)
    on = np.sum(w * ref.sh_real(N, a, z), axis=1)
    t.close(on, np.ones(len(a)), 'unit gain in steering direction',
            atol=1e-6)


@R.sub(dict(N=gen.order(12, 25), seed=gen.seeds, steer=gen.dirs(1, 3),
            src=gen.dirs(1, 3), S=st.integers(0, 3), one=st.booleans(),
            level=gen.levels),
       quick=100)
def custom_weights(c, t):
    """Own modal weights and beamforming of arbitrary SH signals."""
    N = c['N']
    t.nt(N >= 1)
    r = gen.rng(c['seed'])
    a, z = gen.split(c['steer'])
    cn = r.standard_normal(N + 1) * c['level']
    w = spa.parsa.sh_beamformer_from_pattern(cn, N, a, z)
    t.close(w, cn[ref.orders(N)] * ref.sh_real(N, a, z), 'weights',
            atol=1e-6 * c['level'])
    shp = ((N + 1) ** 2,) if c['S'] == 0 else ((N + 1) ** 2, c['S'])
    x = r.standard_normal(shp)
    y = spa.parsa.sh_beamform(w[0] if c['one'] else w, x)
    e = (w[:1] if c['one'] else w) @ x.reshape((N + 1) ** 2, -1)
    t.close(y, e, 'sh_beamform', atol=1e-9 * max(1., c['level']))
    t.linear(lambda v: spa.parsa.sh_beamform(w, v),
             x.reshape((N + 1) ** 2, -1), 'signal levels')
    t.raises(AssertionError, lambda: spa.parsa.sh_beamformer_from_pattern(
        np.r_[cn, 1.], N, a, z), 'too many weights')
    t.raises(ValueError, lambda: spa.parsa.sh_beamformer_from_pattern(
        'omni8', N, a, z), 'unknown pattern')


@R.sub(dict(N=gen.order(20, 40), k=gen.floats(.5, 8), n_c=gen.floats(.5, 9),
            steep=st.integers(1, 60), cut=st.integers(1, 40),
            d=st.lists(gen.floats(-7, 7), min_size=1, max_size=5)), quick=120)
def modal_weights(c, t):
    """Closed forms, unit on-axis amplitude, the band-limited Dirac."""
    N = c['N']
    t.nt(N >= 1)
    s = spa.sph
    n = np.arange(N + 1)
    d = np.array(c['d'])
    dcos = np.cos(d)
    leg = np.array([ref.legendre(k, dcos) for k in n])
    for nm, cn, kind in [
            ('cardioid', s.cardioid_modal_weights(N), 'card'),
            ('hypercardioid', s.hypercardioid_modal_weights(N), 'hyper'),
            ('max-rE', s.maxre_modal_weights(N), 'maxre')]:
        t.require(np.shape(cn) == (N + 1,), f'{nm} shape')
        t.close(((2 * n + 1) / (4 * np.pi) * cn) @ leg,
                pattern(kind, N, dcos), f'{nm} pattern', atol=1e-8)
        t.close(s.bandlimited_dirac(N, d, cn), pattern(kind, N, dcos),
                f'{nm} by bandlimited_dirac', atol=1e-8)
    raw = np.array([float(ref.legendre(k, np.array(np.cos(
        C137 / (N + 1.51))))) for k in n])
    t.close(s.max_rE_weights(N), raw, 'max_rE_weights')
    t.close(s.maxre_modal_weights(N, UNITAMP=False), raw, 'max-rE, raw')
    bw = 1 / np.sqrt(1 + (n / c['n_c']) ** (2 * c['k']))
    t.close(s.butterworth_modal_weights(N, c['k'], c['n_c'], UNITAMP=False),
            bw, 'butterworth, raw')
    norm = np.sum((2 * n + 1) / (4 * np.pi) * bw)
    t.close(s.butterworth_modal_weights(N, c['k'], c['n_c']), bw / norm,
            'butterworth')
    t.close(s.unity_gain(bw), bw / norm, 'unity_gain')
    # steep filters, cut at an integer order
    st_ = 1 / np.sqrt(1 + (n / c['cut']) ** (2. * c['steep']))
    t.close(s.butterworth_modal_weights(N, c['steep'], c['cut'],
                                        UNITAMP=False), st_,
            'butterworth, steep')
    t.close(s.butterworth_modal_weights(N, c['steep'], c['cut']),
            st_ / np.sum((2 * n + 1) / (4 * np.pi) * st_),
            'butterworth, steep, unit amplitude')
    t.close(s.unity_gain(list(raw)), s.maxre_modal_weights(N), 'unity_gain')
    t.close(s.bandlimited_dirac(N, d), ((2 * n + 1) / (4 * np.pi)) @ leg,
            'bandlimited_dirac')
    t.close(s.bandlimited_dirac(N, 0.), [(N + 1) ** 2 / (4 * np.pi)],
            'dirac at zero')
    for lv in (1e-6, 20., -1., 1e6):
        t.close(s.unity_gain(bw * lv), bw / norm, 'unity_gain of any level')
        t.close(s.bandlimited_dirac(N, d, bw * lv) / lv,
                s.bandlimited_dirac(N, d, bw), 'weights of any level')


@R.sub(dict(N=st.integers(0, 15), seed=gen.seeds, kind=gen.kinds), quick=60)
def per_order(c, t):
    """Each coefficient of order n appears 2n+1 times, in ACN order."""
    N = c['N']
    t.nt(N >= 1)
    x = gen.rng(c['seed']).standard_normal(N + 1)
    t.close(spa.sph.repeat_per_order(gen.as_kind(x, c['kind'])),
            x[ref.orders(N)], 'repeat_per_order')


@R.sub(dict(N=st.integers(1, 6), seed=gen.seeds), quick=40)
def max_di(c, t):
    """No modal weighting has a higher directivity than 'hypercardioid', and
    none a larger rE than 'max-rE' (to the accuracy of its formula)."""
    N = c['N']
    t.nt()
    r = gen.rng(c['seed'])
    n = np.arange(N + 1)

    def di(cn):
        return np.sum((2 * n + 1) * cn) ** 2 / np.sum((2 * n + 1) * cn ** 2)

    def rE(cn):
        return np.sum(2 * n[1:] * cn[1:] * cn[:-1]) / \
            np.sum((2 * n + 1) * cn ** 2)
    h = spa.sph.hypercardioid_modal_weights(N)
    m = spa.sph.maxre_modal_weights(N)
    t.close(di(h), (N + 1.) ** 2, 'directivity factor')
    for k in range(20):
        o = np.abs(h + r.standard_normal(N + 1) * r.choice([.1, 1.]))
        t.require(di(o) <= di(h) * (1 + 1e-9), 'larger directivity')
        o = m / m[0] + r.standard_normal(N + 1) * r.choice([.02, .1, 1.])
        t.require(rE(o) <= rE(m) + 5e-3, 'larger rE')


@R.sub(dict(L=st.integers(1, 8), S=st.integers(1, 4), seed=gen.seeds,
            zero=st.integers(-1, 3), unit=st.booleans(), level=gen.levels),
       quick=120)
def energy_vector(c, t):
    """r_E is the energy weighted mean position; silent rows give magnitude
    zero."""
    r = gen.rng(c['seed'])
    p = gen.rand_vecs(r, c['L'])
    if not c['unit']:
        p = p * r.uniform(.5, 2, (c['L'], 1))
    g = r.standard_normal((c['S'], c['L'])) * c['level']
    if c['seed'] % 3 == 0:
        g = g * 10. ** -np.arange(c['S'])[:, None]
    z = c['zero']
    if 0 <= z < c['S']:
        g[z] = 0
    t.nt(c['L'] > 1)
    rE, mag = spa.sph.r_E(p, g)
    t.require(np.shape(rE) == (c['S'], 3) and np.shape(mag) == (c['S'],),
              'shape')
    for k in range(c['S']):
        if k == z:
            t.close(mag[k], 0., 'silent row')
            continue
        if 0 <= z < c['S']:
            # a silent row must not spoil the others
            pass
        e = (g[k] ** 2 @ p) / np.sum(g[k] ** 2)
        t.close(mag[k], np.linalg.norm(e), f'magnitude {k}')
        t.close(rE[k], e, f'vector {k}')
    x, y, zz = spa.sph.project_on_sphere(*(2.5 * p.T))
    pu = p / np.linalg.norm(p, axis=1)[:, None]
    t.close(np.c_[x, y, zz], pu, 'project_on_sphere')


@R.sub(dict(N=st.integers(0, 6), n=gen.bulk, seed=gen.seeds,
            pat=st.sampled_from(sorted(PATS))), quick=40)
def forms(c, t):
    """Any number of beams, samples, angles and gains, each treated on its
    own, in any layout and number type."""
    t.single = 1e-4  # parts work in single precision
    N, n = c['N'], c['n']
    t.nt(N >= 1 and n > 1)
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, n)
    cn = r.standard_normal(N + 1)
    pa, s = spa.parsa, spa.sph
    for p in (c['pat'], cn):
        t.rows(lambda i: pa.sh_beamformer_from_pattern(p, N, a[i], z[i]), n,
               'beams', c['seed'])
    t.forms(lambda x: pa.sh_beamformer_from_pattern(x, N, a[:9], z[:9]), cn,
            'modal weights')
    t.close(pa.sh_beamformer_from_pattern(list(cn), N, list(a), list(z)),
            pa.sh_beamformer_from_pattern(cn, N, a, z), 'lists')
    w = r.standard_normal((3, (N + 1) ** 2))
    x = r.standard_normal(((N + 1) ** 2, n))
    t.rows(lambda i: pa.sh_beamform(w, x[:, i]), n, 'samples', c['seed'],
           axis=1)
    t.forms(lambda v: pa.sh_beamform(w, v), x[:, :9], 'samples')
    t.forms(lambda v: pa.sh_beamform(v, x[:, :9]), w, 'weights')
    t.linear(lambda v: pa.sh_beamform(v, x[:, :9]), w, 'weights',
             columns=False)
    wc = w + 1j * r.standard_normal(w.shape)
    xc = x + 1j * r.standard_normal(x.shape)
    for i in (w, wc):
        for j in (x, xc):
            t.close(pa.sh_beamform(i, j), i @ j, 'complex beamforming',
                    atol=1e-8)
    d = r.uniform(-7, 7, n)
    t.rows(lambda i: s.bandlimited_dirac(N, d[i], cn), n, 'angles',
           c['seed'])
    t.forms(lambda v: s.bandlimited_dirac(N, v, cn), d[:20], 'angles')
    t.forms(lambda v: s.bandlimited_dirac(N, d[:20], v), cn, 'weights')
    t.linear(lambda v: s.bandlimited_dirac(N, d[:20], v), cn, 'weights',
             columns=False)
    t.forms(lambda v: s.unity_gain(v), np.abs(cn) + 1, 'unity_gain')
    t.forms(s.repeat_per_order, cn, 'repeat_per_order')
    L = 4
    g, p = r.standard_normal((n, L)), gen.rand_vecs(r, L)
    t.rows(lambda i: s.r_E(p, g[i])[0], n, 'r_E', c['seed'])
    t.rows(lambda i: s.r_E(p, g[i])[1], n, '|r_E|', c['seed'])
    t.forms(lambda v: s.r_E(p, v), g[:9] + .1, 'r_E gains')
    t.forms(lambda v: s.r_E(v, g[:9]), p, 'r_E positions')
    for lv in (1e-30, 1e-9, -1., 1e9):
        t.same(s.r_E(p, g[:9] * lv), s.r_E(p, g[:9]), 'r_E level')
        t.same(s.r_E(p * abs(lv), g[:9])[0] / abs(lv), s.r_E(p, g[:9])[0],
               'r_E radius')
    v = r.standard_normal((n, 3))
    t.rows(lambda i: np.array(s.project_on_sphere(*v[i].T)), n, 'projection',
           c['seed'], axis=1)
    for lv in (1e-9, 1e9):
        t.same(s.project_on_sphere(*lv * v.T), s.project_on_sphere(*v.T),
               'projection of any radius')
