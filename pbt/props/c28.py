"""C28 spherical Hankel functions, mode strength, pressure on a sphere."""
import math

import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C28', 'orders 0..75, arguments 0.01..150 (log spread) as '
                  'scalars and arrays; non-trivial: order >= 1')
XG, WG = np.polynomial.legendre.leggauss(240)
OK = 1e150          # magnitudes kept away from overflow


def hn2(n, z):
    """Finite closed form of h_n^(2), its upward recurrence from 20 on."""
    z = np.asarray(z, complex)
    if n > 20:
        a, b = hn2(19, z), hn2(20, z)
        for k in range(20, n):
            a, b = b, (2 * k + 1) / z * b - a
        return b
    s = 0
    for k in range(n + 1):
        c = math.factorial(n + k) / (math.factorial(k) *
                                     math.factorial(n - k))
        s = s + (-1j) ** k * c / (2 * z) ** k
    return 1j ** (n + 1) * np.exp(-1j * z) / z * s


def dhn2(n, z):
    if n == 0:
        return -hn2(1, z)
    return hn2(n - 1, z) - (n + 1) / np.asarray(z, complex) * hn2(n, z)


def jn(n, z):
    """Plane wave moment (absolute accuracy), ascending series when small."""
    z = np.asarray(z, float)
    zz = np.atleast_1d(z)
    c = np.zeros(n + 1)
    c[n] = 1
    p = np.polynomial.legendre.legval(XG, c)
    out = np.real(.5 * (-1j) ** n * np.sum(
        WG * p * np.exp(1j * zz[:, None] * XG), axis=1))
    small = zz ** 2 < 4 * (2 * n + 3)
    if small.any():
        x = zz[small]
        dd = 1.
        for k in range(1, 2 * n + 2, 2):
            dd *= k
        term = x ** n / dd
        s = np.zeros_like(x)
        for k in range(60):
            s += term
            term = term * (-x ** 2 / 2) / ((k + 1) * (2 * n + 2 * k + 3))
        out[small] = s
    return out.reshape(z.shape)


def args(c):
    r = gen.rng(c['seed'])
    if c['lin']:
        z = r.uniform(.01, c['top'], c['n'])
    else:
        z = 10 ** r.uniform(-2, math.log10(c['top']), c['n'])
    if c['low']:
        z[0] = .01
    return z


base = dict(seed=gen.seeds, n=st.integers(1, 12), lin=st.booleans(),
            low=st.booleans(), N=gen.order(20, 75),
            top=st.sampled_from([60., 60., 150.]))


def rel(t, got, want, msg, tol=1e-8, floor=0.):
    """Relative to each value; values that overflow are left out."""
    want = np.asarray(want)
    got = np.asarray(got)
    t.require(got.shape == want.shape, f'{msg}: shape {got.shape}')
    ok = np.abs(want) < OK
    t.require(np.all(np.isfinite(got[ok])), f'{msg}: not finite')
    e = np.abs(got[ok] - want[ok]) - floor
    bad = e > tol * np.abs(want[ok])
    t.require(not bad.any(), f'{msg}: {got[ok][bad][:3]}, expected '
              f'{want[ok][bad][:3]}')


@R.sub(dict(base, im=st.sampled_from([0., 0., .5, -.5]), der=st.booleans(),
            many=st.booleans()), quick=500)
def hankel(c, t):
    """spherical_hn2 and its derivative equal the closed form."""
    z = args(c)
    if c['im']:
        z = z + 1j * c['im']
    N = c['N']
    f = dhn2 if c['der'] else hn2
    t.nt(N >= 1)
    t.label('derivative' if c['der'] else 'value')
    kw = {'derivative': True} if c['der'] else {}
    if c['many']:
        want = np.array([f(k, z) for k in range(N + 1)])
        got = spa.sph.spherical_hn2(np.arange(N + 1)[:, None], z[None, :],
                                    **kw)
        rel(t, got, want, 'array of orders', 1e-7)
    else:
        rel(t, spa.sph.spherical_hn2(N, z, **kw), f(N, z), 'one order', 1e-7)
        rel(t, spa.sph.spherical_hn2(N, z[0], **kw), f(N, z[0]), 'scalar',
            1e-7)


@R.sub(dict(base, scalar=st.booleans(), default=st.booleans()), quick=500)
def rigid(c, t):
    """Wronskian form of the rigid sphere: 4 pi i^(n-1) / (kr^2 h_n'(kr))."""
    kr, n = args(c), c['N']
    want = 4 * np.pi * 1j ** (n - 1) / (kr ** 2 * dhn2(n, kr))
    ok = np.abs(dhn2(n, kr)) < OK
    kr, want = kr[ok], want[ok]
    if not kr.size:
        t.skip('overflow')
    t.nt(n >= 1)
    a = () if c['default'] else ('rigid',)
    if c['scalar']:
        rel(t, spa.sph.mode_strength(n, kr[0], *a), want[0], 'scalar', 1e-7)
    else:
        rel(t, spa.sph.mode_strength(n, kr, *a), want, 'rigid', 1e-7)


@R.sub(dict(base, scalar=st.booleans()), quick=400)
def open_sphere(c, t):
    """Open sphere: 4 pi i^n j_n(kr)."""
    kr, n = args(c), c['N']
    want = 4 * np.pi * 1j ** n * jn(n, kr)
    t.nt(n >= 1)
    if c['scalar']:
        kr, want = kr[0], want[0]
    rel(t, spa.sph.mode_strength(n, kr, 'open'), want, 'open', 1e-7, 1e-11)


@R.sub(dict(seed=gen.seeds, kr=gen.floats(.05, 15),
            kind=st.sampled_from(['open', 'rigid'])), quick=150)
def plane_wave(c, t):
    """The series with the mode strengths is the pressure of a plane wave: on
    the open sphere the wave itself; on the rigid sphere its scattered part
    continues an outgoing wave that cancels the radial velocity."""
    kr = c['kr']
    ct = gen.rng(c['seed']).uniform(-1, 1, 6)
    M = int(2 * kr + 30)
    P = np.polynomial.legendre.legvander(ct, M)
    b = np.array([spa.sph.mode_strength(n, kr, c['kind'])
                  for n in range(M + 1)])
    w = (2 * np.arange(M + 1) + 1) / (4 * np.pi)
    p = P @ (w * b)
    t.nt(True)
    t.label(c['kind'])
    inc = np.exp(1j * kr * ct)
    if c['kind'] == 'open':
        t.close(p, inc, 'plane wave', atol=1e-8)
        return
    # scattered coefficients per order from p_total - p_incident, projected
    # on the outgoing function, then radial derivative of the total field
    n = np.arange(M + 1)
    bi = np.array([4 * np.pi * 1j ** k * jn(k, kr) for k in n])
    h = np.array([hn2(k, kr) for k in n])
    dh = np.array([dhn2(k, kr) for k in n])
    keep = n <= max(3, 1.3 * kr)
    vel = np.sum((P * (w * (b - bi) / h * dh))[:, keep], axis=1)
    dinc = np.zeros(len(ct), complex)
    for k in n[keep]:
        q = np.polynomial.legendre.legval(XG, np.eye(k + 1)[k])
        coef = np.sum(WG * q * 1j * XG * np.exp(1j * kr * XG)) / 2
        dinc += (2 * k + 1) * coef * P[:, k]
    t.close(vel, -dinc, 'radial velocity on the surface', atol=1e-6)


def pressure(N, kr, w=None):
    w = np.ones(N + 1) if w is None else np.asarray(w, float)
    s = sum(w[n] * (2 * n + 1) *
            np.abs(4 * np.pi / (kr ** 2 * dhn2(n, kr))) ** 2
            for n in range(N + 1))
    return np.sqrt(s) / (4 * np.pi)


def taper(c, N):
    r = gen.rng(c['seed'] + 7)
    k = c['w']
    if k == 'none':
        return None
    if k == 'rE':
        return spa.sph.max_rE_weights(N)
    if k == 'hann':
        return np.hanning(2 * N + 3)[N + 1:-1]
    w = r.uniform(.1, 1.2, N + 1)
    if k == 'zeros':
        w[r.uniform(size=N + 1) < .4] = 0
        w[r.integers(N + 1)] = 1
    elif k == 'one order':
        w = np.eye(N + 1)[r.integers(N + 1)]
    return w


tapers = st.sampled_from(['none', 'rE', 'hann', 'random', 'zeros',
                          'one order'])


@R.sub(dict(base, w=tapers, scalar=st.booleans()), quick=400)
def on_sphere(c, t):
    """pressure_on_sphere is the weighted sum over all orders, for every
    order and weighting, and each frequency on its own."""
    kr, N = args(c), c['N']
    kr = kr[np.abs(dhn2(N, kr)) < OK]
    if not kr.size:
        t.skip('overflow')
    w = taper(c, N)
    want = pressure(N, kr, w)
    kw = {} if w is None else {'weights': w}
    t.nt(N >= 1)
    t.label(c['w'])
    rel(t, spa.sph.pressure_on_sphere(N, kr, **kw), want, 'pressure', 1e-7)
    if c['scalar']:
        rel(t, spa.sph.pressure_on_sphere(N, kr[:1], **kw), want[:1],
            'one frequency', 1e-7)


@R.sub(dict(seed=gen.seeds, N=gen.order(12, 75), w=tapers,
            r0=st.sampled_from([None, .0875, .03, .1, .3, 1.]),
            n=st.integers(2, 40), top=st.sampled_from([2e3, 8e3, 2e4, 24e3]),
            lo=st.sampled_from([.01, .05, .5]), dc=st.booleans()), quick=400)
def coloration(c, t):
    """The compensation restores the diffuse pressure of the full order."""
    N = c['N']
    f = np.sort(gen.rng(c['seed']).uniform(
        c['lo'] * c['top'], c['top'], c['n']))
    f[-1] = c['top']
    r0 = c['r0'] or .0875
    kr = 2 * np.pi * f / 343 * r0
    full = int(np.ceil(kr[-1]))
    if full > 75 or not np.abs(dhn2(max(N, full), kr[0])) < OK:
        t.skip('overflow')
    w = taper(c, N)
    kw = {} if c['r0'] is None else {'r_0': c['r0']}
    if w is not None:
        kw['w_taper'] = w
    arg = np.r_[0, f] if c['dc'] else f
    g = spa.sph.binaural_coloration_compensation(N, arg, **kw)
    t.nt(full > N)
    t.label(f'full order {"above" if full > N else "at most"} N')
    t.require(g.shape == arg.shape, f'shape {g.shape}')
    t.require(np.all(np.isfinite(g)), 'not finite')
    g = g[-len(f):]
    rel(t, g * pressure(N, kr, w), pressure(full, kr), 'compensated', 1e-7)
    if w is None and full > N:
        t.require(np.all(g >= 1 - 1e-9), 'attenuates the truncated field')


@R.sub(dict(seed=gen.seeds, N=gen.order(12, 40), n=gen.bulk,
            f=st.integers(0, 6)), quick=150)
def many(c, t):
    """Every argument of an array on its own, for any number of them, in any
    order, any shape; whole numbers and scalars as well."""
    r = gen.rng(c['seed'])
    N, n = c['N'], max(2, c['n'])
    kr = 10 ** r.uniform(np.log10(max(.02, .02 * N)), 1.7, n)
    w = r.uniform(.1, 1, N + 1)
    s = spa.sph
    name, f = [
        ('open', lambda x: s.mode_strength(N, x, 'open')),
        ('rigid', lambda x: s.mode_strength(N, x)),
        ('hn2', lambda x: s.spherical_hn2(N, x)),
        ("hn2'", lambda x: s.spherical_hn2(N, x, True)),
        ('pressure', lambda x: s.pressure_on_sphere(N, x)),
        ('weighted', lambda x: s.pressure_on_sphere(N, x, w)),
        ('orders', lambda x: np.stack([s.mode_strength(k, x)
                                       for k in range(N + 1)], -1))][c['f']]
    t.nt(n > 20)
    t.label(name)
    y = np.asarray(f(kr))
    t.rows(lambda i: f(kr[i]), n, name, c['seed'], rtol=1e-10, atol=0)
    k = n // 2
    if y.ndim == 1:
        t.same(f(kr[:2 * k].reshape(2, k)), y[:2 * k].reshape(2, k),
               f'{name}: 2-D', atol=1e-12)
    t.same(f(np.asfortranarray(kr[::-1])[::-1]), y, f'{name}: view',
           atol=1e-12)
    j = np.arange(1, 2 + n % 40)
    t.same(f(j), f(j.astype(float)), f'{name}: whole numbers', atol=1e-12)
    t.same(f(j.astype(np.int32)), f(j.astype(float)), f'{name}: int32',
           atol=1e-12)


@R.sub(dict(seed=gen.seeds, N=gen.order(10, 30), n=gen.bulk,
            r0=st.sampled_from([.02, .05, .0875, .2]), ints=st.booleans()),
       quick=30)
def coloration_grids(c, t):
    """The gain at a frequency does not depend on how many others are asked
    for below the highest one."""
    r = gen.rng(c['seed'])
    N, n = c['N'], max(3, c['n'])
    kr0 = max(.05, .04 * N)
    lo = kr0 * 343 / (2 * np.pi * c['r0'])
    f = np.sort(r.uniform(lo, max(16000, 2 * lo), n))
    if c['ints']:
        f = np.unique(np.rint(f))
        n = len(f)
        if n < 3:
            t.skip('one frequency')
    w = r.uniform(.2, 1, N + 1)
    g = spa.sph.binaural_coloration_compensation
    y = g(N, f, c['r0'], w)
    t.nt(n > 10)
    t.require(y.shape == f.shape, f'shape {y.shape}')
    i = np.unique(np.r_[r.integers(0, n, 5), n - 1])
    t.same(g(N, f[i], c['r0'], w), y[i], 'subset', atol=1e-12)
    if c['ints']:
        t.same(g(N, f.astype(int), c['r0'], w), y, 'whole numbers',
               atol=1e-12)
    # scaled head, scaled frequencies
    q = float(r.uniform(.3, 3))
    t.same(g(N, f / q, c['r0'] * q, w), y, 'scaled head', rtol=1e-6,
           atol=1e-9)
    t.same(g(N, f, c['r0'], 10 * w) * np.sqrt(10), y, 'scaled taper')
