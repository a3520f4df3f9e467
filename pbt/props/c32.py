"""C32 plots show the data they are given: figures are read back."""
import contextlib
import copy
import warnings

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib import colors as mcolors  # noqa: E402
from mpl_toolkits.mplot3d import art3d  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
import spaudiopy as spa  # noqa: E402
from pbt import core, gen, ref, setups  # noqa: E402

R = core.Registry('C32', 'values of the drawn artists compared to an own '
                  'calculation from the input; non-trivial: more than one '
                  'distinct value drawn')
PI = np.pi


@contextlib.contextmanager
def fresh():
    plt.close('all')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            yield
        finally:
            plt.close('all')


def db(x):
    return 20 * np.log10(np.clip(np.abs(x), 1e-14, None))


def wrap(azi):
    """To [-pi, pi], pi itself stays."""
    azi = np.asarray(azi, float)
    return np.where(azi > PI, azi - 2 * PI, azi)


def kept(t, before, after, what):
    for k, (a, b) in enumerate(zip(before, after)):
        if isinstance(a, (np.ndarray, list, tuple)):
            t.require(np.array_equal(np.asarray(a, dtype=object),
                                     np.asarray(b, dtype=object))
                      if not isinstance(a, np.ndarray)
                      else np.array_equal(a, b, equal_nan=True),
                      f"{what}: argument {k} changed")


def lims(t, ax, x=None, y=None):
    for got, want, n in ((ax.get_xlim(), x, 'x'), (ax.get_ylim(), y, 'y')):
        t.require(np.all(np.isfinite(got)) and got[0] != got[1],
                  f"{n} limits {got}")
        if want is not None:
            t.close(np.sort(got), np.sort(want), f"{n} limits", rtol=1e-9)


def curves(ax):
    """The lines of an axes that hold data."""
    return [ln for ln in ax.get_lines() if len(ln.get_xdata()) > 0]


# frequency responses ---------------------------------------------------------
@R.sub(dict(seed=gen.seeds, n=st.integers(2, 300), k=st.integers(1, 4),
            fs=st.sampled_from([8000, 44100, 48000, 96000]),
            scale=st.booleans(), todb=st.booleans(),
            single=st.booleans(), own=st.booleans(),
            amp=st.sampled_from([1e-6, 1., 1e4])), quick=60)
def spectrum(c, t):
    r = gen.rng(c['seed'])
    n, k = c['n'], c['k']
    x = [c['amp'] * r.standard_normal(n) for _ in range(k)]
    if c['single']:
        k, x = 1, x[:1]
    F = np.exp(-2j * PI * np.outer(np.arange(n // 2 + 1), np.arange(n)) / n)
    with fresh():
        arg = x[0] if c['single'] else list(x)
        b4 = copy.deepcopy(arg)
        kw = {}
        if c['own']:
            _, axs = plt.subplots(1, 2)
            kw = dict(ax=axs[0], title='T')
        spa.plot.spectrum(arg, c['fs'], scale_mag=c['scale'],
                          TODB=c['todb'], **kw)
        kept(t, [b4], [arg], 'spectrum')
        ax = axs[0] if c['own'] else plt.gcf().axes[0]
        if c['own']:
            t.require(ax.get_title() == 'T' and not axs[1].get_title(),
                      "title is not at the given axes")
            t.require(not axs[1].get_lines(), "drawn into the other axes")
        ln = curves(ax)
        t.require(len(ln) == k, f"{len(ln)} lines for {k} signals")
        mx = -np.inf
        for i in range(k):
            m = np.abs(F @ x[i]) / n
            m[1:] *= 2
            if c['scale']:
                m = m * n / 2
            t.close(ln[i].get_xdata(), np.arange(n // 2 + 1) * c['fs'] / n,
                    "frequencies", rtol=1e-9)
            e = db(m) if c['todb'] else m
            # tiny bins differ by rounding
            big = m > 1e-9 * m.max()
            t.close(np.asarray(ln[i].get_ydata())[big], e[big],
                    f"magnitudes of signal {i}", rtol=1e-6, atol=1e-5
                    if c['todb'] else 1e-12)
            mx = max(mx, e.max())
        lims(t, ax, (20, 24000))
        if np.isfinite(mx):
            t.close(np.sort(ax.get_ylim()), [mx - 30, mx], "y limits",
                    atol=1e-5)
        t.require(ax.get_xscale() == 'log', "frequency axis not log")
    t.nt()


@R.sub(dict(seed=gen.seeds, n=st.integers(2, 200), k=st.integers(1, 4),
            todb=st.booleans(), cplx=st.booleans(), zero=st.booleans(),
            smooth=st.sampled_from([None, None, 1, 3, 8]),
            labels=st.sampled_from(['none', 'list', 'one']),
            ylim=st.sampled_from([30, 60, 'pair']),
            own=st.booleans(), twice=st.booleans()), quick=60)
def freq_resp(c, t):
    r = gen.rng(c['seed'])
    n = c['n'] if c['smooth'] is None else max(c['n'], 40)
    k = 1 if c['labels'] == 'one' else c['k']
    f = np.linspace(0, 24000, n)
    cplx = c['cplx'] and c['todb']
    H = [r.standard_normal(n) + (1j * r.standard_normal(n) if cplx else 0)
         for _ in range(k)]
    if c['zero'] and c['todb']:
        H[0][n // 2] = 0.
    lab = {'none': None, 'list': [f'L{i}' for i in range(k)],
           'one': 'L0'}[c['labels']]
    yl = (-12.5, 7.) if c['ylim'] == 'pair' else c['ylim']
    with fresh():
        arg = H[0] if k == 1 and c['seed'] % 2 else list(H)
        b4 = copy.deepcopy([f, arg, lab])
        axs = plt.subplots(1, 2)[1] if c['own'] else None
        kw = dict(ax=axs[0]) if c['own'] else {}
        for _ in range(2 if c['twice'] and not c['own'] else 1):
            spa.plot.freq_resp(f, arg, TODB=c['todb'], labels=lab, ylim=yl,
                               smoothing_n=c['smooth'], title='T', **kw)
        kept(t, b4, [f, arg, lab], 'freq_resp')
        ax = axs[0] if c['own'] else plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title missing at the given axes")
        ln = curves(ax)
        t.require(len(ln) == k, f"{len(ln)} lines for {k} responses")
        E = [db(h) if c['todb'] else h for h in H]
        if c['smooth'] is not None:
            E = [spa.process.frac_octave_smoothing(e, c['smooth'],
                                                   WEIGHTED=True) for e in E]
        for i in range(k):
            t.close(ln[i].get_xdata(), f, "frequencies")
            t.close(np.ravel(ln[i].get_ydata()), np.ravel(E[i]),
                    f"response {i}", rtol=1e-9, atol=1e-9)
        mx = max(np.max(e) for e in E)
        lims(t, ax, (20, 24000), yl if c['ylim'] == 'pair'
             else (mx - yl, mx))
        leg = ax.get_legend()
        if lab is not None:
            txt = [q.get_text() for q in leg.get_texts()]
            t.require(txt[:k] == [f'L{i}' for i in range(k)],
                      f"legend {txt}")
            cols = [mcolors.to_hex(h.get_color()) for h in leg.get_lines()]
            t.require(cols[:k] == [mcolors.to_hex(q.get_color())
                                   for q in ln], "legend colours")
        elif c['smooth'] is None:
            t.require(leg is None, "legend without labels")
    t.nt()


@R.sub(dict(seed=gen.seeds, n=st.integers(2, 300),
            delay=gen.floats(0, 20), zero=st.booleans()), quick=40)
def transfer_function(c, t):
    r = gen.rng(c['seed'])
    n = c['n']
    f = np.linspace(0, 24000, n)
    H = (1 + .3 * r.standard_normal(n)) * \
        np.exp(-1j * (c['delay'] * np.arange(n) / n +
                      .05 * r.standard_normal(n)))
    if c['zero']:
        H[r.integers(n)] = 0.
    with fresh():
        b4 = [f.copy(), H.copy()]
        spa.plot.transfer_function(f, H, title='T')
        kept(t, b4, [f, H], 'transfer_function')
        axs = plt.gcf().axes
        ln = [q for a in axs for q in curves(a)]
        mag = [q for q in ln if q.get_label() == 'Magnitude']
        ph = [q for q in ln if q.get_label() == 'Phase']
        t.require(len(mag) == 1 and len(ph) == 1, "magnitude, phase lines")
        t.require(mag[0].axes is not ph[0].axes, "one axis for both")
        t.close(mag[0].get_ydata(), db(H), "magnitude", rtol=1e-9)
        p = np.asarray(ph[0].get_ydata())
        w = np.abs(H) > 0
        t.close(np.exp(1j * p[w]), H[w] / np.abs(H[w]), "phase", atol=1e-9)
        t.require(np.all(np.abs(np.diff(p)) <= PI + 1e-9),
                  "phase not unwrapped")
        for q in (mag[0], ph[0]):
            t.close(q.get_xdata(), f, "frequencies")
        lims(t, mag[0].axes, (10, 25000))
        t.require('T' in [a.get_title() for a in axs], "title")
    t.nt()


@R.sub(dict(seed=gen.seeds, nz=st.integers(0, 6), np=st.integers(0, 6),
            z=st.booleans(), scale=st.sampled_from([.3, 1., 4.])), quick=40)
def zeropole(c, t):
    r = gen.rng(c['seed'])

    def roots(n):
        q = []
        while len(q) < n:
            v = c['scale'] * (r.standard_normal() + 1j * r.standard_normal())
            q += [v, np.conj(v)] if n - len(q) > 1 and r.integers(2) \
                else [v.real]
        return np.array(q, complex)
    Z, P = roots(c['nz']), roots(c['np'])
    b = 2.5 * np.atleast_1d(np.real(np.poly(Z)))
    a = np.atleast_1d(np.real(np.poly(P)))
    with fresh():
        b4 = [np.array(b), np.array(a)]
        spa.plot.zeropole(b, a, zPlane=c['z'], title='T')
        kept(t, b4, [np.array(b), np.array(a)], 'zeropole')
        ax = plt.gcf().axes[0]
        pts = {q.get_label(): np.asarray(q.get_offsets()).reshape(-1, 2)
               for q in ax.collections}
        for name, want in (('Zeros', Z), ('Poles', P)):
            got = pts[name] @ [1, 1j]
            t.require(len(got) == len(want), f"{len(got)} {name}")
            if len(want) == 0:
                continue
            d = np.abs(got[:, None] - want[None])
            t.require(np.max(np.min(d, 0)) < 1e-2 * c['scale'] and
                      np.max(np.min(d, 1)) < 1e-2 * c['scale'],
                      f"{name} at {got}, expected {want}")
            xl, yl = ax.get_xlim(), ax.get_ylim()
            t.require(np.all((got.real >= xl[0]) & (got.real <= xl[1]) &
                             (got.imag >= yl[0]) & (got.imag <= yl[1])),
                      f"{name} outside of the limits")
        lims(t, ax)
        if c['z']:
            t.require(min(*ax.get_xlim(), *ax.get_ylim()) <= -1.1 and
                      max(*ax.get_xlim()) >= 1.1 and
                      max(*ax.get_ylim()) >= 1.1 and
                      min(ax.get_ylim()) <= -1.1, "unit circle cut")
            cir = [q for q in ax.get_children()
                   if isinstance(q, matplotlib.patches.Circle)]
            t.require(len(cir) == 1 and cir[0].get_radius() == 1 and
                      tuple(cir[0].center) == (0, 0), "unit circle")
        t.require(ax.get_title() == 'T', "title")
    t.nt(c['nz'] + c['np'] > 1)


@R.sub(dict(seed=gen.seeds, n=st.integers(2, 200),
            fs=st.sampled_from([8000, 44100, 48000])), quick=20)
def compare_ambi(c, t):
    r = gen.rng(c['seed'])
    A = spa.sig.MultiSignal([*r.standard_normal((4, c['n']))], fs=c['fs'])
    B = spa.sig.AmbiBSignal([*r.standard_normal((4, c['n']))], fs=c['fs'])
    with fresh():
        spa.plot.compare_ambi(A, B)
        axs = plt.gcf().axes
        t.require(len(axs) == 2, "two axes")
        for ax, s, n in zip(axs, (A, B), 'AB'):
            ln = curves(ax)
            t.require(len(ln) == 4 and n in ax.get_title(), "four lines")
            for i in range(4):
                t.close(ln[i].get_xdata(), np.arange(c['n']) / c['fs'],
                        "time", rtol=1e-9, atol=1e-12)
                t.close(ln[i].get_ydata(), s.channels[i].signal,
                        f"{n} channel {i}")
    t.nt()


@R.sub(dict(seed=gen.seeds, n=st.integers(2, 200), neg=st.booleans(),
            todb=st.booleans(), ints=st.booleans(),
            rlim=st.sampled_from([None, None, [-60, 0], [-20, 6], [0, 2]]),
            own=st.booleans()), quick=60)
def polar(c, t):
    r = gen.rng(c['seed'])
    th = np.linspace(0, 2 * PI, c['n'])
    v = r.integers(-5, 6, c['n']) if c['ints'] else \
        r.standard_normal(c['n'])
    if not c['neg']:
        v = np.abs(v)
    rl = c['rlim']
    if rl is not None and (rl[0] < 0) != c['todb']:
        rl = None
    with fresh():
        b4 = [th.copy(), v.copy()]
        ax = plt.subplots(1, 2, subplot_kw=dict(projection='polar'))[1][0] \
            if c['own'] else None
        spa.plot.polar(th, v, TODB=c['todb'], rlim=rl, title='T', ax=ax)
        kept(t, b4, [th, v], 'polar')
        ax = ax or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        ln = {q.get_label(): q for q in curves(ax)}
        for name, mask in (('$+$', v >= 0), ('$-$', v < 0)):
            q = ln[name]
            t.close(q.get_xdata(), th, "angles")
            y = np.asarray(q.get_ydata(), float)
            t.require(np.all(np.isnan(y[~mask])), f"{name} line draws the "
                      "other sign")
            w = mask & (v != 0)
            e = 20 * np.log10(np.abs(v[w].astype(float))) if c['todb'] \
                else np.abs(v[w])
            t.close(y[w], e, f"radius of {name}", atol=1e-9)
            z = mask & (v == 0)
            if np.any(z):
                t.require(np.all(y[z] <= -200) if c['todb']
                          else np.all(y[z] == 0), "radius of zeros")
        lo, hi = rl or ([-40, 0] if c['todb'] else [0, 1])
        t.close([ax.get_rmin(), ax.get_rmax()],
                [lo, hi + (.5 if c['todb'] else .03)], "radial limits")
        t.close(ax.get_yticks(), np.linspace(lo, hi, 5), "radial ticks")
        t.require(abs(ax.get_theta_offset() - PI / 2) < 1e-9, "0 not on top")
        t.require(ax.get_theta_direction() == 1, "direction")
    t.nt()


# functions on the sphere -----------------------------------------------------
def scatters(ax):
    return [q for q in ax.collections
            if isinstance(q, matplotlib.collections.PathCollection)]


def xyz(q):
    return np.stack([np.asarray(v, float) for v in q._offsets3d], 1)


def box3(t, ax, lo, hi):
    for q in (ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()):
        t.close(q, (lo, hi), "axis limits", rtol=1e-6)


@R.sub(dict(seed=gen.seeds, n=st.integers(8, 80), cplx=st.booleans(),
            pos=st.booleans(), amp=st.sampled_from([.2, 1., 5.]),
            own=st.booleans()), quick=30)
def spherical_function(c, t):
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, c['n'])
    f = c['amp'] * r.uniform(.2 if c['pos'] else -1, 1, c['n'])
    arg = f + 0j if c['cplx'] else f.copy()
    with fresh():
        axs = plt.subplots(1, 2, subplot_kw=dict(projection='3d'))[1] \
            if c['own'] else [None]
        b4 = [arg.copy(), a.copy(), z.copy()]
        spa.plot.spherical_function(arg, a, z, title='T', ax=axs[0])
        kept(t, b4, [arg, a, z], 'spherical_function')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        sc = scatters(ax)
        t.require(len(sc) == 1, "scatter")
        t.close(xyz(sc[0]), ref.cart(a, z, np.abs(f)), "points", atol=1e-9)
        t.close(sc[0].get_array(), f, "values", atol=1e-12)
        t.close(sc[0].get_clim(), (min(0, f.min()), max(1, f.max())),
                "colour limits")
        box3(t, ax, -1, 1)
        # the surface consists of data points
        srf = [q for q in ax.collections
               if isinstance(q, art3d.Poly3DCollection)]
        p = srf[0]._vec[:3].T
        d = np.min(np.linalg.norm(p[:, None] - ref.cart(a, z,
                                                        np.abs(f))[None],
                                  axis=2), 1)
        t.require(d.max() < 1e-9, "surface vertex that is no data point")
    t.nt()


def rel_hue(col):
    m = np.max(col[:, :3], axis=1, keepdims=True)
    return col[:, :3] / m


def mesh(t, q, F, sh_type, na, ne, what, phase=True):
    """Surface of |f| over the grid, phase as colour."""
    azi, zen = np.meshgrid(np.linspace(0, 2 * PI, na),
                           np.linspace(1e-7, PI - 1e-7, ne))
    Y = ref.sh(int(np.sqrt(len(F))) - 1, azi.ravel(), zen.ravel(), sh_type)
    v = (Y @ F)
    P = ref.cart(azi.ravel(), zen.ravel(), np.abs(v)).reshape(ne, na, 3)
    ve = q._vec[:3].T.reshape(-1, 4, 3)
    t.require(len(ve) == (na - 1) * (ne - 1), f"{what}: {len(ve)} patches")
    want = np.stack([P[:-1, :-1], P[:-1, 1:], P[1:, 1:], P[1:, :-1]], 2)
    want = want.reshape(-1, 4, 3)
    sc = max(1, np.abs(v).max())
    if np.max(np.abs(ve - want)) > 2e-6 * sc:
        # any order of patches and corners
        ve2 = ve.reshape(-1, 3)
        w2 = want.reshape(-1, 3)
        d = np.linalg.norm(ve2[:, None] - w2[None], axis=2)
        t.require(max(d.min(0).max(), d.min(1).max()) < 2e-6 * sc,
                  f"{what}: surface is not |f|, off by {d.min(1).max():.3g}")
        return
    if not phase:
        return
    v = v.reshape(ne, na)[:-1, :-1].ravel()
    ang = np.angle(v)
    ok = (np.abs(v) > 1e-3 * np.abs(v).max()) & (PI - np.abs(ang) > .05)
    exp = plt.get_cmap('hsv')((ang + PI) / (2 * PI))
    got = q._facecolor3d
    t.require(got.shape[0] == len(v), f"{what}: facecolours")
    d = np.abs(rel_hue(got) - rel_hue(exp)).max(1)
    t.require(np.all(d[ok] < .08),
              f"{what}: colour is not the phase: {np.sum(d[ok] >= .08)} of "
              f"{np.sum(ok)} patches")
    neg = (np.abs(v) > 1e-3 * np.abs(v).max()) & (PI - np.abs(ang) < .05)
    t.require(np.all(np.abs(rel_hue(got)[neg] - [[1, 0, 0]]).max(1) < .25),
              f"{what}: colour of negative values")


def coeffs(r, N, kind):
    F = r.standard_normal((N + 1) ** 2)
    if kind == 'complex':
        F = F + 1j * r.standard_normal((N + 1) ** 2)
    return F


def surfaces(ax):
    return [q for q in ax.collections
            if isinstance(q, art3d.Poly3DCollection)]


sh_case = dict(seed=gen.seeds, Ns=st.lists(st.integers(0, 4), min_size=1,
                                           max_size=4),
               types=st.lists(st.sampled_from(['real', 'complex']),
                              min_size=4, max_size=4),
               given=st.sampled_from([None, None, 'complex']),
               azi=st.sampled_from([12, 20, 30]),
               ele=st.sampled_from([10, 15, 30]), own=st.booleans())


def sh_inputs(c):
    r = gen.rng(c['seed'])
    return [coeffs(r, N, k) for N, k in zip(c['Ns'], c['types'])]


@R.sub(sh_case, quick=25)
def sh_coeffs(c, t):
    F = sh_inputs(c)[0]
    typ = c['given'] or c['types'][0]
    kw = dict(azi_steps=c['azi'], el_steps=c['ele'])
    with fresh():
        axs = plt.subplots(1, 2, subplot_kw=dict(projection='3d'))[1] \
            if c['own'] else [None]
        b4 = F.copy()
        spa.plot.sh_coeffs(F, sh_type=c['given'], title='T', ax=axs[0], **kw)
        kept(t, [b4], [F], 'sh_coeffs')
        ax = axs[0] or plt.gcf().axes[0]
        q = surfaces(ax)
        t.require(len(q) == 1 and ax.get_title() == 'T', "one surface")
        mesh(t, q[0], F, typ, 360 // c['azi'], 180 // c['ele'], 'sh_coeffs')
        box3(t, ax, -1, 1)
    t.nt(len(F) > 1)


@R.sub(sh_case, quick=20)
def sh_coeffs_subplot(c, t):
    Fs = sh_inputs(c)
    kw = dict(azi_steps=c['azi'], el_steps=c['ele'], title='S')
    if c['given']:
        kw['sh_type'] = c['given']
    with fresh():
        tt = [f'T{i}' for i in range(len(Fs))]
        b4 = copy.deepcopy(Fs)
        fig = plt.figure() if c['own'] else None
        if fig is not None:
            plt.figure()
        spa.plot.sh_coeffs_subplot(Fs, titles=tt, fig=fig, **kw)
        kept(t, b4, Fs, 'sh_coeffs_subplot')
        fig = fig or plt.gcf()
        t.require(fig._suptitle is not None and
                  fig._suptitle.get_text() == 'S', "figure title")
        axs = [a for a in fig.axes if hasattr(a, 'get_zlim3d')]
        t.require(len(axs) == len(Fs), f"{len(axs)} subplots")
        for i, ax in enumerate(axs):
            t.require(ax.get_title() == tt[i], "title")
            q = surfaces(ax)
            t.require(len(q) == 1, "one surface per subplot")
            mesh(t, q[0], Fs[i], c['given'] or c['types'][i],
                 360 // c['azi'], 180 // c['ele'], f'subplot {i}')
    t.nt(len(Fs) > 1)
    t.label(len(Fs))


@R.sub(sh_case, quick=20)
def sh_coeffs_overlay(c, t):
    Fs = sh_inputs(c)
    with fresh():
        axs = plt.subplots(1, 2, subplot_kw=dict(projection='3d'))[1] \
            if c['own'] else [None]
        b4 = copy.deepcopy(Fs)
        spa.plot.sh_coeffs_overlay(Fs, sh_type=c['given'],
                                   azi_steps=c['azi'], el_steps=c['ele'],
                                   title='T', ax=axs[0])
        kept(t, b4, Fs, 'sh_coeffs_overlay')
        ax = axs[0] or plt.gcf().axes[0]
        q = surfaces(ax)
        t.require(len(q) == len(Fs) and ax.get_title() == 'T',
                  f"{len(q)} surfaces")
        hues = []
        for i in range(len(Fs)):
            mesh(t, q[i], Fs[i], c['given'] or c['types'][i],
                 360 // c['azi'], 180 // c['ele'], f'overlay {i}',
                 phase=False)
            hues.append(np.median(rel_hue(q[i]._facecolor3d), axis=0))
        for i in range(len(Fs)):
            for j in range(i):
                t.require(np.max(np.abs(hues[i] - hues[j])) > .05,
                          f"surfaces {i} and {j} have the same colour")
        box3(t, ax, -1, 1)
    t.nt(len(Fs) > 1)


# maps ------------------------------------------------------------------------
def contours(ax):
    q = [q for q in ax.collections if hasattr(q, 'levels')]
    return q[0] if q else None


def drawn(cs, pts):
    """(lower, upper) level of the filled band drawn at each point, NaN
    where nothing is drawn."""
    out = np.full((len(pts), 2), np.nan)
    for k, p in enumerate(cs.get_paths()):
        if len(p.vertices) == 0:
            continue
        hit = p.contains_points(pts, radius=1e-9) | \
            p.contains_points(pts, radius=-1e-9)
        out[hit & np.isnan(out[:, 0]), 0] = cs.levels[k]
        out[hit, 1] = cs.levels[k + 1]
    return out


def clim_of(t, q, clim, vals, what):
    lo, hi = q.get_clim()
    if clim[0] is not None:
        t.close(lo, clim[0], f"{what}: lower colour limit")
    else:
        t.require(lo <= np.min(vals) + 1e-9 * max(1, abs(np.min(vals))),
                  f"{what}: lower colour limit {lo} cuts {np.min(vals)}")
    if clim[1] is not None:
        t.close(hi, clim[1], f"{what}: upper colour limit")
    else:
        t.require(hi >= np.max(vals) - 1e-9 * max(1, abs(np.max(vals))),
                  f"{what}: upper colour limit {hi} cuts {np.max(vals)}")


def scale_label(t, axs, ax, todb):
    """The colour bar says dB if, and only if, the values are in dB."""
    cb = [k for k in plt.gcf().axes if k is not ax and k not in axs]
    text = ' '.join(k.get_ylabel() + k.get_xlabel() for k in cb)
    t.require(len(cb) == 1, f"{len(cb)} colour bars")
    t.require(('dB' in text) == todb, f"colour bar labelled {text!r}")


def map_axes(t, ax):
    """Azimuth to the left, zenith downwards, ticks at their angles."""
    xl, yl = ax.get_xlim(), ax.get_ylim()
    t.require(xl[0] > xl[1] and yl[0] > yl[1], "orientation of the map")
    names = {r'$-\pi$': -PI, r'$-\pi/2$': -PI / 2, r'$0$': 0, '$0$': 0,
             r'$\pi/2$': PI / 2, r'$\pi$': PI}
    for ticks, labs in ((ax.get_xticks(), ax.get_xticklabels()),
                        (ax.get_yticks(), ax.get_yticklabels())):
        for p, q in zip(ticks, labs):
            t.require(q.get_text() in names and
                      abs(names[q.get_text()] - p) < 1e-9,
                      f"tick label {q.get_text()} at {p}")


@R.sub(dict(seed=gen.seeds, N=st.integers(0, 4), T=st.integers(2, 40),
            kind=st.sampled_from(['real', 'complex']), todb=st.booleans(),
            w=st.sampled_from([None, None, 'rand', 'maxre']),
            clim=st.sampled_from([None, None, 'hi', 'both']),
            long=st.booleans(), own=st.booleans()), quick=16)
def sh_rms_map(c, t):
    r = gen.rng(c['seed'])
    N = c['N']
    K = (N + 1) ** 2
    T = 70000 + c['T'] if c['long'] and N < 2 else c['T']
    amp = np.exp(r.standard_normal(K))[:, None]
    F = amp * r.standard_normal((K, T))
    if T > 60000:
        F[:, :66000] *= 2.5
    if c['kind'] == 'complex':
        F = F + 1j * amp * r.standard_normal((K, T))
    n = ref.orders(N)
    if c['w'] is None:
        w = np.ones(N + 1) / (N + 1) ** 2 * 4 * PI
        w = spa.sph.hypercardioid_modal_weights(N)
    elif c['w'] == 'rand':
        w = r.uniform(.2, 1, N + 1)
    else:
        w = spa.sph.max_rE_modal_weights(N) if hasattr(
            spa.sph, 'max_rE_modal_weights') else r.uniform(.2, 1, N + 1)
    C = F @ F.conj().T / T

    def rms(a, z):
        Y = ref.sh(N, a, z, c['kind']) * np.asarray(w)[n]
        v = np.sqrt(np.maximum(np.real(np.einsum('ij,jk,ik->i', Y, C,
                                                 Y.conj())), 0))
        return 20 * np.log10(v) if c['todb'] else v
    a, z = gen.rand_dirs(r, 200)
    # thin triangles along the border of the map
    keep = ((PI - np.abs(a)) * np.sin(z) > .16) & (z > .3) & (z < PI - .3)
    a, z = a[keep], z[keep]
    ga, gz = [q.ravel() for q in np.meshgrid(np.linspace(-PI, PI, 73),
                                             np.linspace(0, PI, 37))]
    full = rms(ga, gz)
    clim = {None: (None, None), 'hi': (None, full.max() + .5),
            'both': (full.min() + .1, full.max() + 1)}[c['clim']]
    with fresh():
        axs = plt.subplots(1, 2)[1] if c['own'] else [None]
        b4 = [F.copy(), np.array(w)]
        spa.plot.sh_rms_map(F, TODB=c['todb'], w_n=None if c['w'] is None
                            else w, title='T', clim=clim, ax=axs[0])
        kept(t, b4, [F, np.array(w)], 'sh_rms_map')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        map_axes(t, ax)
        scale_label(t, axs, ax, c['todb'])
        cs = contours(ax)
        t.require(cs is not None, "no map")
        got = drawn(cs, np.stack([a, z], 1))
        t.require(np.all(np.isfinite(got)), f"{np.sum(np.isnan(got[:, 0]))} "
                  f"of {len(a)} directions not covered by the map")
        # linear interpolation on the plot grid: tolerate the variation of
        # the map around the point
        lo, hi = np.full(len(a), np.inf), np.full(len(a), -np.inf)
        for da in np.linspace(-.1, .1, 5):
            for dz in np.linspace(-.1, .1, 5):
                v = rms(a + da / np.sin(z), z + dz)
                lo, hi = np.minimum(lo, v), np.maximum(hi, v)
        eps = 1e-6 * max(1, np.abs(full).max()) + .01 * np.ptp(full)
        bad = (got[:, 1] < lo - eps) | (got[:, 0] > hi + eps)
        if np.sum(bad) > 3:  # single coarse triangles are no error
            i = np.argmax(bad)
            t.fail(f"{np.sum(bad)} of {len(a)} directions, first (azi, zen) "
                   f"= ({a[i]:.3f}, {z[i]:.3f}): map shows {got[i]}, the "
                   f"RMS is {rms(a[i:i+1], z[i:i+1])[0]:.4g}")
        clim_of(t, cs, clim, [np.quantile(full, .02),
                              np.quantile(full, .98)], 'sh_rms_map')
        if not c['todb'] and clim[0] is None:
            t.require(abs(cs.get_clim()[0]) < 1e-12, "linear map not from 0")
    t.nt(N > 0)
    t.label('blocks' if T > 2 ** 16 else 'one block')


@R.sub(dict(seed=gen.seeds, n=st.integers(6, 200), todb=st.booleans(),
            ext=st.booleans(), cplx=st.booleans(), own=st.booleans(),
            clim=st.sampled_from([None, 'lo', 'both'])), quick=30)
def spherical_function_map(c, t):
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, c['n'])
    if c['ext']:
        a = np.mod(a, 2 * PI)
    f = r.uniform(.05, 3, c['n'])
    if not c['todb']:
        f = f - 1.5
    e = 20 * np.log10(f) if c['todb'] else f
    clim = {None: (None, None), 'lo': (e.min() - 1, None),
            'both': (e.min() + .3 * np.ptp(e), e.max() - .2 * np.ptp(e))
            }[c['clim']]
    arg = f + 0j if c['cplx'] else f.copy()
    with fresh():
        axs = plt.subplots(1, 2)[1] if c['own'] else [None]
        b4 = [arg.copy(), a.copy(), z.copy()]
        spa.plot.spherical_function_map(arg, a, z, TODB=c['todb'], title='T',
                                        clim=clim, ax=axs[0])
        kept(t, b4, [arg, a, z], 'spherical_function_map')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        map_axes(t, ax)
        scale_label(t, axs, ax, c['todb'])
        sc = [q for q in scatters(ax) if not hasattr(q, 'levels')]
        t.require(len(sc) == 1, "scatter")
        pts = np.stack([wrap(a), z], 1)
        t.close(np.asarray(sc[0].get_offsets()), pts, "points")
        t.close(np.asarray(sc[0].get_array()), e, "values", atol=1e-9)
        clim_of(t, sc[0], clim, e, 'scatter')
        cs = contours(ax)
        got = drawn(cs, pts)
        step = np.max(np.diff(cs.levels))
        ok = np.isfinite(got[:, 0])  # points on the border may be missed
        t.require(np.mean(ok) > .5 or c['n'] < 20, "map does not cover")
        t.require(np.all((got[ok, 0] - step <= e[ok]) &
                         (e[ok] <= got[ok, 1] + step)),
                  "map does not show the values")
        xl, yl = np.sort(ax.get_xlim()), np.sort(ax.get_ylim())
        t.require(np.all((pts[:, 0] >= xl[0]) & (pts[:, 0] <= xl[1]) &
                         (pts[:, 1] >= yl[0]) & (pts[:, 1] <= yl[1])),
                  "points outside of the limits")
    t.nt()


@R.sub(dict(seed=gen.seeds, n=st.integers(1, 60), p=st.booleans(),
            size=st.sampled_from([10, 250, 33.5]),
            mode=st.sampled_from(['plain', 'c', 'fs', 'c+fs']),
            alpha=st.booleans(), fs=st.sampled_from([1000, 44100]),
            own=st.booleans(), lt=st.booleans()), quick=50)
def doa(c, t):
    r = gen.rng(c['seed'])
    n = c['n']
    a, z = gen.rand_dirs(r, n)
    a = np.where(r.uniform(size=n) < .5, np.mod(a, 2 * PI), a)
    p = r.uniform(.01, 7, n) if c['p'] else None
    col = r.uniform(0, 1, n) if 'c' in c['mode'].split('+') else None
    al = r.uniform(.1, .9, n) if c['alpha'] else None
    fs = c['fs'] if 'fs' in c['mode'] else None
    with fresh():
        axs = plt.subplots(1, 2)[1] if c['own'] else [None]
        args = [a, z, p, col, al]
        b4 = copy.deepcopy(args)
        spa.plot.doa(a, z, p, size=c['size'], c=col, alpha=al, fs=fs,
                     title='T', ltitle='p' if c['lt'] and c['p'] else None,
                     ax=axs[0])
        kept(t, b4, args, 'doa')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        map_axes(t, ax)
        lims(t, ax, (-PI - .03, PI + .03), (-.03, PI + .03))
        sc = scatters(ax)
        t.require(len(sc) == 1, "scatter")
        sc = sc[0]
        t.require(len(sc.get_offsets()) == n, "number of points")
        # first on top: drawn last
        o = np.arange(n)[::-1]
        t.close(np.asarray(sc.get_offsets()), np.stack([wrap(a), z], 1)[o],
                "directions")
        t.close(np.broadcast_to(sc.get_sizes(), n),
                (c['size'] * (p / p.max() if c['p'] else np.ones(n)))[o],
                "sizes")
        if col is not None:
            t.close(np.asarray(sc.get_array()), col[o], "colours")
        elif fs is not None:
            t.close(np.asarray(sc.get_array()), (1000 * np.arange(n) / fs)[o],
                    "time in ms", rtol=1e-9)
        t.close(np.broadcast_to(sc.get_alpha(), n),
                (al if c['alpha'] else np.full(n, .35))[o], "alpha")
    t.nt(n > 1)


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 4), L=st.integers(1, 16),
            groups=st.integers(1, 3), todb=st.booleans(),
            centered=st.booleans(), one=st.booleans(),
            sign=st.sampled_from(['pos', 'neg', 'both']),
            clim=st.sampled_from([None, None, [-3., 2.], [-1., 30.]]),
            own=st.booleans()), quick=40)
def sh_bar(c, t):
    r = gen.rng(c['seed'])
    G = c['groups']
    C = c['C'] * G
    s = r.uniform(.05, 3, (C, c['L']))
    if c['todb']:
        s = s * {'pos': 30, 'neg': .01, 'both': 1}[c['sign']]
        v = 20 * np.log10(s)
    else:
        s = {'pos': s, 'neg': -s, 'both': s - 2}[c['sign']]
        v = s
    if c['one'] and G == 1:
        s, v = s[0], v[:1]
        C = 1
    cl = c['clim']
    if cl is not None and c['centered']:
        cl = [-cl[1], cl[1]]
    with fresh():
        axs = plt.subplots(1, 2)[1] if c['own'] else [None]
        b4 = s.copy()
        spa.plot.sh_bar(s, TODB=c['todb'], centered=c['centered'],
                        num_groups=G, clim=cl, title='T', ax=axs[0])
        kept(t, [b4], [s], 'sh_bar')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        q = scatters(ax)
        pos = np.concatenate([np.asarray(k.get_offsets()) for k in q])
        fc = np.concatenate([np.broadcast_to(k.get_facecolor(),
                                             (len(k.get_offsets()), 4))
                             for k in q])
        t.require(len(pos) == C * c['L'], f"{len(pos)} values drawn")
        x = np.unique(np.round(pos[:, 0], 9))
        t.require(len(x) == C, "channels are not drawn side by side")
        ticks = np.sort(ax.get_xticks())
        t.require(all(np.any(np.abs(ticks - k) < 1e-9) for k in x),
                  "ticks are not at the channels")
        if cl is not None:
            lo, hi = cl
        elif c['centered']:
            hi = np.abs(v).max()
            lo = -hi
        else:
            lo, hi = v.min(), v.max()
        cb = [k for k in plt.gcf().axes if k is not ax and k not in axs]
        cm = plt.get_cmap('RdYlBu_r')
        want = cm(np.clip((v - lo) / (hi - lo if hi > lo else 1), 0, 1))
        for i in range(C):
            for j in range(c['L']):
                k = np.flatnonzero((np.abs(pos[:, 0] - x[i]) < 1e-6) &
                                   (np.abs(pos[:, 1] - j) < 1e-6))
                t.require(len(k) == 1, f"channel {i}, coefficient {j} is "
                          f"drawn {len(k)} times")
                # neighbouring colours: rounding at the edges of the table
                t.require(np.max(np.abs(fc[k[0]] - want[i, j])) < .04 or
                          hi <= lo, f"channel {i}, coefficient {j}: value "
                          f"{v[i, j]:.4g} in [{lo:.4g}, {hi:.4g}] drawn as "
                          f"{fc[k[0]]}")
        if hi > lo:
            scale_label(t, axs, ax, c['todb'])
            t.require(len(cb) == 1, "colorbar")
            t.close(np.sort(cb[0].get_ylim()), (lo, hi), "colorbar limits",
                    rtol=1e-6, atol=1e-6)
    t.nt(np.ptp(v) > 0)


# loudspeakers ----------------------------------------------------------------
@R.sub(dict(spec=setups.specs(hi=14), mode=st.sampled_from(
    ['plain', 'color', 'invalid', 'color+invalid', 'subset', 'unmarked']),
    clim=st.booleans(), ls=st.booleans(), own=st.booleans(),
    seed=gen.seeds), quick=30)
def hull(c, t):
    h = setups.build(c['spec'])
    p = np.asarray(h.points, float)
    r = gen.rng(c['seed'])
    if 'invalid' in c['mode'] or c['mode'] == 'unmarked':
        keep = r.uniform(size=len(h.simplices)) < .7
        keep[0] = True
        h.valid_simplices = h.simplices[keep]
        valid = keep
    else:
        valid = np.ones(len(h.simplices), bool)
        h.valid_simplices = h.simplices
    S, kw = h.simplices, {}
    if c['mode'] == 'subset':
        k = r.permutation(len(S))[:max(1, len(S) // 2)]
        S = S[k]
        valid = valid[k]
        kw['simplices'] = S
    if c['mode'] == 'unmarked':
        kw['mark_invalid'] = False
        valid = np.ones(len(S), bool)
    col = None
    if 'color' in c['mode']:
        col = r.uniform(-1, 3, len(S))
        kw['color'] = col
        if c['clim']:
            kw['clim'] = (-.5, 2.)
    with fresh():
        axs = plt.subplots(1, 2, subplot_kw=dict(projection='3d'))[1] \
            if c['own'] else [None]
        b4 = [h.points.copy(), h.simplices.copy(), h.valid_simplices.copy()]
        spa.plot.hull(h, draw_ls=c['ls'], title='T', ax=axs[0], **kw)
        kept(t, b4, [h.points, h.simplices, h.valid_simplices], 'hull')
        ax = axs[0] or plt.gcf().axes[0]
        t.require(ax.get_title() == 'T', "title")
        q = surfaces(ax)

        def tri_set(k):
            v = k._vec[:3].T.reshape(-1, 3, 3)
            return v

        def match(k, faces, what):
            v, w = tri_set(k), p[np.asarray(faces, int)]
            t.require(len(v) == len(w), f"{len(v)} {what}, expected "
                      f"{len(w)}")
            idx = []
            for f in v:
                d = np.max(np.linalg.norm(
                    f[None, :, None] - w[:, None], axis=3).min(2), 1)
                j = int(np.argmin(d))
                t.require(d[j] < 1e-9, f"{what}: face that is not in the "
                          "list")
                idx.append(j)
            t.require(sorted(idx) == list(range(len(w))),
                      f"{what}: faces missing")
            return idx
        idx = match(q[0], S[valid], 'valid faces')
        if not np.all(valid):
            t.require(len(q) == 2, "invalid faces not drawn")
            match(q[1], S[~valid], 'invalid faces')
        else:
            t.require(len(q) == 1, "unexpected faces")
        if col is not None:
            lo, hi = (-.5, 2.) if c['clim'] else (col.min(), col.max())
            want = plt.get_cmap('Spectral')(
                np.clip((col - lo) / (hi - lo), 0, 1) if hi > lo else
                np.zeros(len(col)))[valid][idx]
            got = q[0]._facecolor3d
            t.require(len(got) == len(want), "number of face colours")
            t.require(np.max(np.abs(got[:, :3] - want[:, :3])) < .05,
                      "face colours")
        pts = np.concatenate([xyz(k) for k in scatters(ax)])
        txt = {q.get_text(): np.array(q.get_position_3d()) for q in ax.texts}
        if c['ls']:
            for i, v in enumerate(p):
                t.require(np.min(np.linalg.norm(pts - v, axis=1)) < 1e-9,
                          f"loudspeaker {i} not drawn")
                t.require(str(i) in txt and
                          np.allclose(txt[str(i)], v, atol=1e-9),
                          f"number {i} not at its loudspeaker")
        t.require(np.min(np.linalg.norm(pts, axis=1)) < 1e-12, "listener")
        m = 1.1 * max(1., np.abs(p).max())
        box3(t, ax, -m, m)
    t.nt(len(S) > 1)
    t.label(c['mode'])


def quiver(q):
    """(start, end) of the lines of a 3-D quiver, shafts first."""
    s = np.array([v for v in q._segments3d if len(v) == 2], float)
    return s[:, ::-1]


@R.sub(dict(spec=setups.specs(hi=14), f=st.booleans(), v=st.booleans()),
       quick=20)
def hull_normals(c, t):
    h = setups.build(c['spec'])
    with fresh():
        spa.plot.hull_normals(h, plot_face_normals=c['f'],
                              plot_vertex_normals=c['v'])
        ax = plt.gcf().axes[0]
        lab = {q.get_label(): q for q in ax.collections}
        p = np.asarray(h.points, float)
        f = p[np.asarray(h.simplices, int)]
        n = np.cross(f[:, 1] - f[:, 0], f[:, 2] - f[:, 0])
        n = n / np.linalg.norm(n, axis=1)[:, None]
        for on, name, at, d in (
                (c['f'], 'simplex normal', f.mean(1), None),
                (c['v'], 'vertex normal', p, h.vertex_normals)):
            t.require((name in lab) == on, f"{name} drawn: {name in lab}")
            if not on:
                continue
            s = quiver(lab[name])[:len(at)]
            t.close(s[:, 0], at, f"foot of {name}", atol=1e-9)
            dr = s[:, 1] - s[:, 0]
            if d is not None:
                t.close(dr, np.asarray(d, float), name, atol=1e-9)
            else:
                dr = dr / np.linalg.norm(dr, axis=1)[:, None]
                t.close(np.abs(np.sum(dr * n, axis=1)), np.ones(len(n)),
                        f"direction of {name}", atol=1e-6)
        t.close(xyz(lab['listener'])[0], np.ravel(h.listener_position),
                "listener", atol=1e-9)
        t.close(xyz(lab['barycenter'])[0], np.ravel(h.barycenter),
                "barycenter", atol=1e-9)
        q = surfaces(ax)[0]._vec[:3].T.reshape(-1, 3, 3)
        t.close(q, f, "faces", atol=1e-9)
        box3(t, ax, -1, 1)
    t.nt(c['f'] or c['v'])


KINDS = ['VBAP', 'vbip', 'NLS', 'ALLRAP', 'ALLRAP2', 'ALLRAD', 'allrad2',
         'EPAD', 'MAD', 'SAD']


@R.sub(dict(spec=setups.specs(hi=12, kinds=('random', 'rings', 'design')),
            kind=st.sampled_from(KINDS), azi=st.sampled_from([15, 20, 30]),
            ele=st.sampled_from([10, 15, 20]), N=st.sampled_from(
                [None, 1, 2]), show=st.booleans(), seed=gen.seeds), quick=24)
def decoder_performance(c, t):
    h = setups.build(c['spec'])
    k = c['kind'].lower()
    sh = k in ('allrad', 'allrad2', 'epad', 'mad', 'sad')
    if k.startswith('allra'):
        h.ambisonics_setup(update_hull=False)
        if c['N'] is None and k.startswith('allrap'):
            N = h.characteristic_order
    N = c['N']
    kw = {}
    if sh and N is not None:
        kw['N_sph'] = N
    elif k.startswith('allrap') and N is not None:
        kw['N_sph'] = N
    with fresh():
        spa.plot.decoder_performance(h, c['kind'], azi_steps=c['azi'],
                                     ele_steps=c['ele'], show_ls=c['show'],
                                     title='T', **kw)
        fig = plt.gcf()
        axs = fig.axes[:4]
        t.require('T' in fig._suptitle.get_text() and
                  c['kind'] in fig._suptitle.get_text(), "title")
        Q = []
        for ax in axs:
            m = [q for q in ax.collections
                 if isinstance(q, matplotlib.collections.QuadMesh)]
            t.require(len(m) == 1, "one map per measure")
            Q.append(m[0])
        co = np.asarray(Q[0].get_coordinates())
        a, z = co[..., 0].ravel(), co[..., 1].ravel()
        t.require(a.min() <= -PI + 1e-6 and a.max() >= PI - 1e-6 and
                  z.min() <= 1e-6 and z.max() >= PI - 1e-6,
                  "map does not cover the sphere")
        da = np.diff(np.unique(np.round(a, 9)))
        dz = np.diff(np.unique(np.round(z, 9)))
        t.close(da, np.full(len(da), np.deg2rad(c['azi'])), "azimuth steps",
                atol=1e-6)
        t.close(dz, np.full(len(dz), np.deg2rad(c['ele'])), "zenith steps",
                atol=1e-6)
        src = ref.cart(a, z)
        if sh:
            n = N if N is not None else h.get_characteristic_order()
            Y = ref.sh_real(n, a, z).T
            G = getattr(spa.decoder, k)(Y, h, N_sph=n).T
        elif k == 'nls':
            G = spa.decoder.nearest_loudspeaker(src, h)
        else:
            G = getattr(spa.decoder, k)(src, h, **kw)
        G = np.asarray(G, float)
        A, E = G.sum(1), (G ** 2).sum(1)
        d = np.linalg.norm(h.points, axis=1)
        u = h.points / d[:, None]
        g2 = (G / d ** h.a) ** 2
        rE = g2 @ u / np.maximum(g2.sum(1), 1e-30)[:, None]
        mag = np.linalg.norm(rE, axis=1)
        spr = np.rad2deg(2 * np.arccos(np.clip(mag, 0, 1)))
        err = np.rad2deg(ref.angle(rE, src))
        # near the edges of panning regions the choice may differ
        S = [np.asarray(q.get_array()).ravel() for q in Q]
        near = np.abs(S[0] - A) > 1e-6 if not sh else np.zeros(len(a), bool)
        t.require(np.mean(near) < .1, "amplitude map")
        # rows beyond the pole are outside of the sphere
        ok = ~near & (E > 1e-6) & (z <= PI + 1e-6)
        t.close(S[0][ok], A[ok], "amplitude", rtol=1e-5, atol=1e-5)
        t.close(S[1][ok], E[ok], "energy", rtol=1e-5, atol=1e-5)
        w = ok & (mag < 1 - 1e-6)
        t.close(S[2][w], spr[w], "spread", rtol=1e-4, atol=1e-2)
        t.close(S[2][ok], spr[ok], "spread", atol=.3)
        w = ok & (mag > .05)
        t.close(S[3][w], err[w], "angular error", rtol=1e-3, atol=.05)
        for i, q in enumerate(Q):
            lo, hi = q.get_clim()
            t.require(lo == 0 and abs(hi - (max(1., S[i].max()) if i < 2
                                            else 90)) < 1e-9,
                      f"colour limits {lo, hi} of map {i}")
            t.close(np.asarray(q.get_coordinates()), co, "grid")
        for ax in axs:
            map_axes(t, ax)
            ls = curves(ax)
            t.require(len(ls) == (len(h.points) if c['show'] else 0),
                      f"{len(ls)} loudspeakers drawn")
            if c['show']:
                la, lz = ref.sph(u)[:2]
                got = np.array([[q.get_xdata()[0], q.get_ydata()[0]]
                                for q in ls])
                t.close(ref.cart(got[:, 0], got[:, 1]), ref.cart(la, lz),
                        "loudspeakers", atol=1e-6)
    t.nt()
    t.label(k)


@R.sub(dict(seed=gen.seeds, n=st.integers(12, 40), clim=st.booleans(),
            levels=st.sampled_from([20, 50]), own=st.booleans()), quick=10)
def hrirs_ild_itd(c, t):
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, c['n'])
    L = 128
    d = np.round(8 * np.sin(a) * np.sin(z)).astype(int)
    left, right = np.zeros((c['n'], L)), np.zeros((c['n'], L))
    for i in range(c['n']):
        left[i, 30 - d[i]] = np.exp(.7 * np.sin(a[i]) * np.sin(z[i]))
        right[i, 30 + d[i]] = np.exp(-.7 * np.sin(a[i]) * np.sin(z[i]))
    h = spa.sig.HRIRs(left, right, a, z, 48000)
    ild = np.asarray(spa.process.ilds_from_hrirs(h, TODB=True))
    itd = 1000 * np.asarray(spa.process.itds_from_hrirs(h))
    pc = (20., .9) if c['clim'] else (None, None)
    with fresh():
        fig = plt.figure() if c['own'] else None
        if c['own']:
            plt.figure()
        spa.plot.hrirs_ild_itd(h, plevels=c['levels'], pclims=pc, title='T',
                               fig=fig)
        fig = fig or plt.gcf()
        t.require(fig._suptitle.get_text() == 'T', "title")
        for ax, v, m in zip(fig.axes, (ild, itd), pc):
            map_axes(t, ax)
            cs = contours(ax)
            hi = m or np.abs(v).max()
            t.close(cs.get_clim(), (-hi, hi), f"{ax.get_title()} limits")
            got = drawn(cs, np.stack([a, z], 1))
            ok = np.isfinite(got[:, 0])
            step = np.max(np.diff(cs.levels))
            t.require(np.sum(ok) >= 3, "map does not cover")
            t.require(np.all((got[ok, 0] - step <= v[ok]) &
                             (v[ok] <= got[ok, 1] + step)),
                      f"{ax.get_title()} map does not show the values")
        t.require([q.get_title() for q in fig.axes[:2]] == ['ILD', 'ITD'],
                  "titles")
    t.nt(np.ptp(ild) > 0)


@R.sub(dict(lo=gen.floats(-5, -.1), hi=gen.floats(.1, 5), own=st.booleans(),
            given=st.booleans(), x=gen.floats(.1, 9), y=gen.floats(.1, 9)),
       quick=20)
def aspect(c, t):
    with fresh():
        ax = plt.figure().add_subplot(projection='3d')
        ax.set_xlim3d(c['lo'], c['x'])
        ax.set_ylim3d(-c['y'], c['hi'])
        ax.set_zlim3d(-1, 1)
        if not c['own']:
            spa.plot.set_aspect_equal3d(
                XYZlim=[c['lo'], c['hi']] if c['given'] else None)
        else:
            plt.figure().add_subplot(projection='3d')
            spa.plot.set_aspect_equal3d(
                ax, XYZlim=[c['lo'], c['hi']] if c['given'] else None)
        if c['given']:
            box3(t, ax, c['lo'], c['hi'])
        else:
            box3(t, ax, min(c['lo'], -c['y'], -1), max(c['x'], c['hi'], 1))
    t.nt()


# histories -------------------------------------------------------------------
def snap(fig):
    """Contents of a figure, as comparable data."""
    out = []
    for ax in fig.axes:
        e = [ax.get_title(), np.array(ax.get_xlim()),
             np.array(ax.get_ylim()), ax.get_xlabel(), ax.get_ylabel()]
        for q in ax.get_lines():
            e.append(np.array(q.get_xydata(), float))
            e.append(mcolors.to_hex(q.get_color()))
        for q in ax.collections:
            e.append(type(q).__name__)
            for v in (getattr(q, '_vec', None), q.get_array(),
                      getattr(q, 'levels', None), q.get_clim(),
                      q.get_facecolor(), getattr(q, '_offsets3d', None)):
                e.append(None if v is None else
                         [np.array(k, float) for k in v]
                         if isinstance(v, tuple) and v[0] is not None and
                         np.ndim(v[0]) else
                         np.array([np.nan if k is None else k for k in v],
                                  float)
                         if isinstance(v, tuple) else np.array(v, float))
            if not hasattr(q, '_offsets3d'):
                e.append(np.array(q.get_offsets(), float))
        e += [q.get_text() for q in ax.texts]
        out.append(e)
    return out


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and \
            np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
    return a == b


def op(name, seed):
    """A plot call for a given axes (None: own figure), and its
    projection."""
    r = gen.rng(seed)
    P = spa.plot
    n = int(r.integers(10, 60))
    f = np.linspace(0, 24000, n)
    x, y = r.standard_normal(n), r.standard_normal((2, n))
    a, z = gen.rand_dirs(r, n)
    F = coeffs(r, int(r.integers(0, 3)), ['real', 'complex'][seed % 2])
    m = r.standard_normal((4, 20))
    return {
        'freq_resp': (lambda ax: P.freq_resp(f, [*y], labels=['a', 'b'],
                                             ax=ax), None),
        'spectrum': (lambda ax: P.spectrum([*y], 48000, ax=ax), None),
        'smoothed': (lambda ax: P.freq_resp(f, x, smoothing_n=3, ax=ax),
                     None),
        'polar': (lambda ax: P.polar(np.linspace(0, 6, n), x,
                                     TODB=bool(seed % 2), ax=ax), 'polar'),
        'spherical_function': (lambda ax: P.spherical_function(x, a, z,
                                                               ax=ax), '3d'),
        'function_map': (lambda ax: P.spherical_function_map(
            x, a, z, ax=ax), None),
        'sh_coeffs': (lambda ax: P.sh_coeffs(F, azi_steps=20, el_steps=20,
                                             ax=ax), '3d'),
        'overlay': (lambda ax: P.sh_coeffs_overlay(
            [F, F[:1]], azi_steps=20, el_steps=20, ax=ax), '3d'),
        'rms_map': (lambda ax: P.sh_rms_map(m, n_plot=10, ax=ax), None),
        'bar': (lambda ax: P.sh_bar(np.abs(m), ax=ax), None),
        'doa': (lambda ax: P.doa(a, z, np.abs(x), fs=48000, ax=ax), None),
        'transfer': (lambda ax: P.transfer_function(
            f, x + 1j * r.standard_normal(n) * 0), 'own'),
        'zeropole': (lambda ax: P.zeropole(x[:4], [1, .5]), 'own'),
        'subplot': (lambda ax: P.sh_coeffs_subplot(
            [F, F], azi_steps=30, el_steps=30), 'own'),
    }[name]


NAMES = ['freq_resp', 'spectrum', 'smoothed', 'polar', 'spherical_function',
         'function_map', 'sh_coeffs', 'overlay', 'rms_map', 'bar', 'doa',
         'transfer', 'zeropole', 'subplot']


@R.sub(dict(ops=st.lists(st.tuples(st.sampled_from(NAMES), gen.seeds,
                                   st.booleans()).map(list),
                         min_size=2, max_size=5)), quick=16)
def history(c, t):
    """Each figure of a sequence of plots equals that of the call alone, into
    a given axes or its own figure, and stays as it was."""
    alone = []
    for name, seed, own in c['ops']:
        with fresh():
            fn, proj = op(name, seed)
            ax = plt.figure().add_subplot(projection=proj) \
                if own and proj != 'own' else None
            fn(ax)
            fig = ax.get_figure() if ax is not None else plt.gcf()
            alone.append(snap(fig))
    with fresh():
        figs, rc = [], dict(matplotlib.rcParams)
        axs = {}
        for i, (name, seed, own) in enumerate(c['ops']):
            fn, proj = op(name, seed)
            if own and proj != 'own':  # axes exist before, none is current
                axs[i] = plt.figure().add_subplot(projection=proj)
        for i, (name, seed, own) in enumerate(c['ops']):
            fn, proj = op(name, seed)
            n0 = len(plt.get_fignums())
            fn(axs.get(i))
            figs.append(axs[i].get_figure() if i in axs else plt.gcf())
            t.require(len(plt.get_fignums()) - n0 == (0 if i in axs else 1),
                      f"{name} opened {len(plt.get_fignums()) - n0} figures")
        for i, (name, _, _) in enumerate(c['ops']):
            got = snap(figs[i])
            t.require(same(got, alone[i]),
                      f"call {i} ({name}) gives a different figure than "
                      "alone")
        t.require(dict(matplotlib.rcParams) == rc, "global settings changed")
    t.nt()


def whole(r, *shape):
    """Integers without zeros, of both signs."""
    return (r.integers(1, 30, shape) * r.choice([-1, 1], shape)).astype(float)


VARIANTS = {
    'int': lambda x: np.rint(x).astype(int),
    'int16': lambda x: np.rint(x).astype(np.int16),
    'float32': lambda x: x.astype(np.float32),
    'column major': np.asfortranarray,
    'strided': lambda x: np.repeat(x, 2, axis=-1)[..., ::2],
    'reversed': lambda x: x[..., ::-1].copy()[..., ::-1],
    'read-only': lambda x: frozen(x),
}


def frozen(x):
    x = x.copy()
    x.setflags(write=False)
    return x


@R.sub(dict(seed=gen.seeds, which=st.integers(0, 10), n=gen.block,
            form=st.sampled_from(sorted(VARIANTS))), quick=60)
def data_forms(c, t):
    """The figure depends on the values that are given, not on their number
    type, memory layout or number."""
    r = gen.rng(c['seed'])
    P, n = spa.plot, max(6, c['n'])
    v = VARIANTS[c['form']]
    x, y = whole(r, n), whole(r, 2, n)
    f = np.cumsum(r.integers(1, 50, n)).astype(float) + 20
    a, z = gen.rand_dirs(r, min(n, 130))
    m = len(a)
    four, nine = whole(r, 4, n), whole(r, 9)
    w = np.abs(whole(r, 3))
    calls = [
        ('freq_resp', lambda q: P.freq_resp(q(f), [q(k) for k in y])),
        ('smoothed', lambda q: P.freq_resp(q(f), q(np.abs(x)),
                                           smoothing_n=3)),
        ('spectrum', lambda q: P.spectrum([q(k) for k in y], 48000)),
        ('spectrum of one', lambda q: P.spectrum(q(x), 48000, TODB=False)),
        ('transfer_function', lambda q: P.transfer_function(q(f), q(x))),
        ('zeropole', lambda q: P.zeropole(q(x[:4]), q(np.array([2., 1.])))),
        ('polar', lambda q: P.polar(np.linspace(0, 6, n), q(x))),
        ('doa', lambda q: P.doa(a, z, q(np.abs(x[:m])), fs=1000)),
        ('map', lambda q: P.spherical_function_map(q(x[:m]), a, z)),
        ('function', lambda q: P.spherical_function(q(x[:m] / 1), a, z)),
        ('bar', lambda q: P.sh_bar(q(np.abs(four[:, :12])))),
        ('rms', lambda q: P.sh_rms_map(q(four))),
        ('coeffs', lambda q: P.sh_coeffs(q(nine), azi_steps=30,
                                         el_steps=30)),
    ]
    name, fn = calls[(c['which'] + c['seed']) % len(calls)]
    with fresh():
        fn(lambda k: k.copy())
        want = snap(plt.gcf())
    with fresh():
        fn(lambda k: v(k))
        got = snap(plt.gcf())
    t.nt()
    t.label(f"{name}: {c['form']}")
    tol = 1e-3 if c['form'] in ('float32', 'int16') else 1e-9

    def close(p, q, path):
        if isinstance(q, (list, tuple)):
            t.require(isinstance(p, (list, tuple)) and len(p) == len(q),
                      f'{name}, {c["form"]}: other artists {path}')
            for i, (k, s) in enumerate(zip(p, q)):
                close(k, s, path + [i])
        elif isinstance(q, np.ndarray):
            t.require(isinstance(p, np.ndarray) and p.shape == q.shape,
                      f'{name}, {c["form"]}: other shape {path}')
            t.require(np.allclose(p, q, rtol=tol, atol=tol,
                                  equal_nan=True),
                      f'{name}, {c["form"]}: {p} drawn, {q} expected')
        elif tol < 1e-6 or not isinstance(q, str):
            t.require(p == q, f'{name}, {c["form"]}: {p} for {q}')
    close(got, want, [])
