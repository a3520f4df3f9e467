"""C20 magnitude least squares binaural filters."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C20', 'head-like and random HRIR sets of 32..4097 taps '
                  'on random and Gauss grids, orders 1..6, three '
                  'continuations, transition frequencies, delays; '
                  'non-trivial: bins on both sides of the transition')


@st.composite
def cases(draw):
    N = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 6]))
    return dict(N=N, seed=draw(gen.seeds),
                grid=draw(st.sampled_from(['gauss', 'random'])),
                hrir=draw(st.sampled_from(['head', 'head', 'noise'])),
                taps=draw(st.sampled_from([32, 33, 64, 127, 128, 256, 1023,
                                           1024, 1025, 1100, 1301] +
                                          [2047, 2049, 2500, 4097] *
                                          (N < 3))),
                fs=draw(st.sampled_from([48000, 44100, 24000])),
                f=draw(st.sampled_from([None, None, 700., 1500., 2222.,
                                        8000.])),
                cont=draw(st.sampled_from(['avg', 'angle', 'delay', None])),
                delay=draw(st.sampled_from([None, [0, 0], [3, 3], [2, 7],
                                            [0., 1.5]])))


def make(c):
    r = gen.rng(c['seed'])
    N = c['N']
    if c['grid'] == 'gauss':
        a, z, _ = ref.quad(2 * N + 3)
    else:
        a, z = gen.rand_dirs(r, 4 * (N + 1) ** 2)
    Q, T, fs = len(a), c['taps'], c['fs']
    if c['hrir'] == 'noise':
        x = r.standard_normal((2, Q, T)) * np.exp(-np.arange(T) / 12)
    else:
        f = np.fft.rfftfreq(T, 1 / fs)
        y = np.sin(a) * np.sin(z)
        x = []
        for sgn in (1, -1):
            d = 6 + .0003 * fs * (1 - sgn * y) / 2
            g = 1 / (1 + (1 - sgn * y)[:, None] / 2 * f / 1500)
            X = g * np.exp(-2j * np.pi * f * d[:, None] / fs)
            X *= np.exp(-(f / (.45 * fs)) ** 4)
            x.append(np.fft.irfft(X, n=T) +
                     1e-3 * r.standard_normal((Q, T)))
        x = np.array(x)
    return a, z, x


def fit(Y, H):
    return np.linalg.lstsq(Y.astype(complex), H, rcond=None)[0]


def model(a, z, x, fs, N, f_trans, cont, delay):
    """The documented method for both ears, filter by filter."""
    Y = ref.sh_real(N, a, z)
    T = x.shape[-1]
    nfft = max(1024, T)
    freqs = np.arange(nfft // 2 + 1) * fs / nfft
    kc = int(np.argmin(np.abs(freqs - (600 * N if f_trans is None
                                       else f_trans))))
    out = []
    for ear in (0, 1):
        H = np.fft.rfft(x[ear], n=nfft, axis=-1)
        W = np.zeros(((N + 1) ** 2, len(freqs)), complex)
        W[:, :kc] = fit(Y, H[:, :kc])
        if cont == 'avg':
            ph = np.unwrap(np.angle(W[0, :kc]))
            step = (ph[kc - 2] - ph[kc - 6]) / 4
        elif cont == 'angle':
            ph = np.unwrap(np.angle(Y @ W[:, :kc]), axis=-1)
            step = (ph[:, kc - 2] - ph[:, kc - 6]) / 4
        else:
            step = 0.
        step = step - 2 * np.pi * delay[ear] / nfft
        for k in range(kc, len(freqs)):
            ph = np.angle(Y @ W[:, k - 1]) + step
            W[:, k] = fit(Y, np.abs(H[:, k]) * np.exp(1j * ph))
        h = np.fft.irfft(W, n=nfft)[:, :T]
        out.append(h)
    h = np.array(out)
    n = np.arange(64)
    w = .5 - .5 * np.cos(2 * np.pi * n / 63)
    h[..., -32:] *= w[32:]
    h[..., :4] *= (.5 - .5 * np.cos(2 * np.pi * np.arange(8) / 7))[:4]
    return h, kc




@R.sub(cases(), quick=50, weight=5)
def reference(c, t):
    """Filters equal the reference model."""
    a, z, x = make(c)
    cont, delay = c['cont'] or 'avg', c['delay'] or [0, 0]
    N, fs = c['N'], c['fs']
    nfft = max(1024, c['taps'])
    ft = 600 * N if c['f'] is None else c['f']
    kc = ft / fs * nfft
    if abs(kc - np.floor(kc) - .5) < 1e-6:
        t.skip('transition between two bins')
    if np.linalg.cond(ref.sh_real(N, a, z)) > 30:
        t.skip('grid does not carry the order')
    want, kc = model(a, z, x, fs, N, c['f'], cont, delay)
    if kc < 8:
        t.skip('transition too low to predict the phase')
    r = gen.rng(c['seed'] + 1)
    pert, _ = model(a, z, x * (1 + 1e-11 * r.standard_normal(x.shape)), fs,
                    N, c['f'], cont, delay)
    top = np.max(np.abs(want))
    if np.max(np.abs(pert - want)) > 1e-6 * top:
        t.skip('phase of a vanishing response')
    t.nt(kc < nfft // 2)
    for k in (cont, f"order {N}", c['hrir'], f"taps {c['taps']}"):
        t.label(k)
    kw = {}
    if c['cont']:
        kw['hf_cont'] = c['cont']
    if c['delay']:
        kw['hf_delay'] = tuple(c['delay'])
    if c['f']:
        kw['f_trans'] = c['f']
    h = spa.sig.HRIRs(x[0], x[1], a, z, fs)
    got = spa.decoder.magls_bin(h, N, **kw)
    t.require(got.shape == (2, (N + 1) ** 2, c['taps']),
              f'shape {got.shape}')
    t.require(not np.iscomplexobj(got), 'filters are complex')
    t.close(got, want, 'filters', rtol=0, atol=1e-5 * top)
    t.close(h.left, x[0], 'HRIRs changed', rtol=0, atol=0)


@R.sub(cases(), quick=40, weight=4)
def relations(c, t):
    """Scaling, swapped ears and reordered directions."""
    a, z, x = make(c)
    N, fs = c['N'], c['fs']
    delay = c['delay'] or [0, 0]
    cont = c['cont'] or 'avg'
    if cont != 'delay' and (c['f'] or 600 * N) / fs * max(1024, c['taps']) \
            < 8:
        t.skip('transition too low to predict the phase')
    if np.linalg.cond(ref.sh_real(N, a, z)) > 30:
        t.skip('grid does not carry the order')

    def run(x, a, z, d):
        h = spa.sig.HRIRs(x[0], x[1], a, z, fs)
        return spa.decoder.magls_bin(h, N, f_trans=c['f'], hf_cont=cont,
                                     hf_delay=tuple(d))
    base = run(x, a, z, delay)
    top = np.max(np.abs(base))
    t.nt()
    t.label(cont)
    t.close(run(x[::-1], a, z, delay[::-1]), base[::-1], 'ears swapped',
            rtol=0, atol=1e-9 * top)
    for g in (.25, 1e-6, 4e4):
        t.close(run(g * x, a, z, delay) / g, base, f'scaled by {g}', rtol=0,
                atol=1e-7 * top)
    again = run(x * (1 + 1e-11 * gen.rng(c['seed']).standard_normal(x.shape)),
                a, z, delay)
    if np.max(np.abs(again - base)) > 1e-6 * top:
        t.skip('phase of a vanishing response')
    o = gen.rng(c['seed'] + 2).permutation(len(a))
    t.close(run(x[:, o], a[o], z[o], delay), base, 'directions reordered',
            rtol=0, atol=1e-5 * top)
    one = run(np.stack([x[0], .1 * x[1]]), a, z, delay)
    t.close(one[0], base[0], 'left depends on the right ear', rtol=0,
            atol=1e-9 * top)


@R.sub(dict(seed=gen.seeds, N=st.integers(1, 4),
            taps=st.sampled_from([32, 65, 256, 1025]),
            cont=st.sampled_from(['avg', 'angle', 'delay'])), quick=30)
def linear_part(c, t):
    """An order limited HRIR set below the transition frequency is returned
    as its SH coefficients, up to the fades at both ends."""
    r = gen.rng(c['seed'])
    N, T, fs = c['N'], c['taps'], 48000
    a, z, _ = ref.quad(2 * N + 2)
    W = r.standard_normal((2, (N + 1) ** 2, T))
    # nothing at the highest bin, the only one above the transition
    W[..., -1] -= np.sum(W * (-1.) ** np.arange(T), -1) * (-1.) ** (T - 1)
    x = ref.sh_real(N, a, z) @ W
    nfft = max(1024, T)
    h = spa.sig.HRIRs(x[0], x[1], a, z, fs)
    got = spa.decoder.magls_bin(h, N, f_trans=1e6, hf_cont=c['cont'])
    t.nt()
    if nfft % 2:
        t.skip('no Nyquist bin')
    t.close(got[..., 4:-32], W[..., 4:-32], 'SH filters', rtol=1e-7,
            atol=1e-7)
    t.require(np.all(np.abs(got[..., :4]) <= np.abs(W[..., :4]) + 1e-7),
              'start is not faded')
    t.require(np.all(np.abs(got[..., -32:]) <= np.abs(W[..., -32:]) + 1e-7),
              'end is not faded')


@R.sub(dict(seed=gen.seeds, N=st.integers(1, 4),
            cont=st.sampled_from(['avg', 'angle', 'delay'])), quick=30)
def magnitudes(c, t):
    """Direction independent responses keep their magnitude at all
    frequencies, whatever their phase."""
    r = gen.rng(c['seed'])
    N, fs = c['N'], 48000
    a, z, _ = ref.quad(2 * N + 2)
    T = 1024
    x = np.zeros((2, len(a), T))
    ir = np.zeros((2, T))
    ir[0, 120], ir[1, 140] = 1, .5
    ir[:, 125:150] += .05 * r.standard_normal((2, 25))
    x[:] = ir[:, None]
    h = spa.sig.HRIRs(x[0], x[1], a, z, fs)
    got = spa.decoder.magls_bin(h, N, hf_cont=c['cont'],
                                hf_delay=(120, 140)
                                if c['cont'] == 'delay' else (0, 0))
    t.nt()
    H = np.abs(np.fft.rfft(got[:, 0] / np.sqrt(4 * np.pi)))
    want = np.abs(np.fft.rfft(ir))
    err = np.abs(H - want) / np.max(want)
    t.require(np.max(np.abs(got[:, 1:])) < 1e-6, 'higher order filters')
    t.require(np.mean(err) < .05, f'magnitude off by {np.mean(err)} (mean)')


@R.sub(cases(), quick=16,
       thorough=400, weight=4)
def forms(c, t):
    """HRIRs in any layout and number type."""
    a, z, x = make(dict(c, taps=min(c['taps'], 300)))
    N, fs = c['N'], c['fs']
    cont = c['cont'] or 'avg'
    if cont != 'delay' and (c['f'] or 600 * N) / fs * 1024 < 8:
        t.skip('transition too low to predict the phase')
    if np.linalg.cond(ref.sh_real(N, a, z)) > 30:
        t.skip('grid does not carry the order')
    t.nt()

    def run(y):
        return spa.decoder.magls_bin(
            spa.sig.HRIRs(y[0], y[1], a, z, fs), N, f_trans=c['f'],
            hf_cont=cont)
    base = run(x)
    again = run(x * (1 + 1e-11 * gen.rng(c['seed']).standard_normal(
        x.shape)))
    if np.max(np.abs(again - base)) > 1e-6 * np.max(np.abs(base)):
        t.skip('phase of a vanishing response')
    t.forms(run, x, 'HRIRs', ints=False, rtol=1e-6, atol=1e-6)
    y = np.rint(x * 30000 / np.max(np.abs(x)))
    b = run(y)
    again = run(y * (1 + 1e-11 * gen.rng(c['seed']).standard_normal(
        x.shape)))
    if np.max(np.abs(again - b)) > 1e-6 * np.max(np.abs(b)):
        return
    for ty in (np.int16, np.int32, np.int64):
        t.same(run(y.astype(ty)), b, ty.__name__, 1e-6, 1e-6)
