"""C21 signal containers as arrays of channels."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C21', 'sequences of 1..8 operations on mono, multi and '
                  'B-format signals and HRIR sets of 1..5 channels, several '
                  'copies alive; non-trivial: at least two different '
                  'operations that change samples')

frac = gen.floats(0., 1.)
op = st.one_of(
    st.tuples(st.just('trim'), frac, frac, st.booleans()),
    st.tuples(st.just('trim'), frac, frac, st.booleans()),
    st.tuples(st.just('beyond'), frac, frac, st.booleans()),
    st.tuples(st.just('conv'), st.integers(1, 9),
              st.sampled_from(['full', 'same', 'list']), st.booleans()),
    st.tuples(st.just('resample'), st.sampled_from([22050, 44100, 48000,
                                                    96000, 47999,
                                                    44099.5, 1001, 15999]),
              st.just(0), st.just(0)),
    st.tuples(st.just('apply'), st.integers(1, 60), st.just(0), st.just(0)),
    st.tuples(st.just('assign'), st.integers(1, 60), st.integers(0, 7),
              st.just(0)),
    st.tuples(st.just('copy'), st.booleans(), st.just(0), st.just(0)),
    st.tuples(st.just('poke'), st.integers(0, 7), frac, st.just(0)),
    st.tuples(st.just('trim_audio'), frac, frac, st.just(0)),
).map(list)


def resampled(x, a, b):
    return np.array([np.atleast_1d(spa.process.resample_signal(v, a, b))
                     for v in x])


def same(o, m, kind, t, msg):
    """The object equals its model {data (C, S), fs}."""
    x, fs = m['x'], m['fs']
    t.require(len(o) == x.shape[1], f'{msg}: len {len(o)}, not {x.shape[1]}')
    t.require(o.fs == fs, f'{msg}: fs {o.fs}, not {fs}')
    if kind == 'mono':
        t.close(o.signal, x[0], f'{msg}: samples', atol=1e-9)
        t.close(o[:], x[0], f'{msg}: slice', atol=1e-9)
        t.close(o[-1], x[0, -1], f'{msg}: last sample', atol=1e-9)
        return
    t.require(o.num_channels == len(x) == o.channel_count,
              f'{msg}: {o.num_channels} channels')
    t.close(o.get_signals(), x, f'{msg}: samples', atol=1e-9)
    t.close(o.signals, x, f'{msg}: signals', atol=1e-9)
    for k in range(len(x)):
        t.require(o[k].fs == fs, f'{msg}: fs of channel {k}: {o[k].fs}')
        t.close(o[k].signal, x[k], f'{msg}: channel {k}', atol=1e-9)
    t.close(o[-1].signal, x[-1], f'{msg}: last channel', atol=1e-9)
    if kind == 'ambi':
        for k, ch in enumerate('WXYZ'):
            t.close(getattr(o, ch), x[k], f'{msg}: {ch}', atol=1e-9)


def cut(x, fs, u, v):
    """Sample positions of a non-empty cut and times that name them."""
    n = x.shape[1]
    i = min(int(u * n), n - 1)
    j = min(i + 1 + int(v * (n - i)), n)
    return i, j, (i + .5) / fs, (j + .5) / fs


@R.sub(dict(kind=st.sampled_from(['mono', 'multi', 'ambi']),
            n_ch=st.integers(1, 5), S=st.integers(2, 120),
            seed=gen.seeds, fs=st.sampled_from([48000, 44100, 16000, 8, 1000]),
            how=gen.kinds,
            level=st.sampled_from([1., 1., 1e-6, 3e4]),
            ops=st.lists(op, min_size=1, max_size=8)), quick=400, weight=3)
def histories(c, t):
    """Any sequence of operations against plain arrays."""
    r = gen.rng(c['seed'])
    kind = c['kind']
    C = {'mono': 1, 'ambi': 4}.get(kind, c['n_ch'])
    x = r.standard_normal((C, c['S'])) * c['level']
    if c['seed'] % 3 == 0:
        x[:, :c['S'] // 3] = 0.
        x[0, -(c['S'] // 3 + 1):] = 0.
    if kind == 'mono':
        o = spa.sig.MonoSignal(gen.as_kind(x[0], c['how']), c['fs'])
    else:
        cls = spa.sig.MultiSignal if kind == 'multi' else spa.sig.AmbiBSignal
        o = cls([gen.as_kind(v, c['how']) for v in x], fs=c['fs'])
    m = dict(x=x.copy(), fs=c['fs'])
    alive = []
    same(o, m, kind, t, 'new')
    changed = set()
    for step, (name, a, b, d) in enumerate(c['ops']):
        msg = f'after {step} {name}'
        x, fs = m['x'], m['fs']
        n = x.shape[1]
        if name in ('trim', 'beyond'):
            i, j, ti, tj = cut(x, fs, a, b)
            if name == 'beyond':
                j, tj = n, (n + 5.5) / fs
            if d:
                # the duration counts from the start; neither is a multiple
                # of the sampling period
                u = [.5, .1, .3, .6, .9][step % 5]
                w = [.55, .15, .35, .75, .95][(step + i) % 5]
                if abs(u - w) < .01:
                    w = .5
                o.trim((i + u) / fs, 0, dur=(j - i + w - u) / fs)
            else:
                o.trim(ti, tj)
            m['x'] = x[:, i:j]
            if j - i < n:
                changed.add(name)
        elif name == 'conv':
            if n + a > 400:
                continue
            h = r.standard_normal((C, a))
            if b != 'full' or not d:
                h[0, a - a // 3:] = 0.
                h[-1, :a // 4] = 0.
                h[C // 2] *= a % 4 > 0
            mode = 'same' if b == 'same' and a <= n else 'full'
            kw = {'mode': mode} if mode == 'same' or d else {}
            arg = h[0] if kind == 'mono' else h
            if b == 'list':
                arg = arg.tolist()
            ret = o.conv(arg, **kw)
            t.require(ret is o, 'conv does not return the object')
            m['x'] = np.array([np.convolve(v, k, mode)
                               for v, k in zip(x, h)])
            changed.add(name)
        elif name == 'resample':
            if n < 12 or n * a / fs < 12 or n * a / fs > 500:
                continue
            o.resample(a)
            if a != fs:
                m['x'] = resampled(x, fs, a)
                m['fs'] = a
                changed.add(name)
        elif name == 'apply':
            y = r.standard_normal(a)
            o.apply(lambda v, scale=1.: scale * v, y, scale=3.)
            m['x'] = np.tile(3. * y, (C, 1))
            changed.add(name)
        elif name == 'assign':
            k = b % C
            y = r.standard_normal(n if C > 1 else a)
            if kind == 'mono':
                o.signal = y.tolist() if a % 2 else y
            elif kind == 'ambi' and a % 3:
                setattr(o, 'WXYZ'[k], y)
            else:
                o[k].signal = y
            m['x'] = x.copy() if C > 1 else np.zeros((1, len(y)))
            m['x'][k] = y
            changed.add(name)
        elif name == 'copy':
            new = o.copy()
            t.require(type(new) is type(o), f'copy is a {type(new)}')
            other = dict(x=m['x'].copy(), fs=m['fs'])
            if a:
                alive.append((new, other))
            else:
                alive.append((o, m))
                o, m = new, other
        elif name == 'poke':
            k, i = a % C, min(int(b * n), n - 1)
            target = o if kind == 'mono' else o[k]
            if not target.signal.flags.writeable:
                continue
            target.signal[i] = 7.
            m['x'] = x.copy()
            m['x'][k, i] = 7.
            changed.add(name)
        elif name == 'trim_audio' and kind != 'mono':
            i, j, ti, tj = cut(x, fs, a, b)
            new = spa.sig.trim_audio(o, ti, tj)
            same(new, dict(x=x[:, i:j], fs=fs), kind, t, 'trim_audio')
            alive.append((o, m))
            o, m = new, dict(x=x[:, i:j].copy(), fs=fs)
        same(o, m, kind, t, msg)
    for k, (q, w) in enumerate(alive):
        same(q, w, kind, t, f'other object {k} at the end')
    t.nt(len(changed) > 1)
    t.label(kind)
    for k in changed:
        t.label(k)


@R.sub(dict(seed=gen.seeds, g=st.integers(1, 6), taps=st.integers(1, 20),
            ops=st.lists(st.tuples(st.sampled_from(['update', 'eq', 'copy',
                                                    'same']),
                                   st.integers(1, 12)).map(list),
                         min_size=1, max_size=5)), quick=150)
def hrirs(c, t):
    """HRIRs: update, equalise, copy; lengths and items stay consistent."""
    r = gen.rng(c['seed'])
    g = c['g']
    a, z = gen.rand_dirs(r, g)
    x = r.standard_normal((2, g, c['taps']))
    h = spa.sig.HRIRs(x[0].tolist(), x[1], a, z.tolist(), 44100)
    old = []

    def check(h, x, msg):
        t.close(np.asarray(h.left), x[0], f'{msg}: left')
        t.close(np.asarray(h.right), x[1], f'{msg}: right')
        t.require(len(h) == x.shape[2] == h.num_samples,
                  f'{msg}: length {len(h)}, {h.num_samples}')
        t.require(h.num_grid_points == g, f'{msg}: {h.num_grid_points}')
        t.close(h.azi, a, f'{msg}: azi')
        t.close(h.zen, z, f'{msg}: zen')
        t.require(h.fs == 44100, f'{msg}: fs')
        left, right = h[g - 1]
        t.close(left, x[0, -1], f'{msg}: item')
        t.close(right, x[1, -1], f'{msg}: item')

    check(h, x, 'new')
    for name, n in c['ops']:
        if name == 'update':
            x = r.standard_normal((2, g, n))
            h.update_hrirs(x[0].copy(), x[1].copy())
        elif name in ('eq', 'same'):
            e = r.standard_normal(n)
            mode = 'same' if name == 'same' and n <= x.shape[2] else 'full'
            h.apply_ctf_eq(e, mode=mode)
            x = np.array([[np.convolve(v, e, mode) for v in y] for y in x])
        else:
            old.append((h, x))
            h = h.copy()
        t.label(name)
        check(h, x, f'after {name}')
    for h, x in old:
        check(h, x, 'original')
    t.nt(len(c['ops']) > 1)


@R.sub(dict(seed=gen.seeds, N=st.just(1), S=st.integers(1, 30)),
       quick=50)
def b_format(c, t):
    """AmbiBSignal from an SH signal: W / sqrt(4 pi...), x, y, z order, and
    independent of the source signal."""
    r = gen.rng(c['seed'])
    x = r.standard_normal(((c['N'] + 1) ** 2, c['S']))
    m = spa.sig.MultiSignal([*x], fs=8000)
    b = spa.sig.AmbiBSignal.sh_to_b(m)
    t.nt()
    t.require(type(b) is spa.sig.AmbiBSignal and b.fs == 8000, 'type or fs')
    t.close(b.get_signals(), spa.sph.sh_to_b(x), 'samples')
    for k, ch in zip((1, 2, 3), 'YZX'):
        g = np.dot(getattr(b, ch), x[k]) / np.dot(x[k], x[k])
        t.close(getattr(b, ch), g * x[k], f'{ch} is not ACN channel {k}')
        t.require(g > 0, f'sign of {ch}')
    b.W[:] = 0.
    t.close(m.get_signals(), x, 'source changed', rtol=0, atol=0)


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 4), S=st.integers(1, 50),
            mono=st.booleans(), dur=st.booleans()), quick=80)
def refused(c, t):
    """A start behind the end is refused and changes nothing."""
    x = gen.rng(c['seed']).standard_normal((c['C'], c['S']))
    fs = 1000
    o = spa.sig.MonoSignal(x[0], fs) if c['mono'] else \
        spa.sig.MultiSignal([*x], fs=fs)
    t.nt()
    s = (c['S'] + .5) / fs
    t.raises(AssertionError,
             lambda: o.trim(s, s + 1, dur=.1 if c['dur'] else None),
             'trim beyond the end')
    if not c['mono']:
        t.raises(AssertionError, lambda: spa.sig.trim_audio(o, s, s + 1),
                 'trim_audio beyond the end')
    same(o, dict(x=x[:1] if c['mono'] else x, fs=fs),
         'mono' if c['mono'] else 'multi', t, 'after refusal')
    t.raises(ValueError, lambda: spa.sig.MultiSignal([*x]), 'no fs')
    if c['C'] != 4:
        t.raises(AssertionError, lambda: spa.sig.AmbiBSignal([*x], fs=fs),
                 'B-format channels')


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 4), S=gen.bulk,
            fs=st.sampled_from([10, 8000, 44100, 48000.])), quick=60)
def forms(c, t):
    """Samples in any layout and number type, of any level and length."""
    t.single = 1e-4  # parts work in single precision
    r = gen.rng(c['seed'])
    x = r.standard_normal((c['C'], c['S']))
    fs = c['fs']
    t.nt(c['S'] > 1)
    h = r.standard_normal((c['C'], 3))

    def mono(v):
        o = spa.sig.MonoSignal(v[0], fs)
        o.conv(h[0])
        o.trim(0, (len(o) - .5) / fs)
        return o.signal

    def multi(v):
        o = spa.sig.MultiSignal([*v], fs=fs)
        o.conv(h)
        o.trim(.5 / fs, (len(o) + .5) / fs)
        return o.get_signals()

    def filt(v):
        o = spa.sig.MultiSignal([*x], fs=fs)
        return o.conv(v).get_signals()
    s = x[:, :200]
    for nm, f, v in (('mono', mono, s), ('multi', multi, s),
                     ('filters', filt, h)):
        t.forms(f, v, nm, rtol=1e-7, atol=1e-7)
        t.linear(f, v, nm, columns=False)
    if c['S'] > 20 and fs in (8000, 44100):
        for f2 in (fs // 2, 2 * fs):
            def res(v):
                o = spa.sig.MultiSignal([*v], fs=fs)
                o.resample(f2)
                return o.get_signals()
            t.linear(res, s, 'resample', columns=False)
            t.forms(res, s, 'resample', rtol=1e-6, atol=1e-6)
            t.rows(lambda i: res(x[i]), c['C'], 'channels', c['seed'],
                   atol=1e-9)


class Device:
    """Stands in for the sound card."""

    def __init__(self):
        self.calls = []

    def play(self, data, samplerate=None, **kw):
        self.calls.append(('play', np.array(data), samplerate, kw))

    def wait(self):
        self.calls.append(('wait',))


@R.sub(dict(seed=gen.seeds, C=st.integers(0, 4), S=st.integers(1, 50),
            fs=st.sampled_from([48000, 44100.]), gain=st.sampled_from(
                [None, 1., .5, -2.]), wait=st.sampled_from(
                    [None, True, False])), quick=60)
def playback(c, t):
    """The sound card gets samples x channels, scaled, at the right rate."""
    x = gen.rng(c['seed']).standard_normal((max(c['C'], 1), c['S']))
    o = spa.sig.MonoSignal(x[0], c['fs']) if not c['C'] else \
        spa.sig.MultiSignal([*x], fs=c['fs'])
    kw = {k: c[k] for k in ('gain', 'wait') if c[k] is not None}
    t.nt(c['S'] > 1)
    d = Device()
    old = getattr(spa.sig, 'sd', None)
    spa.sig.sd = d
    try:
        o.play(**kw)
    finally:
        if old is None:
            del spa.sig.sd
        else:
            spa.sig.sd = old
    t.require([k[0] for k in d.calls] == ['play'] + ['wait'] * (
        c['wait'] is not False), 'calls of the sound card')
    g = 1. if c['gain'] is None else c['gain']
    t.close(d.calls[0][1], g * (x.T if c['C'] else x[0]), 'samples')
    t.require(d.calls[0][2] == int(c['fs']), 'sampling rate')
    t.close(o.signal if not c['C'] else o.get_signals(),
            x if c['C'] else x[0], 'signal changed', rtol=0, atol=0)


@R.sub(dict(seed=gen.seeds, C=st.integers(0, 4), S=st.integers(1, 60),
            fs=st.sampled_from([8, 1000, 48000, 44100.]), u=frac, v=frac,
            how=st.sampled_from(['empty', 'one', 'whole', 'none', 'past'])),
       quick=60)
def trim_limits(c, t):
    """Trims are cuts [start, stop): nothing, one sample, all; what is not
    there is not invented."""
    r = gen.rng(c['seed'])
    fs, S, C = c['fs'], c['S'], c['C']
    x = r.standard_normal((max(C, 1), S))
    i, k = int(c['u'] * (S - 1)), int(c['v'] * (S - 1))
    a, b = {'empty': (i, i), 'one': (i, i + 1), 'whole': (0, S),
            'none': (k, min(i, k)), 'past': (i, S + k)}[c['how']]
    t.nt(c['how'] != 'whole')
    t.label(c['how'])
    # in the middle of a sampling period: any rounding names these samples
    u, v = (a + .5) / fs, (b + .5) / fs
    want = x[:, a:b]

    def make():
        return spa.sig.MonoSignal(x[0], fs) if C == 0 else \
            spa.sig.MultiSignal([*x], fs=fs)

    def check(o, msg):
        t.require(len(o) == want.shape[1], f'{msg}: {len(o)} samples, '
                  f'{want.shape[1]} expected')
        y = o.signal[None] if C == 0 else np.array(
            [o[k].signal for k in range(len(x))])
        t.close(y, want, msg, rtol=0, atol=0)
        t.require(o.fs == fs, f'{msg}: fs')
    o = make()
    o.trim(u, v)
    check(o, 'trim')
    if b > a:
        # (half a period to spare on both sides)
        o = make()
        o.trim(u, 0, dur=(b - a) / fs)
        check(o, 'trim by duration')
    if C:
        o = make()
        y = spa.sig.trim_audio(o, u, v)
        check(y, 'trim_audio')
        t.close(o.get_signals(), x, 'source of trim_audio', rtol=0, atol=0)
