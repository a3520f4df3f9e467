"""C22 audio files round trip."""
import os
import tempfile

import numpy as np
import soundfile as sf
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen

R = core.Registry('C22', 'signals of 1..6 channels and 1..400 samples, '
                  'float and integer subtypes, wav and flac, several rates; '
                  'non-trivial: more than one sample')
STEP = {'FLOAT': 1.2e-7, 'DOUBLE': 1e-15, 'PCM_16': 1 / 32767,
        'PCM_24': 1.3e-7, 'PCM_32': 1e-9}
rates = st.sampled_from([8000, 22050, 44100, 48000, 96000, 192000])
formats = st.sampled_from([['.wav', None], ['.wav', 'FLOAT'],
                           ['.wav', 'DOUBLE'], ['.wav', 'PCM_16'],
                           ['.wav', 'PCM_24'], ['.wav', 'PCM_32'],
                           ['.flac', 'PCM_16'], ['.flac', 'PCM_24']])


def samples(seed, C, S, sub):
    r = gen.rng(seed)
    top = 3. if sub in (None, 'FLOAT', 'DOUBLE') else .99
    x = r.uniform(-top, top, (C, S))
    x[:, ::5] = 0.
    if seed % 4 == 0:
        x *= 1e-4
    # full scale, as far as every integer type has it
    x[:, 1::7] = -1.
    x[-1, 2::7] = 1 - 2. ** -15
    return x


def tol(sub, x):
    return STEP[sub or 'FLOAT'] * max(1., np.max(np.abs(x)))


def check(got, x, fs, sub, t, msg):
    C = len(x)
    t.require(got.fs == fs, f'{msg}: fs {got.fs} instead of {fs}')
    if C == 1:
        t.require(type(got) is spa.sig.MonoSignal, f'{msg}: {type(got)}')
        t.close(got.signal, x[0], f'{msg}: samples', rtol=0,
                atol=tol(sub, x))
        t.require(len(got) == x.shape[1], f'{msg}: length')
    else:
        t.require(isinstance(got, spa.sig.MultiSignal), f'{msg}: '
                  f'{type(got)}')
        t.close(got.get_signals(), x, f'{msg}: channel, sample', rtol=0,
                atol=tol(sub, x))
        t.require(all(ch.fs == fs for ch in got.channels), f'{msg}: rates')


def write(f, x, fs, how, sub, give_fs):
    """Save through one of the interfaces."""
    kw = {} if sub is None else {'subtype': sub}
    if how in ('object', 'method'):
        C = len(x)
        o = spa.sig.MonoSignal(x[0], fs) if C == 1 else \
            spa.sig.MultiSignal([*x], fs=fs)
        if C == 4 and give_fs:
            o = spa.sig.AmbiBSignal([*x], fs=fs)
        if how == 'method':
            o.save(f, **kw)
        else:
            spa.io.save_audio(o, f, **({'fs': fs} if give_fs else {}), **kw)
    else:
        y = x.T if len(x) > 1 or give_fs else x[0]
        spa.io.save_audio(y, f, fs, **kw)


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 6), S=st.integers(1, 400),
            fs=rates, fmt=formats, give_fs=st.booleans(),
            ask=st.booleans(), how=st.sampled_from(['object', 'method',
                                                    'array'])), quick=350)
def one_file(c, t):
    """Save and load, all interfaces."""
    ext, sub = c['fmt']
    fs, C = c['fs'], c['C']
    x = samples(c['seed'], C, c['S'], sub)
    keep = x.copy()
    t.nt(c['S'] > 1)
    t.label(f'{ext} {sub}')
    t.label(c['how'])
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        f = os.path.join(d, 'a' + ext)
        write(f, x, fs, c['how'], sub, c['give_fs'])
        t.close(x, keep, 'signal changed', rtol=0, atol=0)
        info = sf.info(f)
        t.require(info.subtype == (sub or 'FLOAT'), f'{info.subtype} written')
        t.require((info.channels, info.frames, info.samplerate) ==
                  (C, c['S'], fs), f'header {info.channels} channels, '
                  f'{info.frames} frames, {info.samplerate} Hz')
        kw = {'fs': fs} if c['ask'] else {}
        for name in (f, [f], (f,)):
            check(spa.io.load_audio(name, **kw), x, fs, sub, t, 'load_audio')
        cls = spa.sig.MonoSignal if C == 1 else spa.sig.MultiSignal
        check(cls.from_file(f, **kw), x, fs, sub, t, 'from_file')
        if C == 4:
            o = spa.sig.AmbiBSignal.from_file(f, **kw)
            t.require(type(o) is spa.sig.AmbiBSignal, 'type')
            check(o, x, fs, sub, t, 'AmbiBSignal.from_file')
        # and a second generation is identical
        g = os.path.join(d, 'b' + ext)
        spa.io.load_audio(f).save(g, subtype=sub or 'FLOAT')
        a, b = sf.read(f, always_2d=True), sf.read(g, always_2d=True)
        t.close(b[0], a[0], 'second generation', rtol=0, atol=1e-15)
        wrong = fs + 1
        t.raises(ValueError, lambda: spa.io.load_audio(f, fs=wrong),
                 'load with another rate')
        t.raises(ValueError, lambda: cls.from_file(f, fs=wrong),
                 'from_file with another rate')
        other = spa.sig.MultiSignal if C == 1 else spa.sig.MonoSignal
        t.raises(ValueError, lambda: other.from_file(f), 'wrong class')


@R.sub(dict(seed=gen.seeds, chans=st.lists(st.integers(1, 3), min_size=2,
                                           max_size=14),
            S=st.integers(1, 100), fs=rates, fmt=formats,
            odd=st.integers(0, 13), long=st.booleans(), kind=st.sampled_from(['list', 'tuple'])),
       quick=120)
def several_files(c, t):
    """The channels of several files follow each other."""
    ext, sub = c['fmt']
    xs = [samples(c['seed'] + i, n, c['S'], sub)
          for i, n in enumerate(c['chans'])]
    t.nt()
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        names = []
        # the order of the names is not the order of the files
        order = gen.rng(c['seed']).permutation(len(xs))
        if c['long']:
            d = os.path.join(d, 'x' * 120, 'y' * 120)
            os.makedirs(d)
        for i, x in enumerate(xs):
            f = os.path.join(d, f'{order[i]}{ext}')
            write(f, x, c['fs'], 'object', sub, False)
            names.append(f)
        names = tuple(names) if c['kind'] == 'tuple' else names
        check(spa.io.load_audio(names), np.vstack(xs), c['fs'], sub, t,
              'load_audio')
        k = c['odd'] % len(names)
        write(names[k], xs[k], c['fs'] // 2, 'object', sub, False)
        t.raises((AssertionError, ValueError),
                 lambda: spa.io.load_audio(names), 'mixed rates')


@R.sub(dict(seed=gen.seeds, C=st.integers(1, 4), S=st.integers(1, 50),
            fs=rates), quick=60)
def refused(c, t):
    """Rates that contradict the signal and unknown data are refused, and no
    file is written."""
    x = samples(c['seed'], c['C'], c['S'], 'PCM_16')
    o = spa.sig.MonoSignal(x[0], c['fs']) if c['C'] == 1 else \
        spa.sig.MultiSignal([*x], fs=c['fs'])
    t.nt()
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        f = os.path.join(d, 'a.wav')
        t.raises((AssertionError, ValueError),
                 lambda: spa.io.save_audio(o, f, fs=c['fs'] + 100),
                 'another rate')
        t.raises(ValueError, lambda: spa.io.save_audio(x.T, f), 'no rate')
        t.raises(NotImplementedError,
                 lambda: spa.io.save_audio(x.tolist(), f, c['fs']), 'list')
        t.raises(Exception, lambda: spa.io.save_audio(
            x[None], f, c['fs']), 'three dimensions')
        t.require(not os.path.exists(f), 'file written')


@R.sub(dict(seed=gen.seeds, C=st.sampled_from([1, 2, 9, 16, 36, 65, 130,
                                               255]),
            S=st.sampled_from([1, 2, 100, 4096, 5001]),
            big=st.integers(0, 9), fs=rates,
            sub=st.sampled_from([None, 'FLOAT', 'DOUBLE']),
            how=st.sampled_from(['object', 'method', 'array']),
            level=st.integers(-12, 5)), quick=60,
       examples=[dict(seed=s, C=C, S=100, big=b, fs=48000, sub='DOUBLE',
                      how=how, level=-3)
                 for s, C, b, how in [(1, 1, 0, 'array'), (2, 2, 0, 'object'),
                                      (3, 64, 1, 'method')]])
def sizes_and_levels(c, t):
    """Many channels, long files, any level; an old file is replaced; names
    with the home folder and path objects."""
    r = gen.rng(c['seed'])
    C = c['C']
    S = int(r.integers(1, 300000 if C < 3 else 3000)) if c['big'] == 0 \
        else max(c['S'], 1)
    t.nt(S > 1)
    t.label(f'{C} channels')
    x = r.standard_normal((C, S)) * 10. ** c['level']
    x[r.integers(C)] *= 1e-5
    how = c['how']
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        f = os.path.join(d, 'a.wav')
        # an older and longer file of the same name
        sf.write(f, r.uniform(-.5, .5, (S + 50, 3)), 8000)
        kw = {} if c['sub'] is None else {'subtype': c['sub']}
        if how == 'array':
            spa.io.save_audio(x.T, f, c['fs'], **kw)
        else:
            o = spa.sig.MonoSignal(x[0], c['fs']) if C == 1 else \
                spa.sig.MultiSignal([*x], fs=c['fs'])
            if how == 'method':
                o.save(f, **kw)
            else:
                spa.io.save_audio(o, f, **kw)
        got = spa.io.load_audio(f)
        t.require(got.fs == c['fs'], f'fs {got.fs}')
        y = got.signal[None] if C == 1 else np.asarray(got.get_signals())
        t.require(y.shape == x.shape, f'{y.shape} instead of {x.shape}')
        e = 1e-15 if c['sub'] == 'DOUBLE' else 1.2e-7
        t.close(y, x, 'samples', rtol=e, atol=1e-300 if c['sub'] == 'DOUBLE'
                else 1e-38)
        # other ways of naming the file
        import pathlib
        home = os.environ.get('HOME')
        os.environ['HOME'] = d
        try:
            for name in ('~/a.wav', ['~/a.wav'], pathlib.Path(f)):
                check(spa.io.load_audio(name), y, c['fs'], 'DOUBLE', t,
                      f'load_audio({type(name).__name__})')
            x1 = x[:, :min(S, 50)]
            spa.io.save_audio(x1.T, '~/b.wav', c['fs'], subtype='DOUBLE')
            check(spa.io.load_audio(os.path.join(d, 'b.wav')), x1, c['fs'],
                  'DOUBLE', t, 'saved to ~')
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
        # layout of the array
        for v in (np.asfortranarray(x1.T), x1.T.copy()[::1],
                  np.repeat(x1, 2, axis=1)[:, ::2].T):
            v.setflags(write=False)
            spa.io.save_audio(v, f, c['fs'], subtype='DOUBLE')
            check(spa.io.load_audio(f), x1, c['fs'], 'DOUBLE', t, 'layouts')


@R.sub(dict(seed=gen.seeds, n=st.lists(st.integers(1, 3), min_size=2,
                                       max_size=5),
            S=st.integers(2, 100), fs=rates), quick=40)
def rates_of_several(c, t):
    """The rate of several files is checked against each of them, and
    against the requested one, for every kind of signal."""
    t.nt()
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        names, xs = [], []
        for i, n in enumerate(c['n']):
            x = samples(c['seed'] + i, n, c['S'], 'FLOAT')
            f = os.path.join(d, f'{i}.wav')
            spa.io.save_audio(x.T, f, c['fs'])
            names.append(f)
            xs.append(x)
        x = np.vstack(xs)
        check(spa.io.load_audio(names, fs=c['fs']), x, c['fs'], 'FLOAT', t,
              'load_audio')
        for f, y in zip(names, xs):
            cls = spa.sig.MonoSignal if len(y) == 1 else spa.sig.MultiSignal
            check(cls.from_file(f, fs=c['fs']), y, c['fs'], 'FLOAT', t,
                  'from_file')
        for wrong in (c['fs'] + 1, c['fs'] - 1, 2 * c['fs'], c['fs'] / 2):
            t.raises(ValueError, lambda: spa.io.load_audio(names, fs=wrong),
                     f'{c["fs"]} Hz files as {wrong} Hz')
        # the same file twice
        check(spa.io.load_audio([names[0], names[0]]),
              np.vstack([xs[0], xs[0]]), c['fs'], 'FLOAT', t, 'twice')
