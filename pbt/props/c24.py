"""C24 importers of HRIR, SOFA and SDM files."""
import os
import tempfile
from unittest import mock

import h5py
import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C24', 'files with random responses of 2..40 directions '
                  'and 2..64 taps on random grids, rates, key names and '
                  'array orientations; non-trivial: all of them')
rates = st.sampled_from([44100, 48000, 96000, 22050])


def tmp():
    return tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH'))


def check(h, x, a, z, fs, t, atol=0.):
    t.require(type(h) is spa.sig.HRIRs, f'{type(h)}')
    t.require(h.fs == fs, f'fs {h.fs}')
    t.require(len(h) == x.shape[2] and h.num_samples == x.shape[2] and
              h.num_grid_points == len(a), 'sizes')
    t.close(h.left, x[0], 'left', rtol=0, atol=atol)
    t.close(h.right, x[1], 'right', rtol=0, atol=atol)
    t.close(h.azi, a, 'azi', rtol=0, atol=max(atol, 1e-12))
    t.close(h.zen, z, 'zen', rtol=0, atol=max(atol, 1e-12))


def shaped(v, how):
    return {'row': v[None], 'col': v[:, None], 'flat': v}[how]


@R.sub(dict(seed=gen.seeds, g=st.integers(2, 40), taps=st.integers(2, 64),
            fs=rates, key=st.sampled_from(['fs', 'SamplingRate']),
            how=st.sampled_from(['row', 'col', 'flat']),
            ask=st.integers(0, 1), f32=st.booleans()), quick=120)
def hrir_mat(c, t):
    """load_hrirs from a .mat file."""
    r = gen.rng(c['seed'])
    x = r.standard_normal((2, c['g'], c['taps']))
    if c['f32']:
        x = x.astype(np.float32)
    a, z = gen.rand_dirs(r, c['g'])
    t.nt()
    t.label(c['key'])
    with tmp() as d:
        f = os.path.join(d, 'h.mat')
        savemat(f, {'hrir_l': x[0], 'hrir_r': x[1], c['key']: c['fs'],
                    'azi': shaped(a, c['how']), 'zen': shaped(z, c['how'])})
        check(spa.io.load_hrirs(c['fs'], f), x.astype(float), a, z, c['fs'],
              t)
        for k in (c['fs'] + 100, c['fs'] - 100, c['fs'] // 2, 2 * c['fs'],
                  44100 if c['fs'] != 44100 else 48000):
            t.raises(AssertionError, lambda: spa.io.load_hrirs(k, f),
                     f'{c["fs"]} Hz file as {k} Hz')


@R.sub(dict(fs=st.sampled_from([44100, 48000, 96000, 16000, 32000])),
       quick=5)
def dummy(c, t):
    """The dummy set: the near ear is louder and earlier, mirrored
    directions swap the ears."""
    h = spa.io.load_hrirs(c['fs'], 'dummy')
    t.nt()
    t.require(h.fs == c['fs'], 'fs')
    t.require(h.left.shape == h.right.shape and len(h.azi) > 100, 'sizes')
    y = np.sin(h.azi) * np.sin(h.zen)
    e_l, e_r = np.sum(h.left ** 2, 1), np.sum(h.right ** 2, 1)
    t.require(np.all(e_l[y > .01] > e_r[y > .01]), 'left is louder')
    t.require(np.all(e_l[y < -.01] < e_r[y < -.01]), 'right is louder')
    p = np.argmax(np.abs(h.left), 1), np.argmax(np.abs(h.right), 1)
    t.require(np.all(p[0][y > .2] < p[1][y > .2]), 'left is earlier')
    t.require(np.all(p[0][y < -.2] > p[1][y < -.2]), 'right is earlier')
    t.raises(NotImplementedError, lambda: spa.io.load_hrirs(12345),
             'no default set at this rate')


def write_sofa(f, x, azi_deg, ele_deg, r, fs, extra=True):
    with h5py.File(f, 'w') as s:
        s.attrs['Conventions'] = 'SOFA'
        s['Data.IR'] = np.moveaxis(x, 0, 1)  # M, R, N
        s['Data.SamplingRate'] = np.array([float(fs)])
        s['SourcePosition'] = np.c_[azi_deg, ele_deg, r]
        if extra:
            s['ListenerPosition'] = np.zeros((1, 3))
            s['ReceiverPosition'] = np.array([[0, .09, 0], [0, -.09, 0]])


sofa = dict(seed=gen.seeds, g=st.integers(2, 40), taps=st.integers(2, 64),
            fs=rates, wrap=st.booleans(), top=st.booleans(),
            jitter=st.sampled_from([0., .01]), r=st.sampled_from([1., 1.5,
                                                                  3.25]),
            extra=st.booleans())


def sofa_case(c):
    r = gen.rng(c['seed'])
    x = r.standard_normal((2, c['g'], c['taps']))
    azi = r.uniform(0, 360, c['g']) if c['wrap'] else \
        r.uniform(-180, 180, c['g'])
    ele = r.uniform(-90, 90, c['g'])
    if c['top']:
        ele[0], ele[-1] = 90., -90.
    rad = c['r'] + c['jitter'] * r.uniform(-1, 1, c['g'])
    return x, azi, ele, rad


@R.sub(sofa, quick=120)
def sofa_hrirs(c, t):
    """load_sofa_data and load_sofa_hrirs."""
    x, azi, ele, rad = sofa_case(c)
    t.nt()
    with tmp() as d:
        f = os.path.join(d, 'h.sofa')
        write_sofa(f, x, azi, ele, rad, c['fs'], c['extra'])
        data = spa.io.load_sofa_data(f)
        h = spa.io.load_sofa_hrirs(f)
        g = os.path.join(d, 'g.sofa')
        far = rad.copy()
        far[0] += c['g']
        write_sofa(g, x, azi, ele, far, c['fs'])
        t.raises(AssertionError, lambda: spa.io.load_sofa_hrirs(g),
                 'distances differ')
    with_extra = {'ListenerPosition', 'ReceiverPosition'} if c['extra'] \
        else set()
    t.require(set(data) == {'Data.IR', 'Data.SamplingRate',
                            'SourcePosition'} | with_extra,
              f'{sorted(data)}')
    t.close(data['Data.IR'], np.moveaxis(x, 0, 1), 'Data.IR')
    t.close(data['SourcePosition'], np.c_[azi, ele, rad], 'SourcePosition')
    t.close(data['Data.SamplingRate'], float(c['fs']), 'Data.SamplingRate')
    check(h, x, np.deg2rad(azi), np.deg2rad(90 - ele), c['fs'], t, 1e-9)


@R.sub(dict(N=st.integers(0, 4), kind=st.sampled_from(['real', 'complex',
                                                       None]), **sofa),
       quick=100)
def sofa_sh(c, t):
    """sofa_to_sh is the least squares fit; exact for order limited sets."""
    N = c['N']
    x, azi, ele, rad = sofa_case(c)
    a, z = np.deg2rad(azi), np.deg2rad(90 - ele)
    kind = c['kind'] or 'real'
    Y = ref.sh(N, a, z, kind)
    s = np.linalg.svd(Y, compute_uv=False)
    if s[-1] < 1e-3 * s[0]:
        t.skip('ill conditioned grid')
    over = len(a) >= Y.shape[1]
    t.nt()
    t.label('exact' if over else 'underdetermined')
    want = np.array([np.linalg.lstsq(Y, e.astype(Y.dtype), rcond=None)[0]
                     for e in x])
    with tmp() as d:
        f = os.path.join(d, 'h.sofa')
        write_sofa(f, x, azi, ele, rad, c['fs'])
        kw = {'sh_type': c['kind']} if c['kind'] else {}
        got, fs = spa.io.sofa_to_sh(f, N, **kw)
    t.require(fs == c['fs'], f'fs {fs}')
    t.close(got, want, 'coefficients', rtol=1e-6, atol=1e-6)


@R.sub(dict(seed=gen.seeds, n=st.integers(2, 80),
            hk=st.sampled_from(['h_ref', 'p']),
            ak=st.sampled_from(['sdm_azi', 'sdm_phi']),
            zk=st.sampled_from(['sdm_zen', 'sdm_theta']), fs=rates,
            how=st.sampled_from(['row', 'col', 'flat']),
            nan=st.sampled_from([0, 1, 3]),
            init=st.sampled_from([None, True, False])), quick=120)
def sdm(c, t):
    """load_sdm with either key names, missing directions initialised."""
    r = gen.rng(c['seed'])
    h = r.standard_normal(c['n'])
    a, z = gen.rand_dirs(r, c['n'])
    if c['nan']:
        a[::c['nan'] + 1] = np.nan
        z[1::c['nan'] + 1] = np.nan
    t.nt()
    t.label(f"nan {bool(c['nan'])} init {c['init']}")
    with tmp() as d:
        f = os.path.join(d, 's.mat')
        savemat(f, {c['hk']: shaped(h, c['how']),
                    c['ak']: shaped(a, c['how']),
                    c['zk']: shaped(z, c['how']), 'fs': c['fs']})
        kw = {} if c['init'] is None else {'init_nan': c['init']}
        gh, ga, gz, fs = spa.io.load_sdm(f, **kw)
    t.require(fs == c['fs'], f'fs {fs}')
    t.close(gh, h, 'p', atol=0)
    if c['init'] is False:
        t.close(np.isnan(ga), np.isnan(a), 'NaN azimuths')
        t.close(np.isnan(gz), np.isnan(z), 'NaN zeniths')
        ga, gz = np.nan_to_num(ga), np.nan_to_num(gz, nan=np.pi / 2)
    t.close(ga, np.where(np.isnan(a), 0., a), 'azi', atol=0)
    t.close(gz, np.where(np.isnan(z), np.pi / 2, z), 'zen', atol=0)


@R.sub(dict(seed=gen.seeds, N=st.integers(1, 3), g=st.integers(2, 12),
            bins=st.sampled_from([33, 65])), quick=15, weight=2)
def default_set(c, t):
    """get_default_hrirs: inverse SHT of the SH set on the given grid, at
    three rates (the download and the written files are stand-ins)."""
    r = gen.rng(c['seed'])
    M = (c['N'] + 1) ** 2
    W = r.standard_normal((2, M, c['bins'])) + \
        1j * r.standard_normal((2, M, c['bins']))
    a, z = gen.rand_dirs(r, c['g'])
    inner = np.empty((1, 1), dtype=object)
    inner[0, 0] = [W[0], W[1], None, None, None,
                   np.linspace(0, 22050, c['bins'])[None]]
    saved = {}

    def load(*k, **w):
        return {'SH': inner, 'SamplingRate': np.array([[44100]])}

    def save(f, d, *k, **w):
        saved[os.path.basename(f)] = d

    with mock.patch('scipy.io.loadmat', load), \
            mock.patch('scipy.io.savemat', save), \
            mock.patch.object(spa.io, 'loadmat', load, create=True), \
            mock.patch.object(spa.io, 'savemat', save, create=True):
        spa.io.get_default_hrirs(a, z, jobs_count=1)
    t.nt()
    t.require(sorted(saved) == [f'HRIRs_default_{k}.mat' for k in
                                (44100, 48000, 96000)], f'{sorted(saved)}')
    Y = ref.sh_cplx(c['N'], a, z)
    x = [np.fft.irfft(Y @ w) for w in W]
    for fs in (44100, 48000, 96000):
        d = saved[f'HRIRs_default_{fs}.mat']
        t.require(int(d['fs']) == fs, 'fs')
        t.close(d['azi'], a, 'azi')
        t.close(d['zen'], z, 'zen')
        for e, k in ((0, 'hrir_l'), (1, 'hrir_r')):
            w = x[e] if fs == 44100 else np.array(
                [spa.process.resample_signal(v, 44100, fs) for v in x[e]])
            t.close(d[k], w, f'{k} at {fs}', rtol=1e-6, atol=1e-6)


@R.sub(dict(seed=gen.seeds, g=st.sampled_from([2, 33, 300, 1025, 2702]),
            taps=st.sampled_from([1, 2, 129, 1024, 2049]),
            small=st.integers(0, 1), level=st.integers(-12, 6),
            fs=rates, ty=st.sampled_from(['<f8', '<f4', '>f8', '<i2']),
            N=st.integers(0, 3)), quick=25, weight=2)
def large_sets(c, t):
    """Measured sets of usual sizes, levels and number types, through all
    importers."""
    r = gen.rng(c['seed'])
    g, taps = c['g'], max(c['taps'], 2)
    if g * taps > 600000:
        g = 300
    if c['small']:
        taps = int(r.integers(2, 50))
    x = r.standard_normal((2, g, taps))
    x[:, 0] *= 1e-6
    x[r.integers(2)] *= 1e-3
    x = x * 10. ** c['level']
    if c['ty'] == '<i2':
        x = np.rint(x / np.max(np.abs(x)) * 30000)
    x = x.astype(c['ty']).astype(float)
    azi, ele = r.uniform(-180, 360, g), r.uniform(-90, 90, g)
    a, z = np.deg2rad(azi), np.deg2rad(90 - ele)
    t.nt()
    t.label(f'{g} directions')
    with tmp() as d:
        f = os.path.join(d, 'h.mat')
        ty = np.dtype(c['ty']).newbyteorder('=')
        savemat(f, {'hrir_l': x[0].astype(ty), 'hrir_r': x[1].astype(ty),
                    'fs': float(c['fs']), 'azi': a, 'zen': z})
        check(spa.io.load_hrirs(c['fs'], f), x, a, z, c['fs'], t)
        home = os.environ.get('HOME')
        os.environ['HOME'] = d
        try:
            check(spa.io.load_hrirs(c['fs'], '~/h.mat'), x, a, z, c['fs'], t)
            f = os.path.join(d, 'h.sofa')
            write_sofa(f, x.astype(c['ty']), azi, ele, np.full(g, 1.2),
                       c['fs'])
            check(spa.io.load_sofa_hrirs('~/h.sofa'), x, a, z, c['fs'], t,
                  1e-9)
            q = spa.io.load_sofa_data('~/h.sofa')
            t.close(q['Data.IR'].astype(float), np.moveaxis(x, 0, 1),
                    'Data.IR', rtol=0, atol=0)
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
        if g > 30:
            got, fs = spa.io.sofa_to_sh(f, c['N'])
            Y = ref.sh(c['N'], a, z, 'real')
            s = np.max(np.abs(x), axis=(1, 2), keepdims=True)
            want = np.array([np.linalg.lstsq(Y, e, rcond=None)[0]
                             for e in x])
            t.close(got / s, want / s, 'coefficients', rtol=1e-7, atol=1e-7)
