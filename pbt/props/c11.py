"""C11 the number of parallel jobs never changes a result."""
import os
import tempfile

import numpy as np
import soundfile as sf
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref, setups

R = core.Registry('C11', 'job counts 2..9 and None against one job, 1..333 '
                  'items, one or several calls in a process; non-trivial: '
                  'more than one item is shared between workers')
JOBS = st.sampled_from([2, 3, 4, 5, 7, 9, None])


def same(t, got, want, msg, atol=1e-12):
    if isinstance(want, tuple):
        t.require(len(got) == len(want), f'{msg}: {len(got)} results')
        for i, (g, w) in enumerate(zip(got, want)):
            t.close(g, w, f'{msg} [{i}]', rtol=1e-10, atol=atol)
    else:
        t.close(got, want, msg, rtol=1e-10, atol=atol)


def prepare(s, t):
    """A layout with kernel, domes are closed by an imaginary speaker."""
    h = setups.build(s)
    if s['kind'] == 'dome':
        h.pop_triangles(normal_limit=85, aperture_limit=110)
    im = np.array([[.05, .1, -1.1]]) * s['scale'] \
        if s['kind'] == 'dome' else None
    h.ambisonics_setup(update_hull=im is not None, imaginary_ls=im,
                       characteristic_order=3, N_kernel=8)
    for x in (h, h.ambisonics_hull):
        if not setups.well_posed(x.points, x.valid_simplices) or \
                setups.depth(x, x.valid_simplices) < 1e-3:
            t.skip('degenerate layout')
    return h


def norm_sources(r, n, p):
    v = gen.rand_vecs(r, n)
    v[::7] = p[np.arange(len(v[::7])) % len(p)]
    return v


@R.sub(dict(s=setups.specs(kinds=('random', 'dome', 'rings'), lo=6, hi=16),
            calls=st.lists(st.tuples(
                st.sampled_from(['vbap', 'vbip', 'vbap', 'subset',
                                 'outside']),
                st.sampled_from([1, 9, 10, 11, 17, 33, 60, 250]), JOBS).map(list),
                min_size=1, max_size=3), norm=st.sampled_from([1, 2, 3, .5, float('inf')])),
       quick=70, weight=9)
def panning(c, t):
    """vbap and vbip, also with a subset of faces and outside of the hull."""
    h = prepare(c['s'], t)
    r = gen.rng(c['s']['seed'] + 5)
    for kind, n, jobs in c['calls']:
        v = norm_sources(r, n, h.points)
        t.nt(n >= 10)
        t.label(f'{kind} jobs {jobs}')
        if kind == 'outside' and h.ambisonics_hull.imaginary_ls_idx is None:
            kind = 'vbap'
        kw = {}
        if kind == 'subset':
            kw['valid_simplices'] = h.valid_simplices[::2]
        if kind == 'outside':
            kw['retain_outside'] = True
        f = spa.decoder.vbip if kind == 'vbip' else spa.decoder.vbap
        one = f(v, h, norm=c['norm'], jobs_count=1, **kw)
        par = f(v, h, norm=c['norm'], jobs_count=jobs, **kw)
        same(t, par, one, f'{kind} of {n} sources with {jobs} jobs')
        t.require(par.flags.writeable, 'gains cannot be written')


@R.sub(dict(s=setups.specs(kinds=('random', 'dome'), lo=6, hi=12,
                           radii=(0.,), offset=False),
            N=gen.order(4, 7).map(lambda n: max(n, 1)),
            n=st.sampled_from([1, 2, 11, 40]), jobs=JOBS), quick=22, weight=9)
def allround(c, t):
    """AllRAP and AllRAD decoders pan their kernel in parallel."""
    h = prepare(c['s'], t)
    r = gen.rng(c['s']['seed'] + 5)
    t.nt()
    t.label(c['jobs'])
    for name in ('allrap', 'allrap2', 'allrad', 'allrad2'):
        f = getattr(spa.decoder, name)
        x = norm_sources(r, c['n'], h.points) if 'rap' in name else \
            r.standard_normal(((c['N'] + 1) ** 2, c['n']))
        one = f(x, h, N_sph=c['N'], jobs_count=1)
        same(t, f(x, h, N_sph=c['N'], jobs_count=c['jobs']), one, name)
        same(t, f(x, h, N_sph=c['N']), one, name + ' default')


@R.sub(dict(seed=gen.seeds, runs=st.lists(st.tuples(
    st.sampled_from([6, 12, 40, 90, 333]), JOBS).map(list), min_size=1,
    max_size=2), win=st.sampled_from([3, 5, 11, 33]),
    smooth=st.sampled_from([0, 3, 5]),
    bp=st.sampled_from([None, [200, 4000]])), quick=45, weight=9)
def intensity(c, t):
    """pseudo_intensity of signals of different length."""
    r = gen.rng(c['seed'])
    for n, jobs in c['runs']:
        if c['bp'] and n < 40:
            n = 40
        B = spa.sig.AmbiBSignal([*r.standard_normal((4, n))], fs=48000)
        kw = dict(win_len=c['win'], smoothing_order=c['smooth'],
                  f_bp=c['bp'])
        t.nt(n > c['win'] + 1)
        t.label(f'jobs {jobs}')
        one = spa.parsa.pseudo_intensity(B, jobs_count=1, **kw)
        par = spa.parsa.pseudo_intensity(B, jobs_count=jobs, **kw)
        same(t, par, one, f'{n} samples with {jobs} jobs', atol=1e-9)


class Fixed(spa.sig.HRIRs):
    """HRIRs without any search: workers contend for the result."""

    def nearest_hrirs(self, azi, zen):
        k = int(np.atleast_1d(azi)[0]) % self.num_grid_points
        return self.left[k], self.right[k]


@R.sub(dict(seed=gen.seeds, runs=st.lists(st.tuples(
    st.sampled_from([1, 2, 7, 30, 63, 150]), JOBS).map(list), min_size=1,
    max_size=2), taps=st.sampled_from([1, 2, 16, 64]), g=st.integers(2, 12)),
    quick=50, weight=9)
def binaural_sdm(c, t):
    """render_bsdm for ordinary HRIR sets."""
    r = gen.rng(c['seed'])
    a, z = gen.rand_dirs(r, c['g'])
    h = spa.sig.HRIRs(*r.standard_normal((2, c['g'], c['taps'])), a, z, 48000)
    for n, jobs in c['runs']:
        p = r.standard_normal(n)
        phi, theta = gen.rand_dirs(r, n)
        t.nt(n > 1)
        t.label(f'jobs {jobs}')
        one = spa.parsa.render_bsdm(p, phi, theta, h, jobs_count=1)
        par = spa.parsa.render_bsdm(p, phi, theta, h, jobs_count=jobs)
        same(t, par, one, f'{n} samples with {jobs} jobs', atol=1e-10)


@R.sub(dict(seed=gen.seeds, n=st.integers(60, 200),
            jobs=st.sampled_from([4, 8]), taps=st.sampled_from([4000, 20000])),
       quick=8, thorough=200, weight=9)
def contention(c, t):
    """render_bsdm when the workers add to the same samples all the time."""
    r = gen.rng(c['seed'])
    h = Fixed(*r.standard_normal((2, 3, c['taps'])), np.zeros(3), np.zeros(3),
              48000)
    p = r.standard_normal(c['n'])
    phi = r.integers(0, 3, c['n']).astype(float)
    t.nt()
    one = spa.parsa.render_bsdm(p, phi, phi * 0, h, jobs_count=1)
    par = spa.parsa.render_bsdm(p, phi, phi * 0, h, jobs_count=c['jobs'])
    same(t, par, one, 'contention', atol=1e-8)


@R.sub(dict(seed=gen.seeds, runs=st.lists(st.tuples(
    st.sampled_from([1, 2, 5, 13]), JOBS,
    st.sampled_from([[48000, 44100], [44100, 48000], [48000, 96000],
                     [16000, 8000]])).map(list), min_size=1, max_size=2),
    taps=st.sampled_from([32, 65, 128])), quick=24, weight=9)
def hrir_resampling(c, t):
    """resample_hrirs."""
    r = gen.rng(c['seed'])
    for g, jobs, fs in c['runs']:
        x = r.standard_normal((2, g, c['taps']))
        t.nt(g > 1)
        t.label(f'jobs {jobs}')
        one = spa.process.resample_hrirs(x[0], x[1], *fs, jobs_count=1)
        par = spa.process.resample_hrirs(x[0], x[1], *fs, jobs_count=jobs)
        same(t, par, one, f'{g} directions with {jobs} jobs')


@R.sub(dict(s=setups.specs(lo=5, hi=8), S=st.integers(1, 6),
            taps=st.integers(2, 6), g=st.integers(3, 12), jobs=JOBS),
       quick=9, thorough=150, weight=10)
def brir_files(c, t):
    """Files of write_ssr_brirs_loudspeaker."""
    h = setups.build(c['s'])
    r = gen.rng(c['s']['seed'] + 3)
    a, z = gen.rand_dirs(r, c['g'])
    hr = spa.sig.HRIRs(*r.uniform(-.1, .1, (2, c['g'], c['taps'])), a, z,
                       48000)
    irs = r.uniform(-1, 1, (h.npoints, c['S']))
    t.nt()
    out = []
    with tempfile.TemporaryDirectory(dir=os.environ.get('SCRATCH')) as d:
        for k, jobs in enumerate((1, c['jobs'])):
            f = os.path.join(d, f'b{k}.wav')
            spa.io.write_ssr_brirs_loudspeaker(f, irs, h, 48000, hrirs=hr,
                                               jobs_count=jobs)
            out.append(sf.read(f, always_2d=True))
    t.require(out[0][1] == out[1][1], 'rates differ')
    same(t, out[1][0], out[0][0], f'{c["jobs"]} jobs', atol=1e-6)
