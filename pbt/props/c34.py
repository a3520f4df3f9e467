"""C34 results depend on the values of the arguments only."""
import contextlib
import copy
import inspect
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt import core, gen
from pbt.props import c31

R = core.Registry('C34', 'calls out of the table of C31 with generated '
                  'arguments, repeated with every array in other memory '
                  'layouts, as list, as other number type, with numpy '
                  'scalars, with keywords and explicit defaults; '
                  'non-trivial: at least one argument changed its form')
# (function, position): the library asks for arrays here, which it indexes or
# transforms
ARRAYS_ONLY = {
    ('sht', 0), ('sht', 6), ('sht_lstsq', 0), ('sht_lstsq', 5),
    ('inverse_sht', 0), ('inverse_sht', 5), ('rotate_sh', 0),
    ('n3d_to_sn3d', 0), ('sn3d_to_n3d', 0), ('soundfield_to_b', 0),
    ('binaural_coloration_compensation', 1), ('vec2dir', 0), ('deg2rad', 0),
    ('rad2deg', 0), ('from_db', 0), ('interleave_channels', 0),
    ('interleave_channels', 1), ('resample_hrirs', 0), ('resample_hrirs', 1),
    ('subband_levels', 0), ('subband_levels', 1), ('energy_decay', 0),
    ('gain_clipping', 0), ('match_loudness', 0), ('hrirs_ctf', 3),
    ('separate_cov', 0), ('sh_music', 0), ('sh_mvdr', 0), ('sh_lcmv', 0),
    ('sh_sector_beamformer', 0), ('sdm_post_equalization2', 0),
    ('sh2bin', 0), ('sh2bin', 1), ('sad', 0), ('mad', 0), ('epad', 0),
    ('allrad', 0), ('allrad2', 0), ('update_hrirs', 1), ('update_hrirs', 2),
    ('resample_spectrum', 0)}
SIGNALS = (c31.spa.sig.MonoSignal, c31.spa.sig.MultiSignal,
           c31.spa.sig.HRIRs)


def layouts(x):
    yield 'column major', np.asfortranarray(x)
    big = np.full(tuple(2 * k + 1 for k in x.shape), 7).astype(x.dtype)
    v = big[tuple(slice(1, None, 2) for _ in x.shape)]
    v[...] = x
    yield 'strided', v
    rev = tuple(slice(None, None, -1) for _ in x.shape)
    yield 'reversed view', np.ascontiguousarray(x[rev])[rev]
    ro = x.copy()
    ro.setflags(write=False)
    yield 'read-only', ro


def spread(o, kind):
    """A copy of a signal object whose arrays have another layout."""
    o = copy.deepcopy(o)

    def lay(x):
        return dict(layouts(x))[kind]
    if isinstance(o, c31.spa.sig.MultiSignal):
        for ch in o.channels:
            ch.signal = lay(ch.signal)
    elif isinstance(o, c31.spa.sig.MonoSignal):
        o.signal = lay(o.signal)
    else:
        o.left, o.right = lay(o.left), lay(o.right)
        o.azi, o.zen = lay(o.azi), lay(o.zen)
    return o


def variants(name, public, pos, v):
    """(what, other form of the same value)"""
    if isinstance(v, np.ndarray) and v.ndim:
        yield from layouts(v)
        if public and (name, pos) not in ARRAYS_ONLY and v.dtype != object:
            yield 'list', v.tolist()
            if v.ndim == 1:
                yield 'tuple', tuple(v.tolist())
        if v.dtype.kind == 'f' and v.size and np.all(v == np.rint(v)) and \
                np.max(np.abs(v)) < 100 and not np.any(np.signbit(
                    v) & (v == 0)):
            yield 'int64', v.astype(np.int64)
            yield 'int32', v.astype(np.int32)
            yield 'float32', v.astype(np.float32)
    elif isinstance(v, (list, tuple)) and v and all(
            type(k) in (int, float) for k in v):
        yield 'list', list(v)
        yield 'tuple', tuple(v)
        yield 'array', np.array(v)
    elif type(v) is float:
        yield 'numpy scalar', np.float64(v)
        if v == int(v) and abs(v) < 1e9:
            yield 'integer', int(v)
    elif type(v) is int:
        yield 'numpy scalar', np.int64(v)
        yield 'numpy int32', np.int32(v)
    elif isinstance(v, SIGNALS):
        for kind in ('column major', 'strided', 'reversed view',
                     'read-only'):
            yield f'signals {kind}', spread(v, kind)


def run(fn, a, k):
    np.random.seed(0)
    with contextlib.redirect_stdout(io.StringIO()):
        return c31.freeze(fn(*a, **k))


def check_call(group, c, t):
    r = gen.rng(c['w'])
    maker = c31.CALLS[group][c['f'] % len(c31.CALLS[group])]
    table = maker(r)
    name, fn, a, k = table[c['k'] % len(table)]
    public = getattr(fn, '__module__', '').startswith('spaudiopy')
    t.label(name)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        want = run(fn, *copy.deepcopy((a, k)))

        def same(a, k, what):
            got = run(fn, a, k)
            d = c31.same(want, got, 1e-7)
            if d and name == 'angle_between':   # arccos next to one
                d = None if np.allclose(got, want, atol=1e-6) else d
            t.require(d is None, f'{name}: {what} changes the result: {d}')
        par = None
        if public:
            try:
                sig = inspect.signature(fn)
                par = list(sig.parameters)
                plain = all(p.kind is p.POSITIONAL_OR_KEYWORD
                            for p in sig.parameters.values())
            except (TypeError, ValueError):
                plain = False
        else:
            plain = False
        slots = [(i, None, v) for i, v in enumerate(a)] + \
            [(par.index(key) if par and key in par else None, key, v)
             for key, v in k.items()]
        for pos, key, v in slots:
            for what, other in variants(name, public, pos, v):
                b, q = list(copy.deepcopy(a)), copy.deepcopy(k)
                if key is None:
                    b[pos] = other
                else:
                    q[key] = other
                t.nt()
                same(b, q, f'argument {key or pos} as {what}')
        if plain:
            t.nt()
            b = sig.bind(*copy.deepcopy(a), **copy.deepcopy(k))
            b.apply_defaults()
            same(b.args, b.kwargs, 'explicit default')
            b = sig.bind(*copy.deepcopy(a), **copy.deepcopy(k))
            q = dict(b.arguments)
            b.apply_defaults()
            if par[0] != 'self':
                same((), q, 'keywords')
                same((), copy.deepcopy(dict(b.arguments)),
                     'keywords and defaults')


def make(group, quick):
    def check(c, t):
        check_call(group, c, t)
    check.__name__ = group
    check.__doc__ = f'{group}: other forms of equal arguments.'
    R.sub(dict(w=gen.seeds, f=st.integers(0, 59), k=st.integers(0, 59)),
          quick=quick, weight=4)(check)


for _g, _q in (('sph', 1500), ('utils', 1200), ('process', 600),
               ('parsa', 600), ('decoder', 800), ('signals', 500)):
    make(_g, _q)
