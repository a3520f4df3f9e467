"""Generators shared by the property modules (all JSON-able)."""
import numpy as np
from hypothesis import strategies as st

PI = float(np.pi)
seeds = st.integers(0, 2**31 - 1)

AZI_SPECIAL = [0., PI / 2, PI, -PI, -PI / 2, 3 * PI / 2, 2 * PI, PI / 4,
               -3 * PI / 4, 1e-9, -1e-9]
ZEN_SPECIAL = [0., PI / 2, PI, PI / 4, 3 * PI / 4, 1e-9, PI - 1e-9]

azis = st.one_of(st.sampled_from(AZI_SPECIAL),
                 st.floats(-2 * PI, 2 * PI, allow_nan=False))
zens = st.one_of(st.sampled_from(ZEN_SPECIAL),
                 st.floats(0., PI, allow_nan=False))
direction = st.tuples(azis, zens).map(list)


def dirs(lo=1, hi=8):
    return st.lists(direction, min_size=lo, max_size=hi)


def split(d):
    d = np.asarray(d, float).reshape(-1, 2)
    return d[:, 0].copy(), d[:, 1].copy()


def order(usual, most):
    """Mostly small orders, sometimes large ones."""
    return st.one_of(st.integers(0, usual), st.integers(0, usual),
                     st.integers(usual, most))


levels = st.sampled_from([1., 1., 1., 1e-6, 1e-3, 50., 1e5])


# batch sizes around the usual block sizes
bulk = st.one_of(st.integers(1, 40), st.sampled_from(
    [63, 65, 129, 257, 300, 513, 1000, 1025, 2049, 3000]),
    st.sampled_from([1500, 4097, 5000]))

block = st.one_of(st.integers(1, 20), st.sampled_from([33, 65, 129, 257]),
                  st.sampled_from([129, 300, 513]))


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


def rng(seed):
    return np.random.default_rng(int(seed))


def rand_vecs(r, n):
    v = r.standard_normal((n, 3))
    return v / np.linalg.norm(v, axis=1)[:, None]


def rand_dirs(r, n):
    v = rand_vecs(r, n)
    return np.arctan2(v[:, 1], v[:, 0]), np.arccos(np.clip(v[:, 2], -1, 1))


def as_kind(x, kind):
    """The same numbers as list / tuple / array."""
    x = np.asarray(x)
    if kind == 'list':
        return x.tolist()
    if kind == 'tuple':
        return tuple(x.tolist())
    return x.copy()


kinds = st.sampled_from(['array', 'list', 'tuple'])
