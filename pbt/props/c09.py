"""C09 MVDR / LCMV / MUSIC / covariance separation."""
import numpy as np
from hypothesis import strategies as st
import spaudiopy as spa
from pbt import core, gen, ref

R = core.Registry('C09', 'random symmetric positive definite covariances and '
                  'scenes of plane waves in noise, order 0..7; non-trivial: '
                  'order >= 1')


def spd(c, N):
    """Random covariance with a controlled condition number."""
    L = (N + 1) ** 2
    r = gen.rng(c['seed'])
    q, _ = np.linalg.qr(r.standard_normal((L, L)))
    w = 10. ** (r.uniform(-c['cond'], 0, L)) * 10. ** c['level']
    S = q @ np.diag(w) @ q.T
    return (S + S.T) / 2


base = dict(N=gen.order(4, 7), seed=gen.seeds,
            cond=st.sampled_from([0., 1., 3., 5.]),
            level=st.sampled_from([-4., 0., 3.]))


@R.sub(dict(base, dirs=gen.dirs(1, 5), kind=gen.kinds), quick=120)
def mvdr(c, t):
    """Distortionless in every direction, with the least output power."""
    N = c['N']
    t.nt(N >= 1)
    t.label(f'order {N}')
    S = spd(c, N)
    keep = S.copy()
    azi, zen = gen.split(c['dirs'])
    Y = ref.sh_real(N, azi, zen)
    W = spa.parsa.sh_mvdr(S, gen.as_kind(azi, c['kind']),
                          gen.as_kind(zen, c['kind']))
    t.require(W.shape == Y.shape, f'shape {W.shape}')
    t.close(S, keep, 'covariance changed', atol=0, rtol=0)
    t.close(np.sum(W * Y, axis=1), np.ones(len(azi)), 'gain', atol=1e-6)
    r = gen.rng(c['seed'] + 1)
    for w, y in zip(W, Y):
        p = w @ S @ w
        # Lagrange condition: S w is a multiple of the steering vector
        t.close(S @ w, y * p, 'optimality', atol=1e-5 * np.max(np.abs(y * p)))
        for _ in range(3):
            d = r.standard_normal(len(y))
            d -= y * (d @ y) / (y @ y)
            o = w + d * 10. ** r.uniform(-3, 0)
            t.require(o @ S @ o >= p * (1 - 1e-6),
                      'another beam with unit gain has less power')
    t.close(spa.parsa.sh_mvdr(7. * S, azi, zen), W, 'scale of covariance',
            atol=1e-6 * np.max(np.abs(W)))
    k = len(azi) - 1
    t.close(spa.parsa.sh_mvdr(S, azi[k], zen[k]), W[k:], 'single direction',
            atol=1e-6 * np.max(np.abs(W)))


@R.sub(dict(base, K=st.integers(1, 6), gains=st.lists(
    st.one_of(st.sampled_from([0., 1., -1.]), gen.floats(-3, 3)), min_size=6,
    max_size=6), kind=gen.kinds), quick=120)
def lcmv(c, t):
    """All constraints met, with the least output power."""
    N = c['N']
    L = (N + 1) ** 2
    K = min(c['K'], L)
    r = gen.rng(c['seed'])
    azi, zen = gen.rand_dirs(r, K)
    V = ref.sh_real(N, azi, zen)
    if np.linalg.cond(V) > 50:
        t.skip('constraints too close')
    t.nt(N >= 1)
    t.label(f'{K} constraints')
    S = spd(c, N)
    g = np.array(c['gains'][:K])
    as_k = (lambda x: gen.as_kind(x, c['kind']))
    w = np.asarray(spa.parsa.sh_lcmv(S, as_k(azi), as_k(zen), as_k(g)))
    t.require(w.shape == (L,), f'shape {w.shape}')
    sc = max(1., np.max(np.abs(g)))
    t.close(V @ w, g, 'constraint gains', atol=1e-5 * sc)
    # S w lies in the span of the constraint vectors
    Sw = S @ w
    co = np.linalg.lstsq(V.T, Sw, rcond=None)[0]
    t.close(V.T @ co, Sw, 'optimality',
            atol=1e-5 * max(np.max(np.abs(Sw)), 1e-12))
    p = w @ S @ w
    q = np.linalg.svd(V)[2][K:]
    for d in q[:3]:
        o = w + .1 * d * max(np.linalg.norm(w), 1e-3)
        t.require(o @ S @ o >= p * (1 - 1e-6), 'better beam exists')
    w2 = spa.parsa.sh_lcmv(S, azi, zen, 2. * g)
    t.close(w2, 2 * w, 'linear in the gains',
            atol=1e-6 * max(1e-9, np.max(np.abs(w))))
    m = spa.parsa.sh_mvdr(S, azi[:1], zen[:1])[0]
    t.close(spa.parsa.sh_lcmv(S, azi[:1], zen[:1], [1.]), m,
            'one constraint is MVDR', atol=1e-5 * np.max(np.abs(m)))


@R.sub(dict(base, cut=st.integers(-1, 24), rank=st.integers(1, 25)),
       quick=120)
def separate(c, t):
    """Parts sum to the input; requested rank; flattened residual."""
    N = c['N']
    L = (N + 1) ** 2
    S = spd(c, N)
    if c['rank'] < L and c['seed'] % 2:
        w, v = np.linalg.eigh(S)
        w[:L - c['rank']] = 0.
        S = v @ np.diag(w) @ v.T
        S = (S + S.T) / 2
        t.label('rank deficient')
    keep = S.copy()
    sc = np.max(np.abs(S))
    if c['cut'] < 0:
        cut = int(spa.parsa.estimate_num_sources(S))
        if not 0 <= cut < L:
            t.skip('estimate')
        Sp, Sn = spa.parsa.separate_cov(S)
        t.label('estimated cut')
    else:
        cut = c['cut'] % L
        Sp, Sn = spa.parsa.separate_cov(S, num_cut=cut)
    t.label('cut 0' if cut == 0 else 'cut')
    t.nt(N >= 1)
    t.close(S, keep, 'covariance changed', atol=0, rtol=0)
    tol = 1e-9 * sc
    t.require(np.shape(Sp) == S.shape and np.shape(Sn) == S.shape, 'shapes')
    t.close(Sp + Sn, S, 'parts sum to the input', atol=tol)
    t.close(Sp, Sp.T, 'symmetry', atol=tol)
    t.close(Sn, Sn.T, 'symmetry', atol=tol)
    w = np.linalg.eigvalsh(S)
    wp, wn = np.linalg.eigvalsh(Sp), np.linalg.eigvalsh(Sn)
    t.require(wp[0] > -tol and wn[0] > -tol, 'not positive semidefinite')
    floor = w[L - 1 - cut]
    t.close(wp, np.r_[np.zeros(L - cut), w[L - cut:] - floor],
            'signal spectrum', atol=tol)
    t.close(wn, np.minimum(w, floor), 'noise spectrum', atol=tol)


@st.composite
def scenes(draw):
    N = draw(st.integers(1, 4))
    return dict(N=N, K=draw(st.integers(0, min(4, (N + 1) ** 2 - 2))),
                seed=draw(gen.seeds),
                noise=draw(st.sampled_from([0., 1e-3, .1, 1., 4.])),
                probe=draw(gen.dirs(1, 5)))


def scene(c, t):
    N, K = c['N'], c['K']
    r = gen.rng(c['seed'])
    azi, zen = gen.rand_dirs(r, max(K, 1))
    azi, zen = azi[:K], zen[:K]
    Y = ref.sh_real(N, azi, zen)
    if K and np.linalg.cond(Y) > 20:
        t.skip('sources too close')
    p = 10. ** r.uniform(.5, 3., K)
    S = (Y.T * p) @ Y + c['noise'] * np.eye((N + 1) ** 2)
    t.nt(K >= 1)
    t.label(f'{K} sources')
    return azi, zen, Y, (S + S.T) / 2


@R.sub(scenes(), quick=100)
def music(c, t):
    """Reciprocal of the energy a direction has outside the source space."""
    azi, zen, Y, S = scene(c, t)
    N, K = c['N'], c['K']
    pa, pz = gen.split(c['probe'])
    pa, pz = np.r_[pa, azi], np.r_[pz, zen]
    P = spa.parsa.sh_music(S, K, pa, pz)
    t.require(P.shape == pa.shape, f'shape {P.shape}')
    q = np.linalg.qr(Y.T)[0] if K else np.zeros(((N + 1) ** 2, 0))
    Yp = ref.sh_real(N, pa, pz)
    e = np.sum((Yp - (Yp @ q) @ q.T) ** 2, axis=1)
    far = e > 1e-6
    t.close(P[far], 1 / e[far], 'pseudo spectrum', rtol=1e-3)
    t.require(np.all(P[len(pa) - K:] > 1e8), 'no peak at a source')
    t.close(spa.parsa.sh_music(S, K, list(pa), list(pz)), P, 'lists',
            rtol=1e-12)


@R.sub(scenes(), quick=100)
def source_count(c, t):
    """The number of plane waves in white noise is found."""
    azi, zen, Y, S = scene(c, t)
    L = len(S)
    a = 1 + 2 / L
    w = np.linalg.eigvalsh(S)
    if c['K']:
        if np.var(w) < 1.5 * a or w[L - c['K']] < 1.5 * a * c['noise'] or \
                w[L - c['K']] < 1e-3:
            t.skip('sources below the threshold')
    n = spa.parsa.estimate_num_sources(S)
    t.require(int(n) == c['K'], f"{n} sources found, {c['K']} present")
    n = spa.parsa.estimate_num_sources([], w=list(w))
    t.require(int(n) == c['K'], f"{n} from eigenvalues, {c['K']} present")
    if c['K'] and c['noise']:
        n = spa.parsa.estimate_num_sources(S, a=a)
        t.require(int(n) == c['K'], f"{n} with the default ratio given")


@R.sub(dict(L=st.integers(2, 20), K=st.integers(0, 19), seed=gen.seeds,
            a=st.one_of(st.none(), gen.floats(1.2, 4.))), quick=100)
def count_by_ratio(c, t):
    """The split is at the lowest jump above the threshold ratio."""
    L, K = c['L'], c['K'] % c['L']
    a = c['a'] or 1 + 2 / L
    r = gen.rng(c['seed'])
    x = 1 + .9 * (a - 1) * r.uniform(0, 1, L)  # steps below the ratio
    x[0] = 1.
    if K:
        x[L - K] = a * r.uniform(1.1, 30)
        x[L - K + 1:] = 1 + 3 * a * r.uniform(0, 1, K - 1)
    w = r.uniform(.5, 2.) * np.cumprod(x)
    if (not K and np.var(w) > .9 * a) or (K and np.var(w) < 1.1 * a):
        t.skip('variance criterion undecided')
    t.nt(K >= 1)
    n = spa.parsa.estimate_num_sources([], a=c['a'], w=w)
    t.require(int(n) == K, f'{n} instead of {K} above the jump')


@R.sub(dict(N=st.integers(0, 3), n=gen.bulk, K=st.integers(1, 4),
            seed=gen.seeds), quick=40)
def forms(c, t):
    """Any number of look directions, each treated on its own; any order of
    the constraints; any layout and number type of the covariance."""
    N, n = c['N'], c['n']
    t.nt(N >= 1 and n > 1)
    pa = spa.parsa
    S = spd(dict(c, cond=1., level=0.), N)
    L = len(S)
    r = gen.rng(c['seed'] + 9)
    a, z = gen.rand_dirs(r, n)
    K = min(c['K'], L)
    t.rows(lambda i: pa.sh_mvdr(S, a[i], z[i]), n, 'mvdr', c['seed'],
           rtol=1e-7, atol=1e-8)
    t.rows(lambda i: pa.sh_music(S, K, a[i], z[i]), n, 'music', c['seed'],
           rtol=1e-6)
    ca, cz = gen.rand_dirs(r, K)
    g = r.standard_normal(K)
    V = ref.sh_real(N, ca, cz)
    SI = np.round(8 * S / np.max(S) + 12 * np.eye(L))
    fs = [('mvdr', lambda x: pa.sh_mvdr(x, a[:7], z[:7])),
          ('separate', lambda x: pa.separate_cov(x, num_cut=K - 1)),
          ('count', lambda x: pa.estimate_num_sources(x)),
          ('eigenvalues', lambda x: pa.estimate_num_sources(
              [], w=np.diag(x) * np.arange(1, L + 1)))]
    if np.linalg.cond(V) < 30:
        def lc(x):
            return pa.sh_lcmv(x, ca, cz, g)
        fs.append(('lcmv', lc))
        p = r.permutation(K)
        t.close(pa.sh_lcmv(S, ca[p], cz[p], g[p]), lc(S),
                'order of constraints', rtol=1e-6, atol=1e-6)
        for lv in (1e-6, 1e-3, 1e5):
            t.close(lc(S * lv), lc(S), f'covariance at {lv}', rtol=1e-6,
                    atol=1e-6)
        t.linear(lambda x: pa.sh_lcmv(S, ca, cz, x), g, 'gains',
                 columns=False)
        t.forms(lambda x: pa.sh_lcmv(S, ca, cz, x), g, 'gains')
    for nm, f in fs:
        t.forms(f, S, nm, ints=False, rtol=1e-7, atol=1e-7)
        t.forms(f, SI, nm, ints=False, rtol=1e-7, atol=1e-7)
        t.same(f(SI.astype(int)), f(SI), f'{nm} of integers', 1e-7, 1e-7)
    for lv in (1e-6, 1e-3, 1e5):
        t.close(pa.sh_mvdr(S * lv, a[:7], z[:7]),
                pa.sh_mvdr(S, a[:7], z[:7]), f'mvdr, covariance at {lv}',
                rtol=1e-6, atol=1e-6)
        for k in range(L):
            t.same([x / lv for x in pa.separate_cov(S * lv, num_cut=k)],
                   pa.separate_cov(S, num_cut=k), f'separate at {lv}',
                   1e-6, 1e-7)
        t.same(pa.sh_music(S * lv, K, a[:7], z[:7]),
               pa.sh_music(S, K, a[:7], z[:7]), f'music at {lv}', 1e-5,
               1e-6)
