"""Framework of the property checks: sub-check registry, verdict helpers and
the hypothesis driver.  See DESIGN.md."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
_HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def bootstrap():
    """Import hypothesis (from the tooling venv, behind everything else on the
    path so that numpy & co. stay those of the project's environment) and the
    library under test from /repo's working tree."""
    if _HYP not in sys.path:
        sys.path.append(_HYP)
    import hypothesis  # noqa: F401
    if REPO != '/repo':
        sys.path.insert(0, REPO)
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    sys.stdout = devnull
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import spaudiopy
    finally:
        sys.stdout = old
    here = os.path.realpath(os.path.dirname(spaudiopy.__file__))
    want = os.path.realpath(os.path.join(REPO, 'spaudiopy'))
    if here != want:
        raise RuntimeError(f"imported spaudiopy from {here}, not {want}")
    warnings.simplefilter('ignore')
    return spaudiopy


class Violation(Exception):
    """The property does not hold for this case."""


class Trivial(Exception):
    """The generated case is outside the property's domain (counted)."""


class Hang(BaseException):
    """A case did not end within CASE_LIMIT seconds."""


CASE_LIMIT = 200.  # the longest cases of the thorough tiers take seconds


def _alarm(signum, frame):
    raise Hang(f"no result within {CASE_LIMIT:.0f} s")


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, examples,
                 weight):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.examples = examples
        self.weight = weight


class Registry:
    """Collects the sub-checks of one property."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.subs = []
        self.assumptions = []

    def sub(self, strategy, quick=60, thorough=None, examples=(), weight=1.):
        """`strategy` is a dict of hypothesis strategies, or a strategy that
        produces a JSON-able dict.  `examples` are cases always executed."""
        from hypothesis import strategies as st

        def deco(fn):
            strat = strategy
            if isinstance(strat, dict):
                strat = st.fixed_dictionaries(strat)
            self.subs.append(Sub(fn.__name__, strat, fn, quick,
                                 thorough or quick * 20, list(examples),
                                 weight))
            return fn
        return deco


class T:
    """Handed to a check: verdicts, labels and the non-triviality mark."""

    def __init__(self):
        self.labels = []
        self.is_nt = False
        self.single = 1e-9  # float32 input that holds integers

    def nt(self, cond=True):
        if cond:
            self.is_nt = True

    def label(self, name):
        self.labels.append(str(name))

    def skip(self, why='outside domain'):
        raise Trivial(why)

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not bool(cond):
            raise Violation(msg)

    def close(self, actual, expected, msg, rtol=1e-8, atol=1e-9):
        """Elementwise closeness, shapes and finiteness included."""
        import numpy as np
        try:
            a = np.asarray(actual)
            e = np.asarray(expected)
        except Exception as exc:
            raise Violation(f"{msg}: result is no array ({exc})")
        if a.shape != e.shape:
            raise Violation(f"{msg}: shape {a.shape}, expected {e.shape}")
        if a.dtype == object:
            raise Violation(f"{msg}: object array returned")
        if a.size == 0:
            return
        a = a.astype(float) if a.dtype == bool else a
        e = e.astype(float) if e.dtype == bool else e
        with np.errstate(all='ignore'):
            same_inf = (np.isinf(a) & np.isinf(e) & (a == e)) \
                if not (np.iscomplexobj(a) or np.iscomplexobj(e)) \
                else np.zeros(a.shape, bool)
            ok = (np.abs(a - e) <= atol + rtol * np.abs(e)) | same_inf
        if not np.all(ok):
            bad = np.argwhere(~ok)[0]
            i = tuple(int(k) for k in bad)
            raise Violation(
                f"{msg}: at {i} got {a[i]!r}, expected {e[i]!r} "
                f"({int(np.sum(~ok))} of {a.size} differ)")

    def linear(self, f, x, msg, columns=True, rtol=1e-7,
               levels=(1e-7, 1e-4, 3e2, 1e6)):
        """f maps arrays linearly: any level, any sum, and (columns) every
        entry of the last axis on its own."""
        import numpy as np
        x = np.asarray(x)
        y = np.asarray(f(x.copy()))
        n = float(np.max(np.abs(y))) if y.size else 0.
        tol = rtol * max(n, 1e-300)
        for s in levels:
            self.close(np.asarray(f(x * s)) / s, y, f'{msg}: at level {s}',
                       rtol=rtol, atol=tol)
        self.close(f(-x), -y, f'{msg}: inverted', rtol=rtol, atol=tol)
        k = (np.arange(x.size) * 7 % 5 < 2).reshape(x.shape)
        self.close(np.asarray(f(np.where(k, x, 0.))) +
                   np.asarray(f(np.where(k, 0., x))), y,
                   f'{msg}: sum of parts', rtol=rtol, atol=tol)
        if columns and x.shape[-1] > 1:
            d = 10. ** (np.arange(x.shape[-1]) * 5 % 13 - 7.)
            self.close(np.asarray(f(x * d)) / d, y,
                       f'{msg}: levels per column', rtol=rtol, atol=tol)

    def rows(self, f, n, msg, seed=0, axis=0, rtol=1e-9, atol=1e-10):
        """f(idx) treats every item of a batch on its own: it returns, along
        `axis`, one result per entry of idx, whatever else is in the batch,
        in which order, and how large it is."""
        import numpy as np
        r = np.random.default_rng(int(seed))
        idx = np.arange(n)

        def g(i):
            y = f(np.asarray(i, int))
            if isinstance(y, (tuple, list)):
                y = np.stack([np.asarray(k) for k in y], axis=-1)
            y = np.asarray(y)
            if y.ndim == 0:
                y = y[None]
            return np.moveaxis(y, axis, 0)
        y = g(idx)
        self.require(y.shape[0] == n, f'{msg}: {y.shape[0]} results for a '
                     f'batch of {n}')
        p = r.permutation(n)
        self.close(g(p), y[p], f'{msg}: other order', rtol=rtol, atol=atol)
        if n > 1:
            cut = sorted({int(r.integers(1, n)) for _ in range(2)})
            parts = [g(q) for q in np.split(idx, cut)]
            self.close(np.concatenate(parts), y, f'{msg}: in parts',
                       rtol=rtol, atol=atol)
        k = int(r.integers(n))
        self.close(g([k]), y[[k]], f'{msg}: alone', rtol=rtol, atol=atol)

    def forms(self, f, x, msg, ints=True, rtol=1e-9, atol=1e-10,
              single=None):
        """f depends on the values of the array x only, not on its memory
        layout, writability or number type."""
        import numpy as np
        x = np.array(x)
        single = self.single if single is None else single

        def layouts(x):
            yield 'column major', np.asfortranarray(x)
            big = np.zeros(tuple(2 * k for k in x.shape), x.dtype)
            v = big[tuple(slice(None, None, 2) for _ in x.shape)]
            v[...] = x
            yield 'strided', v
            rev = tuple(slice(None, None, -1) for _ in x.shape)
            yield 'reversed view', np.ascontiguousarray(x[rev])[rev]
            ro = x.copy()
            ro.setflags(write=False)
            yield 'read-only', ro
        y = f(x.copy())
        for name, v in layouts(x):
            self.same(f(v), y, f'{msg}: {name}', rtol, atol)
        if ints and x.dtype.kind == 'f' and x.size:
            m = np.max(np.abs(x))
            xi = np.rint(x * (9. / m if m else 1.)) + 0.  # no -0
            y = f(xi)
            for ty in (np.int64, np.int32):
                self.same(f(xi.astype(ty)), y, f'{msg}: {ty.__name__}',
                          rtol, atol)
            self.same(f(xi.astype(np.float32)), y, f'{msg}: float32',
                      single, single)

    def same(self, a, b, msg, rtol=1e-9, atol=1e-10):
        """Arrays, or (nested) tuples of arrays, are equal."""
        import numpy as np
        if isinstance(b, (tuple, list)):
            self.require(isinstance(a, (tuple, list)) and len(a) == len(b),
                         f'{msg}: other number of results')
            for k, (p, q) in enumerate(zip(a, b)):
                self.same(p, q, f'{msg} [{k}]', rtol, atol)
            return
        b = np.asarray(b)
        s = float(np.max(np.abs(b), initial=0., where=np.isfinite(b))) \
            if b.dtype.kind in 'fciu' else 1.
        a = np.asarray(a)
        if a.dtype.kind in 'fc' and a.shape == b.shape:
            k = np.isnan(a) & np.isnan(b.astype(a.dtype))
            a, b = np.where(k, 0, a), np.where(k, 0, b)
        self.close(a, b, msg, rtol=rtol, atol=atol * max(s, 1e-300))

    def raises(self, excs, fn, msg):
        """fn() must raise one of excs."""
        try:
            r = fn()
        except excs:
            return
        except Exception as exc:
            raise Violation(f"{msg}: raised {type(exc).__name__}: {exc}")
        raise Violation(f"{msg}: accepted, returned {type(r).__name__}")


def _through_repo(tb):
    root = os.path.realpath(os.path.join(REPO, 'spaudiopy')) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(root):
            return f"{os.path.basename(fr.filename)}:{fr.name}"
    return None


def _remote_through_repo(exc):
    """Exceptions re-raised from a multiprocessing worker of the library."""
    c = exc.__cause__
    return c is not None and type(c).__name__ == 'RemoteTraceback'


def execute(sub, case, t):
    """Run one case; raises Violation, Trivial, or a harness error."""
    import numpy as np
    np.random.seed(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        sub.check(case, t)
    except (Violation, Trivial, Hang):
        raise
    except Exception as exc:
        where = _through_repo(exc.__traceback__)
        if where is None and not _remote_through_repo(exc):
            if isinstance(exc, (AttributeError, ImportError, MemoryError,
                                OSError, NameError, AssertionError)):
                raise
            # the same cases pass on a tree where the property holds, so a
            # result that cannot even be looked at (None, wrong size or
            # type) is a wrong result
            tb = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(
                f"result cannot be used: {type(exc).__name__}: "
                f"{str(exc)[:200]} ({os.path.basename(tb.filename)}:"
                f"{tb.lineno})") from exc
        raise Violation(
            f"valid input raised {type(exc).__name__} in {where}: "
            f"{str(exc)[:300]}") from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def sub_seed(pid, name, seed):
    h = hashlib.sha256(f"{pid}/{name}/{seed}".encode()).digest()
    return int.from_bytes(h[:6], 'big')


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def thin_mutations(engine, every=8):
    """By default hypothesis follows every generated example by five that
    copy parts of it, which wastes small budgets on near-duplicates (there
    are seeds and sampled settings in most cases).  Here only every eighth
    example is followed by its mutations."""
    cls = engine.ConjectureRunner
    orig = getattr(cls, 'generate_mutations_from', None)
    if orig is None or getattr(orig, 'thin', False):
        return
    count = [0]

    def generate_mutations_from(self, data):
        count[0] += 1
        if count[0] % every == 0:
            orig(self, data)

    generate_mutations_from.thin = True
    cls.generate_mutations_from = generate_mutations_from


def run_sub(pid, sub, seed, n_examples, shard=0):
    """Drive one sub-check; returns a JSON-able result dict."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import HypothesisException
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25
    thin_mutations(engine)

    res = dict(sub=sub.name, evaluations=0, nontrivial=0, skipped=0,
               labels={}, samples=[], violation=None, error=None, keys=[])
    keys = set()
    first = {}
    t0 = time.time()

    def one(case):
        t = T()
        res['evaluations'] += 1
        try:
            execute(sub, case, t)
        except Trivial as tr:
            res['skipped'] += 1
            t.label(f'outside: {tr}')
            return
        except Violation as v:
            res['violation'] = dict(case=case, message=str(v)[:1500])
            first.setdefault('v', dict(case=case, message=str(v)[:1500]))
            raise
        except Hang as v:  # not shrunk
            if res['violation'] is None:
                res['violation'] = dict(case=case, message=str(v))
            raise
        finally:
            for lb in t.labels:
                res['labels'][lb] = res['labels'].get(lb, 0) + 1
        if t.is_nt:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                if len(res['samples']) < 2 and len(json.dumps(case)) < 1500:
                    res['samples'].append(case)

    try:
        for ex in sub.examples if shard == 0 else ():
            one(json.loads(json.dumps(ex)))
        if n_examples > 0:
            @hseed(sub_seed(pid, f'{sub.name}/{shard}' if shard else
                            sub.name, seed))
            @settings(max_examples=n_examples, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow,
                                             HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(sub.strategy)
            def test(case):
                # normalise through JSON: replay sees exactly the same case
                one(json.loads(json.dumps(case)))
            test()
    except (Violation, Hang):
        pass
    except HypothesisException as exc:
        if res['violation'] is None:
            res['error'] = f"{type(exc).__name__}: {exc}"
        else:
            # a violation was observed but did not reproduce identically
            res['violation'] = first['v']
    except BaseException as exc:  # harness error
        if res['violation'] is None or not isinstance(exc, Exception):
            res['error'] = ''.join(traceback.format_exception(exc))[-3000:]
    if res['violation'] is None and first.get('v'):
        res['violation'] = first['v']
    res['nontrivial'] = len(keys)
    res['keys'] = [k[:16] for k in keys]
    res['wall'] = round(time.time() - t0, 2)
    return res
