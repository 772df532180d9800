"""Scenario/monitor plumbing shared by all checks"""
import hashlib
import os
import traceback

import numpy as np

REPO = os.environ.get('CHEVAL_REPO', '/repo')


class Violation(Exception):
    def __init__(self, message, detail=None, key=None):
        super().__init__(message)
        self.detail, self.key = detail, key


class Skip(Exception):
    """The generated case turned out not to be in the property's domain"""


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, modes=('py',), weight=None):
        """quick/thorough: number of cases per mode (an int, or a dict by mode)"""
        self.name, self.fn, self.modes = name, fn, tuple(modes)
        self.counts = {'quick': quick, 'thorough': thorough if thorough is not None else quick}

    def count(self, tier, mode):
        c = self.counts[tier]
        if isinstance(c, dict):
            return c.get(mode, 0)
        return c


class Ctx:
    """Handed to a scenario for one case"""

    def __init__(self, prop, scenario, case, seed, mode, tier, sink):
        self.prop, self.scenario, self.case, self.mode, self.tier = prop, scenario, case, mode, tier
        digest = hashlib.sha256(f'{prop}|{scenario}|{case}|{seed}'.encode()).digest()
        self.rng = np.random.default_rng(np.frombuffer(digest, dtype=np.uint32))
        self.sink = sink
        self.trace, self.parts = [], []

    # region Random helpers
    def chance(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        seq = list(seq)
        return seq[int(self.rng.integers(len(seq)))]

    def int(self, lo, hi):
        """Inclusive"""
        return int(self.rng.integers(lo, hi + 1))

    def dyadic(self, size=None, span=8, step=0.125):
        """Values which are exact in float32, as are their sums and (small) products"""
        k = int(span / step)
        return self.rng.integers(-k, k + 1, size) * step

    def reals(self, size=None, span=8):
        """Values which need double precision"""
        return self.rng.uniform(-span, span, size)
    # endregion

    # region Recording
    def count(self, name, n=1):
        self.sink.counters[name] = self.sink.counters.get(name, 0) + int(n)

    def sig(self, *parts):
        """Identifies this case as non-trivial, by what distinguishes it from other cases"""
        self.parts.append(parts)

    def sign(self):
        if self.parts:
            self.sink.signatures.add(hashlib.sha1(repr((self.scenario, self.parts)).encode()).hexdigest()[:12])

    def record(self, key, value):
        """Keeps an observation for a verdict over all workers (see `finish` of the check)"""
        self.sink.records.append([str(key), str(value), self.mode, self.scenario, self.case, getattr(self, 'shard', 0)])

    def note(self, *what):
        self.trace.append(' '.join(str(w) for w in what))
        if len(self.trace) > 300:
            del self.trace[:100]
    # endregion

    # region Verdicts
    def fail(self, message, detail=None, key=None):
        raise Violation(message, detail, key)

    def check(self, cond, message, detail=None, key=None):
        self.count('assertions')
        if not cond:
            raise Violation(message, detail, key)

    def raises(self, exceptions, fn, what):
        """The given call must be rejected with one of the given exceptions"""
        self.count('assertions')
        try:
            value = fn()
        except exceptions as e:
            return e
        except BaseException as e:
            raise Violation(f'{what}: raised {type(e).__name__} ({str(e)[:200]}) instead of '
                            f'{[x.__name__ for x in (exceptions if isinstance(exceptions, tuple) else (exceptions,))]}',
                            traceback.format_exc())
        raise Violation(f'{what}: was accepted (returned {repr(value)[:200]})')

    def equal(self, got, want, what, rtol=1e-9, atol=1e-12):
        """Element-wise comparison of numeric arrays, where NaN equals NaN"""
        got, want = np.asarray(got), np.asarray(want)
        self.count('assertions')
        self.count('values_compared', want.size)
        if got.shape != want.shape:
            raise Violation(f'{what}: shape {got.shape} instead of {want.shape}')
        if got.dtype.kind in 'OSU' or want.dtype.kind in 'OSU':
            bad = [i for i, (g, w) in enumerate(zip(got.ravel(), want.ravel())) if not same_object(g, w)]
        else:
            g, w = got.astype(float).ravel(), want.astype(float).ravel()
            with np.errstate(all='ignore'):
                ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= atol + rtol * np.abs(w))
            bad = np.flatnonzero(~ok)
        if len(bad):
            i = bad[0]
            raise Violation(f'{what}: {len(bad)} of {want.size} values differ; first at {np.unravel_index(i, want.shape)}: '
                            f'got {got.ravel()[i]!r}, expected {want.ravel()[i]!r}')

    def labels(self, got, want, what):
        """Order-sensitive comparison of index labels"""
        self.count('assertions')
        g, w = list(got), list(want)
        if len(g) != len(w) or any(not same_object(x, y) for x, y in zip(g, w)):
            raise Violation(f'{what}: labels {g[:20]} instead of {w[:20]}')
    # endregion


def same_object(a, b):
    if isinstance(a, bytes):
        a = a.decode('utf8', 'replace')
    if isinstance(b, bytes):
        b = b.decode('utf8', 'replace')
    if is_missing(a) or is_missing(b):
        return is_missing(a) and is_missing(b)
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    try:
        if a == b:
            return True
        return abs(a - b) <= 1e-9 * abs(b)
    except TypeError:
        return False


def is_missing(x):
    import pandas as pd
    try:
        return x is None or x is pd.NA or bool(x != x) or x is pd.NaT
    except (TypeError, ValueError):
        return False


class Sink:
    def __init__(self):
        self.counters, self.signatures, self.violations, self.samples, self.errors, self.records = {}, set(), [], [], [], []
        self.evaluations, self.per_scenario = 0, {}


def in_product(tb):
    """Whether a traceback went through the code under test"""
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
            return True
        tb = tb.tb_next
    return False


def same_frame(ctx, obj, before, what):
    """Exact comparison of a caller's object with a deep copy of it, including labels, types and names"""
    import pandas as pd
    ctx.count('assertions')
    if type(obj) is not type(before):
        ctx.fail(f'{what}: type changed from {type(before).__name__} to {type(obj).__name__}')
    if isinstance(obj, pd.DataFrame):
        if list(obj.columns) != list(before.columns) or obj.columns.names != before.columns.names:
            ctx.fail(f'{what}: columns changed from {list(before.columns)} to {list(obj.columns)}')
        same_index(ctx, obj.index, before.index, what)
        for i in range(obj.shape[1]):
            a, b = pd.DataFrame.iloc.fget(obj)[:, i], pd.DataFrame.iloc.fget(before)[:, i]
            same_values(ctx, a, b, f'{what}: column {obj.columns[i]!r}')
    elif isinstance(obj, pd.Series):
        same_index(ctx, obj.index, before.index, what)
        same_values(ctx, obj, before, what)
    elif isinstance(obj, pd.Index):
        same_index(ctx, obj, before, what)
    else:
        if obj.shape != before.shape:
            ctx.fail(f'{what}: shape changed from {before.shape} to {obj.shape}')
        same_values(ctx, obj, before, what)


def same_index(ctx, a, b, what):
    if list(a.names) != list(b.names) or a.nlevels != b.nlevels or not a.identical(b):
        if len(a) == len(b) and list(a.names) == list(b.names) and all(same_object(x, y) for x, y in zip(a.to_list(), b.to_list())):
            return
        ctx.fail(f'{what}: index changed from {b!r} to {a!r}'[:600])


def same_values(ctx, a, b, what):
    if str(a.dtype) != str(b.dtype):
        ctx.fail(f'{what}: dtype changed from {b.dtype} to {a.dtype}')
    x, y = np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()
    if len(x) != len(y) or any(not same_object(p, q) for p, q in zip(x, y)):
        ctx.fail(f'{what}: values changed from {y[:20].tolist()} to {x[:20].tolist()}')
