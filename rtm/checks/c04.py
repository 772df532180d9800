"""Discrete choices follow the probabilities, independently for all units and draws"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import Tree, gen_mnl, gen_tree, logit_reference

SHARDS = {'py': 4, 'jit': 4}
LIMIT = 30.0   # Chernoff exponent: a correct sampler exceeds it with a probability of at most 2 exp(-30)
Z_LIMIT = 9.0
RULE = ('A case is a random tree with few distinct rows of utilities, repeated for thousands of units in a shuffled order, '
        'and one of: a single draw per unit, several draws per unit, or one unit sampled with many seeds. Observed '
        'frequencies (marginal, by position of the draw, by block of units, and joint for pairs of units at several lags, '
        'pairs of draws, and pairs of seeds) are compared with an independent computation of the probabilities, with '
        'Chernoff bounds. Non-trivial cases are distinguished by tree, probabilities and numbers of units and draws.')
ASSUMPTIONS = [f'per comparison, a correct sampler raises an alarm with a probability below 2*exp(-{LIMIT:g}) (or the tail '
               f'of the normal distribution at {Z_LIMIT:g} sigma for autocorrelations)',
               'biases smaller than the resolution given by the number of samples (about 0.5 % per case) are not visible']
MINIMUM = {'samples': 2_000_000, 'frequencies_judged': 2000, 'pairs': 500_000, 'lags_judged': 100_000}


def exponent(k, n, p):
    """n * KL(k/n || p), element-wise"""
    k, p = np.asarray(k, dtype=float), np.asarray(p, dtype=float)
    f = k / n
    with np.errstate(divide='ignore', invalid='ignore'):
        a = np.where(f > 0, f * np.log(f / p), 0.0)
        b = np.where(f < 1, (1 - f) * np.log((1 - f) / (1 - p)), 0.0)
    out = n * (a + b)
    out = np.where((p >= 1) & (f >= 1), 0.0, out)
    return np.where((p <= 1e-15) & (f > 0), np.inf, out)


def judge(ctx, counts, n, p, what):
    if n == 0:
        return
    e = exponent(counts, n, np.clip(p, 0, 1))
    ctx.count('frequencies_judged', np.size(e))
    ctx.count('assertions')
    if not (e <= LIMIT).all():
        i = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), np.shape(e))
        ctx.fail(f'{what}: cell {[int(x) for x in i]} was observed {np.asarray(counts)[i]} of {n} times, with a probability of '
                 f'{np.asarray(p)[i]:.6f} (Chernoff exponent {e[i]:.1f})')


def setup(ctx, n, n_kinds):
    from cheval import ChoiceModel
    tree = gen_tree(ctx, max_depth=ctx.pick([2, 3]), max_children=3) if ctx.chance(0.6) else gen_mnl(ctx, ctx.pick([2, 3, 5, 9]))
    m = ChoiceModel(precision=ctx.pick([8, 8, 4]))
    tree.build(m, ctx.rng)
    kinds = ctx.dyadic((n_kinds, tree.n), ctx.pick([0.25, 1, 1.5]))
    if ctx.chance(0.4):  # Some alternatives are not available to some of the units
        block = ctx.rng.random(kinds.shape) < 0.25
        block[:, tree.leaves[0]] = False
        j = tree.nodes[tree.leaves[0]].parent
        while j >= 0:
            block[:, j] = False
            j = tree.nodes[j].parent
        kinds[block] = -np.inf
    kind = ctx.rng.integers(0, n_kinds, n)
    m.decision_units = pd.RangeIndex(n)
    m.add_partial_utilities(pd.DataFrame(kinds[kind], index=m.decision_units, columns=m.choices))
    scale = ctx.chance(0.8)
    P, _, _ = logit_reference(tree, kinds, scale)
    pos = np.full(tree.n, -1)
    pos[tree.leaves] = np.arange(len(tree.leaves))
    return m, tree, kind, P, pos, scale


def sample(ctx, m, pos, scale, n_draws, seed, threads=None):
    r, _ = m.run_discrete(random_seed=seed, n_draws=n_draws, astype='index', squeeze=False, clear_scope=False,
                          n_threads=threads or ctx.pick([1, 2, 4, 8]), scale_utilities=scale)
    picks = pos[r.to_numpy()]
    ctx.check(bool((picks >= 0).all()), 'a nest was sampled')
    ctx.count('samples', picks.size)
    return picks


def marginal(ctx, picks, kind, P, what):
    c = P.shape[1]
    for k in range(len(P)):
        rows = picks[kind == k]
        judge(ctx, np.bincount(rows.ravel(), minlength=c), rows.size, P[k], f'{what}, kind {k}')
        if picks.shape[1] > 1:
            for j in {0, 1, picks.shape[1] // 2, picks.shape[1] - 1}:
                judge(ctx, np.bincount(rows[:, j], minlength=c), len(rows), P[k], f'{what}, kind {k}, draw {j}')


def joint(ctx, a, b, ka, kb, P, what):
    """a, b: disjoint pairs of choices, which are supposed to be independent; ka, kb: their kinds"""
    c = P.shape[1]
    ctx.count('pairs', len(a))
    for x in range(len(P)):
        for y in range(len(P)):
            s = (ka == x) & (kb == y)
            n = int(np.count_nonzero(s))
            if n < 30:
                continue
            counts = np.bincount(a[s] * c + b[s], minlength=c * c).reshape(c, c)
            want = np.outer(P[x], P[y])
            judge(ctx, counts, n, want, f'{what}, kinds {x} and {y}')
            judge(ctx, np.array([np.trace(counts)]), n, np.array([np.trace(want)]), f'{what}, kinds {x} and {y}, same choice')


def autocorrelation(ctx, picks, kind, P, what):
    """Correlation of a sequence of units with itself, for all lags"""
    c = int(np.argmax(np.minimum(P, 1 - P).min(axis=0) if len(P) > 1 else P[0] * (1 - P[0])))
    p = P[kind, c]
    var = p * (1 - p)
    ok = var > 1e-6
    x = np.where(ok, ((picks == c) - p) / np.sqrt(np.where(ok, var, 1)), 0)
    n = len(x)
    if ok.sum() < 0.9 * n or (var[ok] < 0.02).any():
        return
    f = np.fft.rfft(x, 2 * n)
    r = np.fft.irfft(f * np.conj(f))[1:n - 400]
    z = r / np.sqrt(n - np.arange(1, n - 400))
    ctx.count('lags_judged', len(z))
    ctx.count('assertions')
    if np.abs(z).max() > Z_LIMIT:
        lag = int(np.abs(z).argmax()) + 1
        ctx.fail(f'{what}: the choices of units {lag} apart are correlated (z = {z[lag - 1]:.1f})')


def units(ctx):
    """One draw per unit"""
    n = 40_000 if ctx.mode == 'jit' else 2500
    m, tree, kind, P, pos, scale = setup(ctx, n, ctx.pick([1, 1, 2, 3]))
    seed = ctx.int(0, 2 ** 31 - 1)
    ctx.note(f'tree={tree.describe()} P={P.round(4).tolist()} n={n} seed={seed}')
    ctx.sig(tree.describe(), P.tobytes(), n)
    picks = sample(ctx, m, pos, scale, 1, seed)
    marginal(ctx, picks, kind, P, 'one draw per unit')
    x = picks[:, 0]
    i = np.arange(n)
    for lag in (1, 2, 3, 8, 32, n // 8, n // 4, n // 2):
        s = i[((i // lag) % 2 == 0) & (i + lag < n)]
        joint(ctx, x[s], x[s + lag], kind[s], kind[s + lag], P, f'units {lag} apart')
    for b in range(8):  # Blocks of units, e.g. those of a thread
        s = slice(b * n // 8, (b + 1) * n // 8)
        marginal(ctx, picks[s], kind[s], P, f'block {b} of the units')
    autocorrelation(ctx, x, kind, P, 'one draw per unit')


def draws(ctx):
    """Several draws per unit"""
    n, d = ctx.pick([(2000, 40), (8000, 8), (40, 2500), (30_000, 2), (3, 30_000)]) if ctx.mode == 'jit' else \
        ctx.pick([(100, 40), (300, 8), (8, 500), (1000, 2)])
    m, tree, kind, P, pos, scale = setup(ctx, n, ctx.pick([1, 1, 2]) if n > 3 else 1)
    seed = ctx.int(0, 2 ** 31 - 1)
    ctx.note(f'tree={tree.describe()} P={P.round(4).tolist()} n={n} draws={d} seed={seed}')
    ctx.sig(tree.describe(), P.tobytes(), n, d)
    picks = sample(ctx, m, pos, scale, d, seed)
    marginal(ctx, picks, kind, P, f'{d} draws per unit')
    j = np.arange(d)
    for lag in sorted({1, 2, max(1, d // 2), max(1, d // 4)}):
        s = j[((j // lag) % 2 == 0) & (j + lag < d)]
        a, b = picks[:, s], picks[:, s + lag]
        kk = np.repeat(kind, len(s))
        joint(ctx, a.ravel(), b.ravel(), kk, kk, P, f'draws {lag} apart')
    i = np.arange(n)
    for lag in sorted({1, 2, max(1, n // 8), max(1, n // 2)}):
        s = i[((i // lag) % 2 == 0) & (i + lag < n)]
        if len(s):
            joint(ctx, picks[s].ravel(), picks[s + lag].ravel(), np.repeat(kind[s], d), np.repeat(kind[s + lag], d), P,
                  f'same draws of units {lag} apart')
            if d > 1:  # Also between different draws of different units
                joint(ctx, picks[s, :-1].ravel(), picks[s + lag, 1:].ravel(), np.repeat(kind[s], d - 1),
                      np.repeat(kind[s + lag], d - 1), P, f'successive draws of units {lag} apart')
    other = seed + ctx.pick([1, 10, 100, 1000, 10_000, 2 ** 8, 2 ** 16, 2 ** 20, 2 ** 24, 997, 65537, 9999]) * ctx.pick([1, 1, 2, 7])
    if np.abs(P - 0.5).max() < 0.48 and n * d > 1000:
        again = sample(ctx, m, pos, scale, d, other % 2 ** 31, None)
        ctx.count('pairs_of_seeds')
        ctx.check(not np.array_equal(again, picks), f'all {n} x {d} draws with seed {other % 2 ** 31} are those of seed {seed}')
    if d >= 40:
        c = float((P ** 2).sum(axis=1).max())
        expected = n * n / 2 * (c ** d) + n * n / 2 / 2 ** 31
        dup = n - len({r.tobytes() for r in picks.astype(np.int8)})
        ctx.count('assertions')
        if expected < 2 and c < 0.8 and dup > 20:
            ctx.fail(f'{dup} of {n} units have exactly the same {d} draws as another one')
    if n * d >= 2000 and d > 500:
        for u in range(min(n, 3)):
            autocorrelation(ctx, picks[u], np.full(d, kind[u]), P, f'draws of unit {u}')


def seeds(ctx):
    """The same units, sampled with many seeds"""
    S = 1500 if ctx.mode == 'jit' else 500
    n = ctx.pick([2, 5])
    d = ctx.pick([1, 1, 3])
    m, tree, kind, P, pos, scale = setup(ctx, n, n)
    kind = np.arange(n)
    m2 = m.copy(utilities=False)
    U = ctx.dyadic((n, tree.n), 1)
    m2.add_partial_utilities(pd.DataFrame(U, index=m2.decision_units, columns=m2.choices))
    P, _, _ = logit_reference(tree, U, scale)
    style = ctx.pick(['consecutive', 'random', 'state', 'none'])
    if style == 'consecutive':
        start = ctx.int(0, 5000)
        seq = range(start, start + S)
    elif style == 'random':
        seq = [int(v) for v in ctx.rng.integers(0, 2 ** 31 - 1, S)]
    elif style == 'state':
        state = np.random.RandomState(ctx.int(0, 10 ** 6))
        seq = [state] * S
    else:
        seq = [None] * S
    ctx.note(f'tree={tree.describe()} P={P.round(4).tolist()} n={n} draws={d} seeds={style}')
    ctx.sig(tree.describe(), P.tobytes(), style)
    got = np.stack([sample(ctx, m2, pos, scale, d, s, 1) for s in seq])  # seeds x units x draws
    for u in range(n):
        flat = got[:, u, :]
        if style in ('consecutive',):
            judge(ctx, np.bincount(flat.ravel(), minlength=P.shape[1]), flat.size, P[u], f'{style} seeds, unit {u}')
            a = flat[0::2, 0][:S // 2]
            b = flat[1::2, 0][:S // 2]
            joint(ctx, a, b, np.zeros(len(a), int), np.zeros(len(b), int), P[u:u + 1], f'unit {u} with successive seeds')
        else:
            # Seeds may repeat (they are drawn from few thousand values), which makes the samples depend on each other
            judge_loose(ctx, np.bincount(flat.ravel(), minlength=P.shape[1]), flat.size, P[u], f'{style} seeds, unit {u}')
    for u in range(n - 1):
        if style == 'consecutive':
            a, b = got[:, u, 0], got[:, u + 1, 0]
            c = P.shape[1]
            judge(ctx, np.bincount(a * c + b, minlength=c * c).reshape(c, c), S, np.outer(P[u], P[u + 1]),
                  f'units {u} and {u + 1} over {style} seeds')


def judge_loose(ctx, counts, n, p, what):
    e = exponent(counts, n, p) / 2.5
    ctx.count('frequencies_judged', np.size(e))
    ctx.check(bool((e <= LIMIT).all()), f'{what}: observed {counts.tolist()} of {n}, with probabilities {p.tolist()}')


SCENARIOS = [
    Scenario('units', units, {'py': 10, 'jit': 60}, {'py': 200, 'jit': 1500}, modes=('py', 'jit')),
    Scenario('draws', draws, {'py': 12, 'jit': 60}, {'py': 200, 'jit': 1500}, modes=('py', 'jit')),
    Scenario('seeds', seeds, {'py': 4, 'jit': 12}, {'py': 40, 'jit': 200}, modes=('py', 'jit')),
]
