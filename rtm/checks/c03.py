"""Discrete results are available choices, in all of the result forms"""
import numpy as np
import pandas as pd

from rtm.core import Scenario, same_object
from rtm.models import Tree, gen_any_tree, gen_mnl, gen_tree, gen_units, logit_reference, supply

SHARDS = {'py': 5, 'jit': 3}
RULE = ('A case is a random tree (flat or nested), with units of varying type and utilities of which a varying share is '
        '-inf, run in discrete mode for all forms of results (positions, categories, objects; squeezed or not; one or '
        'several draws) with the same seed. Every sampled cell is judged against the alternatives which are available '
        'in an independent computation of the probabilities. `edge_draws` replaces the uniform draws with ones at the '
        'limits of the interval; `kernels` feeds the sampling functions with draws at the cumulative probabilities.')
ASSUMPTIONS = ['positional results refer to the order of all choices of the model, including nests',
               'nested choices are labelled with tuples, one item per level']
MINIMUM = {'cells_judged': 20000, 'nested': 150, 'flat': 100, 'kernel_draws': 5000,
           'zero_probability_alternatives': 2000, 'multi_draw': 100}


def make(ctx, tree, n, p_inf, precision=8, unique=True):
    from cheval import ChoiceModel
    m = ChoiceModel(precision=precision)
    tree.build(m, ctx.rng)
    units = gen_units(ctx, n, unique=unique)
    m.decision_units = units
    U = ctx.dyadic((n, tree.n), ctx.pick([1, 4, 8]))
    if p_inf:
        block = ctx.rng.random((n, tree.n)) < p_inf
        keep = ctx.rng.integers(0, len(tree.leaves), n)
        for i, k in enumerate(keep):
            j = tree.leaves[k]
            while j >= 0:
                block[i, j] = False
                j = tree.nodes[j].parent
        U[block] = -np.inf
    how = supply(ctx, m, tree, units, U)
    return m, units, U, how


def judge_positions(ctx, tree, P, picks, what):
    """picks: [n_units x n_draws] positions"""
    pos = np.full(tree.n, -1)
    pos[tree.leaves] = np.arange(len(tree.leaves))
    ctx.count('cells_judged', picks.size)
    ctx.count('assertions')
    if picks.size and (picks.min() < 0 or picks.max() >= tree.n):
        ctx.fail(f'{what}: positions outside of the choices ({picks.min()} to {picks.max()} of {tree.n})')
    k = pos[picks]
    if (k < 0).any():
        i, j = np.argwhere(k < 0)[0]
        ctx.fail(f'{what}: unit {i} draw {j} chose the nest {tree.dotted(picks[i, j])}')
    p = P[np.arange(len(P))[:, None], k]
    if not (p > 0).all():
        i, j = np.argwhere(~(p > 0))[0]
        ctx.fail(f'{what}: unit {i} draw {j} chose {tree.dotted(picks[i, j])}, whose probability is {p[i, j]}; '
                 f'probabilities {dict(zip(map(tree.dotted, tree.leaves), P[i].tolist()))}')


def forms(ctx):
    nested = ctx.chance(0.6)
    tree = gen_tree(ctx) if nested else gen_mnl(ctx)
    n = ctx.pick([1, 2, 3, 12]) if ctx.mode == 'py' else ctx.pick([1, 9, 100, 800])
    m, units, U, how = make(ctx, tree, n, ctx.pick([0, 0.3, 0.7, 0.95]), unique=ctx.chance(0.85))
    scale = ctx.chance(0.75)
    P, top, _ = logit_reference(tree, U, scale)
    ctx.count('zero_probability_alternatives', (P == 0).sum())
    n_draws = ctx.pick([1, 1, 2, 3, 10])
    squeeze = ctx.chance(0.6)
    name = ctx.pick([None, 'result', 'mode choice'])
    seed = ctx.int(0, 2 ** 31 - 1)
    threads = ctx.pick([1, 2, 5, 8])
    ctx.note(f'tree={tree.describe()} units={units[:3].tolist()}x{n} via={how} n_draws={n_draws} squeeze={squeeze} '
             f'name={name} seed={seed} threads={threads} scale={scale}')
    ctx.sig(tree.describe(), n, n_draws, squeeze, name, U.tobytes()[:400])
    ctx.count('nested' if tree.depth > 1 else 'flat')
    ctx.count('multi_draw', n_draws > 1)

    def run(astype, sq=squeeze):
        return m.run_discrete(random_seed=seed, n_draws=n_draws, astype=astype, squeeze=sq, n_threads=threads,
                              clear_scope=False, result_name=name, scale_utilities=scale)

    def table(result, sq, astype):
        if n_draws == 1 and sq:
            ctx.check(isinstance(result, pd.Series), f'astype={astype}: one squeezed draw is a {type(result).__name__}')
            ctx.check(result.name == name, f'astype={astype}: name is {result.name!r} instead of {name!r}')
            cells = result.to_frame()
        else:
            ctx.check(isinstance(result, pd.DataFrame), f'astype={astype}: result is a {type(result).__name__}')
            ctx.check(result.shape == (n, n_draws), f'astype={astype}: shape {result.shape}')
            ctx.labels(result.columns, range(n_draws), f'astype={astype}: columns')
            ctx.check(result.columns.name == name, f'astype={astype}: name of the columns is {result.columns.name!r}')
            cells = result
        ctx.check(cells.index.equals(units), f'astype={astype}: the index is not the decision units')
        return cells

    result, logsum = run('index')
    picks = table(result, squeeze, 'index').to_numpy()
    ctx.check(picks.dtype.kind in 'iu', f'positions are of type {picks.dtype}')
    judge_positions(ctx, tree, P, picks, 'positions')
    ctx.check(isinstance(logsum, pd.Series) and logsum.index.equals(units), 'logsums are not a Series of the units')
    ctx.equal(logsum.to_numpy(), top, 'logsums of the discrete run', 1e-9)

    labels = tree.labels()
    sq2 = not squeeze if ctx.chance(0.3) else squeeze
    for astype in ctx.rng.permutation(['category', 'object', 'default']):
        if astype == 'default':
            result, ls = m.run_discrete(random_seed=seed, n_draws=n_draws, n_threads=threads, clear_scope=False,
                                        result_name=name, scale_utilities=scale, squeeze=sq2)
        else:
            result, ls = run(astype if astype == 'category' else object, sq2)
        cells = table(result, sq2, astype)
        if astype != 'object':
            ctx.check(all(str(t) == 'category' for t in cells.dtypes), f'astype={astype}: dtypes {list(cells.dtypes)[:3]}')
        for j in range(n_draws):
            got = cells.iloc[:, j].tolist()
            ctx.count('assertions')
            ctx.count('cells_judged', n)
            bad = [i for i in range(n) if got[i] != labels[picks[i, j]]]
            if bad:
                ctx.fail(f'astype={astype}: unit {bad[0]} draw {j} is {got[bad[0]]!r}, but its position refers to '
                         f'{labels[picks[bad[0], j]]!r}')
        ctx.equal(ls.to_numpy(), logsum.to_numpy(), f'astype={astype}: logsums', 0)

    _, total, _ = m.run_stochastic(clear_scope=False, scale_utilities=scale)
    ctx.equal(total.to_numpy(), logsum.to_numpy(), 'logsums of the stochastic run compared to the discrete one', 1e-12)


def rejects(ctx):
    tree = gen_any_tree(ctx)
    m, units, U, how = make(ctx, tree, ctx.pick([1, 5]), 0.2)
    bad = ctx.pick([0, -1, -5])
    ctx.note('n_draws', bad)
    ctx.sig(tree.describe(), bad)
    ctx.raises(ValueError, lambda: m.run_discrete(random_seed=1, n_draws=bad, clear_scope=False), f'n_draws={bad}')
    r, _ = m.run_discrete(random_seed=1, n_draws=1, astype='index', clear_scope=False)
    judge_positions(ctx, tree, logit_reference(tree, U)[0], r.to_numpy().reshape(-1, 1), 'run after a rejected one')


def edge_draws(ctx):
    """Uniform draws at the limits of the interval [low, high) that were asked for"""
    tree = gen_any_tree(ctx, 0.5)
    n = ctx.pick([1, 4, 10])
    m, units, U, how = make(ctx, tree, n, ctx.pick([0.3, 0.6, 0.9]))
    P, _, _ = logit_reference(tree, U)
    n_draws = ctx.pick([1, 4])
    mode = ctx.pick(['high', 'low', 'both'])
    originals = {k: getattr(np.random, k) for k in ('uniform', 'random', 'random_sample', 'rand') if hasattr(np.random, k)}
    used = [0]

    def draws(size, low=0.0, high=1.0):
        used[0] += 1
        lo, hi = low, np.nextafter(high, low)
        if size is None or size == ():
            return lo if mode == 'low' or (mode == 'both' and used[0] % 2) else hi
        out = np.full(size, hi)
        if mode == 'low':
            out[...] = lo
        elif mode == 'both':
            out.ravel()[::2] = lo
        return out

    np.random.uniform = lambda low=0.0, high=1.0, size=None: draws(size, low, high)
    np.random.random = np.random.random_sample = lambda size=None: draws(size)
    np.random.rand = lambda *shape: draws(shape or None)
    try:
        result, _ = m.run_discrete(random_seed=ctx.int(1, 10 ** 6), n_draws=n_draws, astype='index', squeeze=False,
                                   clear_scope=False)
    finally:
        for k, f in originals.items():
            setattr(np.random, k, f)
    ctx.note(f'{mode} draws ({used[0]} calls) tree={tree.describe()} P[0]={P[0].tolist()}')
    ctx.sig(tree.describe(), mode, n_draws, P.tobytes()[:400])
    if used[0]:
        ctx.count('edge_cells', result.size)
    judge_positions(ctx, tree, P, result.to_numpy(), f'{mode} draws')


def kernels(ctx):
    """The sampling functions by themselves, which the tests of the package also call directly"""
    from cheval import core
    k = ctx.pick([1, 2, 3, 5, 16, 100])
    w = ctx.rng.integers(0, 9, k) * (ctx.rng.random(k) < ctx.pick([0.2, 0.6, 1.0]))
    style = ctx.pick(['eighths', 'random', 'tenths'])
    if w.sum() == 0:
        w[ctx.int(0, k - 1)] = 1
    p = w / w.sum() if style != 'random' else (w * ctx.rng.random(k))
    if style == 'random':
        p = p / p.sum()
    p = p.astype(float)
    cum = np.cumsum(p)
    tiny = np.finfo(float).tiny
    draws = np.concatenate([ctx.rng.random(20), cum, np.nextafter(cum, 0), np.nextafter(cum, 2), [0.0, tiny, 1e-300,
                            np.nextafter(1, 0)]])
    draws = draws[(draws < 1) & (draws >= 0)]
    cps = p.copy()
    core.nbf_cumsum(cps) if hasattr(core, 'nbf_cumsum') else np.cumsum(p, out=cps)
    ctx.note('p=', p.tolist()[:12])
    ctx.sig(p.tobytes())
    for r in draws:
        for what, i in (('sample_once', core.sample_once(p.copy(), float(r))),
                        ('logarithmic_search', core.logarithmic_search(float(r), cps.copy()))):
            ctx.count('kernel_draws')
            ctx.count('assertions')
            i = int(i)
            if not (0 <= i < k) or not p[i] > 0:
                ctx.fail(f'{what} with draw {r!r} returned {i}, which has no probability in {p.tolist()}')
            lower = cum[i - 1] if i else 0.0
            if not (lower - 1e-12 <= r <= cum[i] + 1e-12):
                ctx.fail(f'{what} with draw {r!r} returned {i}, whose interval is [{lower!r}, {cum[i]!r}]')


SCENARIOS = [
    Scenario('forms', forms, {'py': 220, 'jit': 220}, {'py': 5000, 'jit': 5000}, modes=('py', 'jit')),
    Scenario('rejects', rejects, 16, 100),
    Scenario('edge_draws', edge_draws, 500, 10000),
    Scenario('kernels', kernels, {'py': 100, 'jit': 200}, {'py': 3000, 'jit': 5000}, modes=('py', 'jit')),
]
