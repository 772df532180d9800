"""Compiled code stays within the memory it was given"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import Tree, gen_any_tree, gen_mnl, gen_tree, gen_units, logit_reference

SHARDS = {'py': 3, 'bc': 5}
RULE = ('The compiled functions run with bounds checking of every array access (mode bc), and as interpreted code over NumPy '
        'arrays (mode py), with freshly allocated memory filled with a pattern. A case is a random tree and size with '
        'tables in varying memory layouts (strided, reversed, transposed, read-only, embedded between canaries), which '
        'get added to the utilities through row and column indexers, and are run in all ways. Any access out of bounds, '
        'changed canary, or deviation from an independent computation is a violation.')
ASSUMPTIONS = ['bounds checking covers accesses past the end of an array, and runs with one thread (errors which are raised '
               'in other threads do not reliably reach the caller)',
               'negative indices that wrap around are only visible through wrong results']
MINIMUM = {'models': 300, 'partial_tables': 500, 'kernel_calls': 300, 'canaries': 50000, 'values_compared': 20000}


def layout(ctx, values):
    """The same values in another memory layout, with the canaries around them"""
    n, c = values.shape
    how = ctx.pick(['C', 'F', 'strided', 'reversed', 'embedded', 'readonly', 'column_strided'])
    canary = None
    dtype = values.dtype
    if how == 'C':
        out = np.ascontiguousarray(values)
    elif how == 'F':
        out = np.asfortranarray(values)
    elif how == 'strided':
        canary = np.full((2 * n + 1, c), 777.0, dtype)
        out = canary[1::2]
        out[...] = values
    elif how == 'column_strided':
        canary = np.full((n, 3 * c), 777.0, dtype)
        out = canary[:, 1::3]
        out[...] = values
    elif how == 'reversed':
        canary = np.full((n + 2, c), 777.0, dtype)
        out = canary[n:0:-1]
        out[...] = values
    elif how == 'embedded':
        canary = np.full((n + 4, c + 6), 777.0, dtype)
        out = canary[2:-2, 3:-3]
        out[...] = values
    else:
        out = np.ascontiguousarray(values)
        out.setflags(write=False)
    return how, out, canary


def check_canary(ctx, canary, values, before):
    if canary is not None:
        ctx.count('canaries', canary.size)
        ctx.check(np.array_equal(canary, before), 'memory next to a table given to the model was changed')


def models(ctx):
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.6, max_depth=ctx.pick([2, 2, 3, 5]), max_children=ctx.pick([2, 4, 8]))
    if ctx.chance(0.1):
        tree = gen_mnl(ctx, ctx.pick([2, 64, 257]))
    n = ctx.pick([1, 2, 3, 8, 31, 100]) if ctx.mode == 'bc' else ctx.pick([1, 2, 5])
    precision = ctx.pick([8, 4])
    m = ChoiceModel(precision=precision)
    tree.build(m, ctx.rng)
    units = gen_units(ctx, n)
    m.decision_units = units
    U = np.zeros((n, tree.n))
    n_tables = ctx.int(1, 4)
    ctx.note(f'tree={tree.describe()} n={n} precision={precision}')
    kept = []
    for _ in range(n_tables):
        kind = ctx.pick(['full', 'rows', 'cols', 'both', 'matrix'])
        rows, cols = np.arange(n), np.arange(tree.n)
        if kind in ('rows', 'both'):
            rows = ctx.rng.permutation(n)[:ctx.int(1, n)]
        if kind in ('cols', 'both'):
            cols = ctx.rng.permutation(tree.n)[:ctx.int(1, tree.n)]
        values = ctx.reals((len(rows), len(cols)), 2) if ctx.chance(0.6) else ctx.dyadic((len(rows), len(cols)), 2).astype('f4')
        how, arr, canary = layout(ctx, values)
        frame = pd.DataFrame(arr, index=units[rows] if kind in ('rows', 'both') else units,
                             columns=m.choices[cols] if kind in ('cols', 'both') else m.choices, copy=False)
        before = None if canary is None else canary.copy()
        if kind == 'matrix':
            name = f'mat{len(kept)}'
            m.declare_matrix(name)
            m[name].assign(frame)
            m.expressions.append(name)
        else:
            m.add_partial_utilities(frame, reindex_rows=kind in ('rows', 'both'))
        ctx.count('partial_tables')
        ctx.note(kind, how, arr.shape, arr.dtype)
        U[np.ix_(rows, cols)] += values
        kept.append((canary, values, before, arr))
    scale = ctx.chance(0.7)
    if not m.expressions.tolist():
        m.expressions.append('0')
    P, top, T = logit_reference(tree, U, scale)
    tol = 1e-9 if precision == 8 else 3e-5
    probs, total, terms = m.run_stochastic(clear_scope=False, scale_utilities=scale, n_threads=1)
    ctx.equal(probs.to_numpy(dtype=float), P, 'probabilities', tol, 1e-6 if precision == 4 else 1e-12)
    ctx.equal(terms.to_numpy(dtype=float), T, 'nested terms', tol)
    ctx.equal(total.to_numpy(dtype=float), top, 'logsums', tol)
    for n_draws in (1, ctx.pick([2, 7, 50])):
        r, ls = m.run_discrete(random_seed=ctx.int(0, 10 ** 6), n_draws=n_draws, astype='index', squeeze=False,
                               clear_scope=False, scale_utilities=scale, n_threads=1)
        ctx.check(bool(np.isin(r.to_numpy(), tree.leaves).all()), 'sampled something else than an elemental choice')
        ctx.equal(ls.to_numpy(dtype=float), top, 'logsums of a discrete run', tol)
    for canary, values, before, arr in kept:
        check_canary(ctx, canary, values, before)
        ctx.check(np.array_equal(arr, values), 'a table given to the model was changed')
    ctx.count('models')
    ctx.sig(tree.describe(), n, precision, U.tobytes()[:200])


def kernels(ctx):
    """The functions for single units, which the tests of the package also call directly"""
    from cheval import core
    tree = gen_tree(ctx, max_depth=ctx.pick([2, 3, 4]))
    parents = np.array([nd.parent for nd in tree.nodes], dtype='i8')
    levels = np.array([len(nd.path) - 1 for nd in tree.nodes], dtype='i8')
    bottom = np.array([not nd.children for nd in tree.nodes])
    scales = np.array([1.0 if b else nd.theta for nd, b in zip(tree.nodes, bottom)])
    u = ctx.dyadic(tree.n, 3)
    if ctx.chance(0.3):
        u = u.astype('f4')
    big = np.full(3 * tree.n, 777.0, dtype=u.dtype)
    view = big[tree.n:2 * tree.n]
    view[:] = u
    P, top, T = logit_reference(tree, u.astype(float)[None, :])
    tol = 1e-9 if u.dtype == 'f8' else 3e-5
    p, ls, terms = core.nested_probabilities(view, parents, levels, scales, bottom, True, True)
    ctx.equal(np.asarray(p)[tree.leaves], P[0], 'nested_probabilities', tol)
    ctx.equal(terms, T[0], 'terms of nested_probabilities', tol)
    r = float(ctx.pick([ctx.rng.random(), 0.0, 1 - 1e-16]))
    i, _ = core.nested_sample(view, r, parents, levels, scales, bottom, True)
    ctx.check(i in tree.leaves, f'nested_sample with draw {r} returned {i}')
    k = ctx.int(1, 20)
    big_out = np.full(k + 10, -77, dtype='i8')
    out = big_out[5:-5]
    core.nested_multisample(view, parents, levels, scales, bottom, k, ctx.int(0, 10 ** 6), True, out)
    ctx.check(bool(np.isin(out, tree.leaves).all()), f'nested_multisample filled in {out.tolist()}')
    ctx.check(bool((big_out[:5] == -77).all() and (big_out[-5:] == -77).all()), 'nested_multisample wrote next to its output')
    core.multinomial_multisample(view, k, ctx.int(0, 10 ** 6), out)
    ctx.check(bool(((out >= 0) & (out < tree.n)).all()), f'multinomial_multisample filled in {out.tolist()}')
    ctx.check(bool((big_out[:5] == -77).all() and (big_out[-5:] == -77).all()),
              'multinomial_multisample wrote next to its output')
    i, _ = core.multinomial_sample(view, r)
    ctx.check(0 <= i < tree.n, f'multinomial_sample with draw {r} returned {i}')
    ctx.check(bool((big[:tree.n] == 777).all() and (big[2 * tree.n:] == 777).all()), 'memory next to the utilities was changed')
    ctx.check(np.array_equal(view, u), 'the utilities of the caller were changed')
    w = np.abs(ctx.dyadic(ctx.pick([1, 2, 9]), 2)) + 0.125
    i = core.simple_sample(w.copy(), r)
    ctx.check(0 <= i < len(w), f'simple_sample with draw {r} returned {i}')
    cps = np.cumsum(w / w.sum())
    for rr in (r, 0.0, 1.0, 0.5, cps[0], cps[-1]):
        i = core.logarithmic_search(float(rr), cps)
        ctx.check(0 <= i < len(w), f'logarithmic_search with draw {rr} returned {i}')
    n = ctx.pick([1, 5])
    table = np.abs(ctx.dyadic((n, len(w)), 2)) * (ctx.rng.random((n, len(w))) < 0.7)
    table[np.arange(n), ctx.rng.integers(0, len(w), n)] = 1
    before = table.copy()
    if hasattr(core, 'worker_weighted_sample'):  # neither the package nor its tests need it
        for draws in (1, k) if ctx.mode == 'bc' else (1,):
            got = core.worker_weighted_sample(table, draws, ctx.int(0, 10 ** 6))
            ctx.check(got.shape == (n, draws) and bool(((got >= 0) & (got < len(w))).all()),
                      f'worker_weighted_sample with {draws} draws returned {got.tolist()}')
            ctx.check(bool((np.take_along_axis(table, got, axis=1) > 0).all()),
                      f'worker_weighted_sample with {draws} draws chose something without weight')
    ctx.check(np.array_equal(table, before), 'worker_weighted_sample changed the weights of the caller')
    ctx.count('kernel_calls', 13)
    ctx.note(f'tree={tree.describe()} r={r} k={k}')
    ctx.sig(tree.describe(), u.tobytes(), k)


def misfits(ctx):
    """Tables which do not fit get rejected before anything is written"""
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.5, max_depth=2)
    n = ctx.pick([2, 5])
    m = ChoiceModel()
    tree.build(m, ctx.rng)
    m.decision_units = pd.RangeIndex(n)
    U = ctx.dyadic((n, tree.n), 2)
    m.add_partial_utilities(pd.DataFrame(U, index=m.decision_units, columns=m.choices))
    m.expressions.append('0')
    want = m.run_stochastic(clear_scope=False)
    kind = ctx.pick(['unknown_row', 'unknown_col', 'both', 'rows_not_allowed', 'cols_not_allowed'])
    rows, cols = list(range(n)), m.choices
    kw = dict(reindex_rows=True)
    if kind in ('unknown_row', 'both'):
        rows[ctx.int(0, n - 1)] = ctx.pick([n, n + 50, -1])
    if kind in ('unknown_col', 'both'):
        bad = 'unknown' if tree.depth == 1 else ('unknown',) * tree.depth
        cols = list(m.choices)
        cols[ctx.int(0, tree.n - 1)] = bad
        cols = pd.Index(cols) if tree.depth == 1 else pd.MultiIndex.from_tuples(cols)
    if kind == 'rows_not_allowed':
        rows, kw = rows[::-1], {}
    if kind == 'cols_not_allowed':
        cols, kw = m.choices[::-1], dict(reindex_rows=True, reindex_columns=False)
    frame = pd.DataFrame(np.ones((len(rows), len(cols))), index=rows, columns=cols)
    ctx.raises(Exception, lambda: m.add_partial_utilities(frame, **kw),
               f'partial utilities with {kind}')
    got = m.run_stochastic(clear_scope=False)
    for x, y in zip(got, want):
        ctx.equal(x.to_numpy(), y.to_numpy(), 'results after a rejected table', 0)
    ctx.note(kind, tree.describe())
    ctx.sig(kind, tree.describe(), rows)


SCENARIOS = [
    Scenario('models', models, {'py': 120, 'bc': 500}, {'py': 2000, 'bc': 12000}, modes=('py', 'bc')),
    Scenario('kernels', kernels, {'py': 60, 'bc': 300}, {'py': 2000, 'bc': 12000}, modes=('py', 'bc')),
    Scenario('misfits', misfits, {'py': 40, 'bc': 40}, {'py': 500, 'bc': 500}, modes=('py', 'bc')),
]
