"""Results are never silently invalid: utilities which don't have probabilities get reported"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import Tree, gen_any_tree, gen_mnl, gen_units, logit_reference

SHARDS = {'py': 5, 'jit': 3}
RULE = ('A case is a random tree, with a block of ordinary utilities in which faults get injected at random cells: NaN, '
        '+inf, utilities beyond the exponent range, rows (or nests) without any available alternative. It is run in both '
        'modes, with 1 to 8 threads. Non-trivial cases are distinguished by tree, kind and position of the faults, '
        'precision, threads and the way of running.')
ASSUMPTIONS = ['"invalid" means NaN in a result, probabilities outside of [0, 1], or a row which does not add up to 1 '
               '(unless its infeasibility was explicitly allowed)']
MINIMUM = {'faulty_runs': 400, 'rejected': 300, 'clean_runs': 60, 'infeasible_rows_allowed': 100, 'assertions': 3000,
           'expression_faults': 60}


def bounds_error():
    from cheval.core import UtilityBoundsError
    return UtilityBoundsError


def supply(ctx, m, units, U):
    frame = pd.DataFrame(U, index=units, columns=m.choices)
    if ctx.chance(0.5):
        m.add_partial_utilities(frame)
        return 'partial'
    m.declare_matrix('mat')
    m['mat'].assign(frame)
    m.expressions.append('mat')
    return 'matrix'


def build(ctx, tree, units, precision):
    from cheval import ChoiceModel
    m = ChoiceModel(precision=precision)
    tree.build(m, ctx.rng)
    m.decision_units = units
    return m


def valid_stochastic(ctx, out, tree, zero_rows=None):
    """zero_rows: rows which may (and have to) be entirely zero"""
    probs, total, terms = [o.to_numpy(dtype=float) for o in out]
    for o, what in ((probs, 'probabilities'), (total, 'logsums'), (terms, 'nested terms')):
        ctx.check(not np.isnan(o).any(), f'{what} contain NaN in rows {np.unique(np.nonzero(np.isnan(o))[0])[:5]}')
        ctx.check(bool(np.isfinite(o).all()), f'{what} contain infinite values')
    ctx.check(bool(((probs >= 0) & (probs <= 1 + 1e-9)).all()), 'probabilities outside of [0, 1]')
    sums = probs.sum(axis=1)
    want = np.ones(len(sums))
    if zero_rows is not None:
        want[zero_rows] = 0
        ctx.check(bool((total[zero_rows] == 0).all()), 'logsum of an infeasible row is not 0')
        ctx.count('infeasible_rows_allowed', np.count_nonzero(zero_rows))
    ctx.equal(sums, want, 'row sums of the probabilities', 1e-5, 1e-5)


def run(ctx, m, how, n_threads, check=True):
    if how == 'stochastic':
        return m.run_stochastic(n_threads=n_threads, clear_scope=False, check_infeasible=check)
    return m.run_discrete(n_threads=n_threads, clear_scope=False, random_seed=ctx.int(1, 10 ** 6), n_draws=how[1],
                          astype='index')


def positive(tree, T, nodes):
    """Whether a leaf and all of its parents have a positive term"""
    ok = np.ones(T.shape[0], dtype=bool)
    j = nodes
    while j >= 0:
        ok &= T[:, j] > 0
        j = tree.nodes[j].parent
    return ok


def faults(ctx):
    tree = gen_any_tree(ctx, 0.6, max_depth=ctx.pick([2, 2, 3, 4]))
    n = ctx.pick([1, 2, 5, 40]) if ctx.mode == 'py' else ctx.pick([1, 5, 64, 1000])
    precision = ctx.pick([8, 8, 4])
    units = gen_units(ctx, n)
    U = ctx.dyadic((n, tree.n), 4)
    kind = ctx.pick(['nan', 'nan_parent', 'inf', 'huge', 'huge_sum', 'dead_row', 'dead_row', 'tiny_row', 'none', 'dead_nest',
                     'neg_inf_top'])
    n_bad = ctx.pick([1, 1, 2, max(1, n // 2), n])
    rows = np.sort(ctx.rng.permutation(n)[:n_bad])
    nests = [i for i, nd in enumerate(tree.nodes) if nd.children]
    roots = [i for i, nd in enumerate(tree.nodes) if nd.parent < 0]
    # 'bad': not acceptable by any means. 'dead': only acceptable without checking for infeasibility
    bad = dead = False
    if kind == 'nan':
        for r in rows:
            U[r, ctx.int(0, tree.n - 1)] = np.nan
        bad = True
    elif kind == 'nan_parent':
        if not nests:
            kind = 'nan'
        for r in rows:
            U[r, ctx.pick(nests or range(tree.n))] = np.nan
        bad = True
    elif kind == 'inf':
        for r in rows:
            U[r, ctx.pick(tree.leaves)] = np.inf
        bad = True
    elif kind == 'huge':
        for r in rows:
            U[r, ctx.pick(roots)] = ctx.pick([720.0, 800.0, 5000.0, 1e30])
        bad = True
    elif kind == 'huge_sum':  # Every exponential is finite, but not their sum
        U[np.ix_(rows, roots)] = 709.5 if tree.depth == 1 else 1000
        bad = True
        if tree.depth == 1 and precision == 4:
            U[np.ix_(rows, roots)] = 88.7  # Overflows only if sums are kept in single precision, which they aren't
            bad = False
    elif kind == 'dead_row':
        U[rows] = -np.inf
        dead = True
    elif kind == 'neg_inf_top':
        U[np.ix_(rows, roots)] = -np.inf
        dead = True
    elif kind == 'tiny_row':
        U[rows] = ctx.pick([-800.0, -5000.0, -1e6])
        dead = True
        if tree.depth > 1 and any(nd.theta < 1 for nd in tree.nodes):
            U[rows] = -1e6
    elif kind == 'dead_nest':
        if not nests:
            kind = 'none'
        else:
            for r in rows:
                k = ctx.pick(nests)
                for c in tree.nodes[k].children:
                    U[r, c] = -np.inf
            P, top, _ = logit_reference(tree, U)
            dead = bool((top == 0).any())
            rows = np.flatnonzero(top == 0)
    m = build(ctx, tree, units, precision)
    via = supply(ctx, m, units, U)
    how = ctx.pick(['stochastic', 'stochastic', ('discrete', 1), ('discrete', 5)])
    n_threads = ctx.pick([1, 2, 4, 8])
    scaled = True
    ctx.note(f'{kind} rows={rows[:8].tolist()} of {n} tree={tree.describe()} precision={precision} {how} '
             f'threads={n_threads} via={via}')
    ctx.sig(kind, tree.describe(), rows[:10].tolist(), n, precision, how, n_threads)
    E = bounds_error()
    if bad:
        ctx.count('faulty_runs')
        ctx.raises(E, lambda: run(ctx, m, how, n_threads), f'run with {kind} utilities')
        ctx.count('rejected')
        ctx.count(f'rejected_{kind}')
        ctx.raises(E, lambda: m.run_stochastic(n_threads=n_threads, clear_scope=False, check_infeasible=False),
                   f'run with {kind} utilities, without checking for infeasible rows')
    elif dead:
        ctx.count('faulty_runs')
        ctx.raises(E, lambda: run(ctx, m, how, n_threads), f'run with {kind}')
        ctx.count('rejected')
        ctx.count(f'rejected_{kind}')
        out = m.run_stochastic(n_threads=n_threads, clear_scope=False, check_infeasible=False)
        zero = np.zeros(n, dtype=bool)
        zero[rows] = True
        valid_stochastic(ctx, out, tree, zero)
        ref = U.copy()
        ref[ref < -740] = -np.inf  # Vanishes in double precision
        P, top, _ = logit_reference(tree, ref)
        ctx.equal(out[0].to_numpy(dtype=float), P, 'probabilities next to infeasible rows', 3e-5, 1e-6)
    else:
        ctx.count('clean_runs')
        out = run(ctx, m, how, n_threads)
        P, top, T = logit_reference(tree, U)
        if how == 'stochastic':
            valid_stochastic(ctx, out, tree)
        else:
            picks = out[0].to_numpy().reshape(n, -1)
            for j in range(picks.shape[1]):
                pos = {leaf: k for k, leaf in enumerate(tree.leaves)}
                ctx.check(all(p in pos and P[i, pos[p]] > 0 for i, p in enumerate(picks[:, j])),
                          'sampled an alternative which is not available')


def extremes(ctx):
    """Utilities at and around the limits of the exponent range: the outcome is either a report or a valid result"""
    tree = gen_any_tree(ctx, 0.7, max_depth=ctx.pick([2, 3]))
    n = ctx.pick([1, 6, 30])
    precision = ctx.pick([8, 8, 4])
    units = gen_units(ctx, n)
    pool = np.array([0, 0, 1, -1, 700, 709, 709.78, 710, -700, -745, -746, -800, 88, 89, -103, -104, 1e4, -1e4, 1e300,
                     -1e300, -np.inf, np.inf, np.nan, 3e38, -3e38])
    mild = ctx.chance(0.5)
    p = np.ones(len(pool))
    p[:4] = 20
    if mild:
        p[16:] = 0
    U = ctx.rng.choice(pool, size=(n, tree.n), p=p / p.sum())
    m = build(ctx, tree, units, precision)
    via = supply(ctx, m, units, U)
    how = ctx.pick(['stochastic', ('discrete', 1), ('discrete', 3)])
    n_threads = ctx.pick([1, 3, 8])
    check = ctx.chance(0.6)
    ctx.note(f'tree={tree.describe()} n={n} precision={precision} {how} threads={n_threads} check={check}')
    ctx.note('U=', U[:6].tolist())
    ctx.sig(tree.describe(), U.tobytes(), how, precision, check)
    has_nan = bool(np.isnan(U).any())
    try:
        out = run(ctx, m, how, n_threads, check)
    except bounds_error():
        ctx.count('rejected')
        ctx.count('faulty_runs')
        # Ordinary rows must not be reported
        P, top, T = logit_reference(tree, U)
        if not has_nan and precision == 8:
            limit_ok = (np.abs(U[np.isfinite(U)]) < 150).all() and (U != np.inf).all() and (top > 1e-200).all()
            ctx.check(not limit_ok, 'valid utilities were reported as out of bounds')
        return
    ctx.check(not has_nan, 'NaN utilities were accepted')
    ctx.count('extreme_accepted')
    if how == 'stochastic':
        sums = out[0].to_numpy(dtype=float).sum(axis=1)
        zero = sums == 0
        if check:
            ctx.check(not zero.any(), 'rows without probabilities were returned')
        valid_stochastic(ctx, out, tree, zero)
    else:
        total = out[1].to_numpy(dtype=float)
        ctx.check(bool((np.isfinite(total) & (total > 0)).all()), f'invalid logsums were returned: {total[:5]}')
        ctx.check(np.isin(out[0].to_numpy(), tree.leaves).all(), 'a nest was sampled')


def from_expressions(ctx):
    """Invalid values which come out of expressions, in a subset of the cells only"""
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.4, max_depth=2)
    n = ctx.pick([1, 3, 20])
    m = ChoiceModel(precision=ctx.pick([8, 8, 4]))
    tree.build(m, ctx.rng)
    m.decision_units = gen_units(ctx, n)
    m.declare_vector('v', 0)
    x = ctx.dyadic(n, 4)
    bad = ctx.rng.integers(0, n)
    kind = ctx.pick(['log', 'sqrt', 'div', 'div0', 'nan_literal', 'nan_vector', 'inf_minus_inf', 'exp', 'none_literal'])
    leaf = tree.dotted(ctx.pick(tree.leaves))
    x = np.abs(x) + 0.5
    v = x.copy()
    if kind == 'log':
        v[bad], e = -1, 'log(v)'
    elif kind == 'sqrt':
        v[bad], e = -1, 'sqrt(v)'
    elif kind == 'div':
        v[bad], e = 0, '1 / v'
    elif kind == 'div0':
        v[bad], e = 0, 'v / v'
    elif kind == 'nan_literal':
        v[bad], e = -1, 'where(v < 0, nan, v)'
    elif kind == 'none_literal':
        v[bad], e = -1, 'where(v < 0, None, v)'
    elif kind == 'nan_vector':
        v[bad], e = np.nan, 'v * 2'
    elif kind == 'inf_minus_inf':
        v[bad], e = np.inf, 'v - v'
    else:
        v[bad], e = 1e4, 'exp(v)'
    clean = ctx.chance(0.25)
    if clean:
        v = x
        if kind == 'exp':
            v = x / 4
    m['v'].assign(v)
    others = ['0.5', 'v * 0' if not kind == 'nan_vector' and np.isfinite(v).all() else '1']
    e = e + (f' @ {leaf}' if ctx.chance(0.7) else '')
    for t in ctx.rng.permutation(others + [e]):
        m.expressions.append(str(t))
    how = ctx.pick(['stochastic', ('discrete', 1), ('discrete', 4)])
    ctx.note(kind, e, f'bad row {bad} of {n}', how, 'clean' if clean else 'faulty')
    ctx.sig(kind, e, bad, n, how, clean, tree.describe())
    ctx.count('expression_faults')
    if clean:
        out = run(ctx, m, how, 2)
        if how == 'stochastic':
            valid_stochastic(ctx, out, tree)
        ctx.count('clean_runs')
    else:
        ctx.count('faulty_runs')
        ctx.raises(bounds_error(), lambda: run(ctx, m, how, 2), f'run with {kind} in `{e}`')
        ctx.count('rejected')


SCENARIOS = [
    Scenario('faults', faults, {'py': 330, 'jit': 400}, {'py': 8000, 'jit': 12000}, modes=('py', 'jit')),
    Scenario('extremes', extremes, {'py': 300, 'jit': 400}, {'py': 8000, 'jit': 10000}, modes=('py', 'jit')),
    Scenario('from_expressions', from_expressions, {'py': 160, 'jit': 100}, {'py': 3000, 'jit': 1500}, modes=('py', 'jit')),
]
