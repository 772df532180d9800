"""Probabilities, total logsums and nested terms follow the (nested) logit formula"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import gen_mnl, gen_tree, gen_units, logit_reference, supply

SHARDS = {'py': 6, 'jit': 3}
RULE = ('A case is a randomly grown tree of choices (flat, or nested up to 5 levels, added in depth-first, breadth-first '
        'or interleaved order), an index of units of varying type, utilities given through varying public ways, '
        'precision, thread count and scaling flag. It counts as non-trivial by its tree, number of units, settings and '
        'range of utilities. Every returned value is compared with an independent extended-precision recursion.')
ASSUMPTIONS = ['utilities stay within the range whose exponentials are normal floating-point numbers, except for -inf',
               'tolerance 1e-9 (precision 8) or 3e-5 (precision 4), relative']
MINIMUM = {'values_compared': 20000, 'nested_models': 100, 'flat_models': 50, 'unavailable_cells': 200,
           'unscaled_runs': 30, 'further_runs': 200, 'single_precision_runs': 40, 'double_precision_utilities': 4000}


def setup(ctx, tree, n, precision, span, shift=0.0, p_inf=0.0, dup=False):
    from cheval import ChoiceModel
    m = ChoiceModel(precision=precision)
    units = gen_units(ctx, n, unique=not dup)
    if precision == 8 and ctx.chance(0.6):
        U = ctx.reals((n, tree.n), span) + shift
        ctx.count('double_precision_utilities', U.size)
    else:
        U = ctx.dyadic((n, tree.n), span) + shift
    if p_inf:
        block = ctx.rng.random((n, tree.n)) < p_inf
        keep = ctx.rng.integers(0, len(tree.leaves), n)  # Always keep one alternative, with all of its parents
        for i, k in enumerate(keep):
            j = tree.leaves[k]
            while j >= 0:
                block[i, j] = False
                j = tree.nodes[j].parent
        U[block] = -np.inf
        ctx.count('unavailable_cells', block.sum())
    if ctx.chance(0.5):
        tree.build(m, ctx.rng)
        m.decision_units = units
    else:
        m.decision_units = units
        tree.build(m, ctx.rng)
    return m, units, U


def judge(ctx, m, tree, units, U, precision, scale, n_threads, out):
    probs, total, terms = out
    P, top, T = logit_reference(tree, U, scale)
    rtol = 1e-9 if precision == 8 else 3e-5
    ctx.check(isinstance(probs, pd.DataFrame) and isinstance(total, pd.Series) and isinstance(terms, pd.DataFrame),
              f'types of the results {[type(o).__name__ for o in out]}')
    ctx.labels(probs.columns, tree.labels(tree.leaves), 'columns of the probabilities')
    ctx.labels(terms.columns, tree.labels(), 'columns of the nested terms')
    for o, what in zip(out, ('probabilities', 'logsums', 'nested terms')):
        ctx.check(o.index.equals(units), f'index of the {what} is not the decision units: {o.index[:5]}')
    ctx.equal(probs.to_numpy(dtype=float), P, 'probabilities', rtol, 1e-12 if precision == 8 else 1e-6)
    ctx.equal(total.to_numpy(dtype=float), top, 'top-level logsums', rtol)
    ctx.equal(terms.to_numpy(dtype=float), T, 'nested terms', rtol)
    ctx.equal(probs.to_numpy(dtype=float).sum(axis=1), np.ones(len(units)), 'row sums of the probabilities',
              1e-9 if precision == 8 else 1e-5)
    ctx.check(bool((probs.to_numpy() >= 0).all()), 'negative probabilities')
    for got, want, what in ((probs, P, 'probabilities'), (terms, T, 'nested terms')):
        leaks = (want == 0) & (got.to_numpy() != 0)
        ctx.check(not leaks.any(), f'{what} of unavailable choices are not zero: {got.to_numpy()[leaks][:5]}')


def go(ctx, tree, n, span, shift=0.0, p_inf=0.0):
    precision = ctx.pick([8, 8, 4])
    if precision == 4 and abs(shift) + span > 60:
        precision = 8
    scale = ctx.chance(0.7)
    n_threads = ctx.pick([1, 1, 2, 3, 4, 8])
    m, units, U = setup(ctx, tree, n, precision, span, shift, p_inf, dup=ctx.chance(0.1))
    how = supply(ctx, m, tree, units, U)
    ctx.note(f'tree={tree.describe()} units={units[:4].tolist()}x{n} precision={precision} scale={scale} '
             f'threads={n_threads} via={how} span={span} shift={shift} p_inf={p_inf}')
    ctx.note(f'U[0]={U[0].tolist()}')
    kw = {} if scale else {'scale_utilities': False}
    again = ctx.chance(0.4)
    out = m.run_stochastic(n_threads=n_threads, clear_scope=not again and ctx.chance(0.5), **kw)
    judge(ctx, m, tree, units, U, precision, scale, n_threads, out)
    for _ in range(ctx.int(1, 2) if again else 0):  # Further runs, with other settings
        for i, nd in enumerate(tree.nodes):
            if tree.depth > 1 and ctx.chance(0.5):
                nd.theta = ctx.pick([0.5, 0.625, 0.75, 0.875, 1.0])
                tree.handles[i].logsum_scale = nd.theta
        scale, n_threads = ctx.chance(0.7), ctx.pick([1, 2, 4])
        ctx.note(f'again: tree={tree.describe()} scale={scale} threads={n_threads}')
        out = m.run_stochastic(n_threads=n_threads, clear_scope=False, scale_utilities=scale)
        judge(ctx, m, tree, units, U, precision, scale, n_threads, out)
        ctx.count('further_runs')
    ctx.sig(tree.describe(), n, precision, scale, how, span, shift, p_inf > 0)
    ctx.count('nested_models' if tree.depth > 1 else 'flat_models')
    ctx.count(f'depth_{tree.depth}')
    ctx.count('single_precision_runs', precision == 4)
    ctx.count('unscaled_runs', not scale)
    ctx.count('rows', n)


def flat(ctx):
    big = ctx.mode == 'jit' and ctx.chance(0.3)
    tree = gen_mnl(ctx, ctx.pick([40, 120, 300]) if big else None)
    n = ctx.pick([1, 2, 3, 7, 20]) if not big else ctx.pick([50, 700])
    shift = ctx.pick([0, 0, 0, 20, -50, 300, -300, 640, -640])
    go(ctx, tree, n, ctx.pick([1, 4, 8, 30]), shift, ctx.pick([0, 0, 0.2, 0.7]))


def nested(ctx):
    tree = gen_tree(ctx, max_children=ctx.pick([2, 3, 4, 6]))
    n = ctx.pick([1, 2, 3, 7, 15]) if ctx.mode == 'py' else ctx.pick([1, 8, 60, 1500])
    go(ctx, tree, n, ctx.pick([1, 4, 8]), ctx.pick([0, 0, 0, 5, -8]), ctx.pick([0, 0, 0.15, 0.5]))


def deep(ctx):
    """A chain of nests, in which every level has one nest and one or more alternatives"""
    from rtm.models import Tree
    t = Tree()
    t.add('r', 1.0)
    parent = -1
    for level in range(ctx.int(3, 8)):
        if parent >= 0:
            t.add('leaf', 1.0, parent)
        nest = t.add('nest', ctx.pick([1.0, 0.9, 0.8, 0.75]), parent)
        parent = nest
    t.add('p', 0.5, parent)
    t.add('q', 0.5, parent)
    go(ctx, t, ctx.pick([1, 4, 9]), ctx.pick([1, 3]), 0.0, ctx.pick([0, 0.2]))


SCENARIOS = [
    Scenario('flat', flat, {'py': 260, 'jit': 240}, {'py': 5000, 'jit': 6000}, modes=('py', 'jit')),
    Scenario('nested', nested, {'py': 420, 'jit': 420}, {'py': 9000, 'jit': 12000}, modes=('py', 'jit')),
    Scenario('deep', deep, {'py': 60, 'jit': 60}, {'py': 1500, 'jit': 2000}, modes=('py', 'jit')),
]
