"""The debug trace shows the utilities of one unit after each of the expressions"""
import logging

import numpy as np
import pandas as pd

from rtm.checks.c07 import grow, keys_for, setup as setup_any, total, single
from rtm.checks.c10 import setup
from rtm.core import Scenario
from rtm.models import gen_any_tree
from rtm.shadow import GROUPS, Twin

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random model with expressions (in groups, with restrictions and values per choice) and partial utilities, '
        'and one of its units to be traced. The trace has to list the expressions in their order of evaluation, with the '
        'cumulative utilities for each choice, and tracing must not affect the results. Distinct by history and unit.')
ASSUMPTIONS = ['decision units are unique', 'labels which are falsy (0, empty text) do not turn tracing on, so they are not traced']
MINIMUM = {'logged': 800, 'traces': 800, 'rows_compared': 2000, 'untraced_equal': 500, 'group_traces': 80}


class Messages(logging.Handler):
    """What gets logged"""

    def __init__(self):
        super().__init__(0)
        self.texts = []
        self.logger = logging.Logger('runs', logging.DEBUG)
        self.logger.addHandler(self)

    def emit(self, record):
        self.texts.append(record.getMessage())

    def judge(self, ctx, exprs, what):
        """Each of the expressions is announced, in their order of evaluation"""
        ctx.check(len(self.texts) == len(exprs) and all(f'`{e}`' in t for e, t in zip(exprs, self.texts)),
                  f'{what}: the log has {self.texts}, instead of the expressions {exprs}')
        ctx.count('logged', len(exprs))


def judge(ctx, model, tree, label, row, partial, steps, what, precision=8, **kw):
    """steps: list of (text, values [n x c]) in the order of evaluation"""
    ctx.check(isinstance(model.debug_results, pd.DataFrame), f'{what}: there is no trace')
    got = model.debug_results
    ctx.labels(got.index, [t for t, _ in steps], f'{what}: expressions of the trace')
    ctx.labels(got.columns, tree.labels(), f'{what}: choices of the trace')
    cum = partial[row].copy()
    tol = 1e-9 if precision == 8 else 2e-4
    for i, (text, v) in enumerate(steps):
        cum = cum + v[row]
        ctx.equal(got.to_numpy(dtype=float)[i], cum, f'{what}: utilities of unit {label!r} after `{text}`', tol, tol)
        ctx.count('rows_compared')
    ctx.count('traces')


def traces(ctx):
    tw = setup(ctx, n_expr=ctx.int(1, 6))
    while not tw.units.is_unique:
        tw.set_units()
        tw.complete()
    m = tw.model
    ctx.note('tree', tw.tree.describe())
    kw = dict(clear_scope=False, check_infeasible=False)
    plain = m.run_stochastic(**kw)
    ctx.check(m.debug_results is None, 'a trace although it was not asked for')
    for _ in range(2):
        row = ctx.int(0, tw.n - 1)
        label = tw.units[row]
        if not label:
            continue
        m.debug_id = label
        group = ctx.pick(tw.groups()) if tw.groups() and ctx.chance(0.4) else None
        partial = np.zeros((tw.n, tw.c)) if tw.partial is None else tw.partial
        log = Messages()
        logged = dict(logger=log.logger) if ctx.chance(0.5) else {}
        if ctx.chance(0.3) and group is None and np.isfinite(tw.utilities()).all():
            m.run_discrete(random_seed=1, clear_scope=False, n_draws=ctx.int(1, 3), n_threads=ctx.pick([1, 2]),
                           **logged)
        else:
            traced = m.run_stochastic(group=group, n_threads=ctx.pick([1, 2]), **logged, **kw)
            if group is None:
                for a, b, name in zip(traced, plain, ('probabilities', 'logsums', 'terms')):
                    ctx.equal(a.to_numpy(), b.to_numpy(), f'{name} with a trace', 1e-12)
                ctx.count('untraced_equal')
            else:
                ctx.count('group_traces')
        judge(ctx, m, tw.tree, label, row, partial, [(e.text, e.fn(tw)) for e in tw.selected(group)],
              f'trace of {label!r} (group {group!r})', tw.tol)
        if logged:
            log.judge(ctx, [e.text for e in tw.selected(group)], f'run (group {group!r})')
        if ctx.chance(0.4):  # The earlier trace is not affected by what follows
            old, keep = m.debug_results, m.debug_results.copy(deep=True)
            tw.append()
            tw.complete()
            m.run_stochastic(**kw)
            ctx.equal(old.to_numpy(), keep.to_numpy(), 'trace of an earlier run', 0, 0)
            plain = m.run_stochastic(**kw)
    m.debug_id = None
    if tw.groups() and ctx.chance(0.3):
        group, log = ctx.pick(tw.groups()), Messages()
        texts = [e.text for e in tw.selected(group)]
        tw.preval(group, logger=log.logger)
        log.judge(ctx, texts, f'preval of group {group!r}')
    tw.check('after tracing')
    ctx.sig(ctx.trace)


def copies(ctx):
    """Copies and subsets trace on their own"""
    tw = setup(ctx)
    while not tw.units.is_unique or tw.n < 2:
        tw.set_units(n=ctx.int(2, 6))
        tw.complete()
    row = ctx.int(0, tw.n - 1)
    label = tw.units[row]
    if not label:
        row = (row + 1) % tw.n
        label = tw.units[row]
    tw.model.debug_id = label
    if tw.groups() and ctx.chance(0.5):
        tw.preval(tw.groups()[0])
    mask = ctx.rng.random(tw.n) < 0.5
    mask[row] = True
    for t, r in ((tw.copy('copy'), row), (tw.copy_subset('subset', mask), int(mask[:row].sum()))):
        if ctx.chance(0.5):
            t.append()
            t.complete()
        before = tw.model.debug_results
        t.model.run_stochastic(clear_scope=False, check_infeasible=False)
        if not t.exprs:
            continue
        partial = np.zeros((t.n, t.c)) if t.partial is None else t.partial
        judge(ctx, t.model, t.tree, label, r, partial, [(e.text, e.fn(t)) for e in t.selected()], f'trace of the {t.name}', t.tol)
        ctx.check(tw.model.debug_results is before, 'the trace of the original was changed by its copy')
    ctx.sig(ctx.trace)


def any_expression(ctx):
    """Traces of all kinds of expressions"""
    tree = gen_any_tree(ctx, 0.5, max_depth=2, max_children=3)
    m, units, scope, gen = setup_any(ctx, tree, ctx.pick([2, 4, 7]), ctx.int(1, 5))
    exprs = grow(ctx, scope, gen, tree, ctx.int(1, 6))
    for t, _ in exprs:
        m.expressions.append(t)
    row = ctx.int(0, scope.n - 1)
    label = units[row]
    if not label:
        return
    kw = dict(clear_scope=False, check_infeasible=False)
    plain = m.run_stochastic(**kw)
    m.debug_id = label
    for a, b in zip(m.run_stochastic(**kw), plain):
        ctx.equal(a.to_numpy(), b.to_numpy(), 'results with a trace', 1e-12)
    ctx.count('untraced_equal')
    ctx.note('unit', label, [t for t, _ in exprs])
    judge(ctx, m, tree, label, row, np.zeros((scope.n, scope.c)), exprs, 'trace', 4 if single(scope) else 8)
    ctx.sig([t for t, _ in exprs])


SCENARIOS = [
    Scenario('traces', traces, 500, 8000),
    Scenario('copies', copies, 150, 2000),
    Scenario('any_expression', any_expression, 300, 5000),
]
