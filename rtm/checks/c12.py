"""Pre-evaluated groups and partial utilities give the same results as evaluating everything at once"""
import numpy as np
import pandas as pd

from rtm.checks.c10 import setup, step
from rtm.core import Scenario
from rtm.models import gen_any_tree
from rtm.shadow import GROUPS, Twin

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a random model whose expressions are in several groups. It gets run at once, and in all kinds of stages: '
        'groups get pre-evaluated in random order (with and without dropping the group or its symbols) before and after '
        'copying and taking subsets, interleaved with partial utilities. Results are compared with the one-shot run and with '
        'a reference. Distinct by history.')
ASSUMPTIONS = ['values are exact in single precision, so the order of additions does not matter']
MINIMUM = {'prevals': 800, 'group_runs': 600, 'segments': 150, 'runs': 1500, 'partials': 200, 'total_groups': 700}


def grouped(ctx, n_groups=None):
    tree = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 2, 3]), max_children=3)
    tw = Twin(ctx, tree)
    ctx.note('tree', tree.describe())
    tw.set_units()
    groups = [GROUPS[int(i)] for i in ctx.rng.permutation(len(GROUPS))[:n_groups or ctx.int(1, 4)]]
    todo = [g for g in groups for _ in range(ctx.int(1, 3))] + [None] * ctx.int(0, 3)
    for i in ctx.rng.permutation(len(todo)):
        tw.append(group=todo[i])
    tw.complete()
    ctx.count('total_groups', len(groups))
    return tw, groups


def staged(ctx):
    tw, groups = grouped(ctx)
    if ctx.chance(0.4):
        tw.add_partial()
    total = tw.utilities()
    tw.check('one-shot')
    for g in groups:
        tw.check(f'group {g!r} alone', group=g)
        ctx.count('group_runs')
    left = list(groups)
    sub_mask = None
    while left:
        g = left.pop(ctx.int(0, len(left) - 1))
        tw.preval(g, cleanup_scope=ctx.chance(0.6), n_threads=ctx.pick([None, 1, 2]))
        ctx.count('prevals')
        want = total if sub_mask is None else total[sub_mask]
        ctx.equal(tw.utilities(), want, 'reference after preval', 1e-12)
        tw.check(f'after preval of {g!r}')
        ctx.raises(KeyError, lambda: tw.model.run_stochastic(group=g, clear_scope=False), 'run of a dropped group')
        for h in left[:1]:
            tw.check(f'group {h!r} after preval of {g!r}', group=h)
            ctx.count('group_runs')
        k = ctx.pick(['', '', 'copy', 'subset', 'partial', 'precision'])
        if k == 'copy':
            old, tw = tw, tw.copy('copy')
            old.model.expressions.clear()
            old.model.clear_scope()
        elif k == 'subset' and sub_mask is None:
            sub_mask = ctx.rng.random(tw.n) < 0.6
            sub_mask[0] = True
            tw = tw.copy_subset('subset', sub_mask)
        elif k == 'partial':
            before = tw.partial.copy()
            tw.add_partial()
            with np.errstate(invalid='ignore'):
                added = np.where(np.isfinite(before), tw.partial - before, 0)
            if sub_mask is None:
                total = total + added
            else:
                total = total.copy()
                total[sub_mask] += added
            ctx.count('partials')
        elif k == 'precision':
            tw.set_precision()
    if not any(e for e in tw.exprs):
        tw.append()
        tw.complete()
    tw.check('with all groups pre-evaluated')
    tw.check('once more')
    tw.check_inputs()
    ctx.sig(ctx.trace)


def segments(ctx):
    """The documented way: common expressions are pre-evaluated, copies get the data of their segments"""
    tw, groups = grouped(ctx, 1)
    g = groups[0]
    mine = sorted({s for e in tw.exprs if e.group == g for s in e.uses})
    tw.preval(g)
    ctx.count('prevals')
    members = []
    for k in range(ctx.int(2, 4)):
        members.append(tw.copy(f's{k}', scope_assigned=ctx.chance(0.5)) if ctx.chance(0.5) else tw.copy_subset(f's{k}'))
        ctx.count('segments')
    for m in members:
        for s in sorted(m.scope):
            m.assign(s)
        if ctx.chance(0.5):
            m.append()
        m.complete()
    for t in ctx.rng.permutation(len(members)):
        members[t].check('segment')
    if ctx.chance(0.5):
        for m in members:
            step(ctx, m)
        for m in members + [tw]:
            m.check('segments at the end')
    ctx.sig(ctx.trace, mine)


def flags(ctx):
    """Groups and symbols are kept or dropped as demanded"""
    tw, groups = grouped(ctx)
    g = ctx.pick(groups)
    drop, clean = ctx.chance(0.5), ctx.chance(0.5)
    mine = {s for e in tw.exprs if e.group == g for s in e.uses}
    others = {s for e in tw.exprs if e.group != g for s in e.uses}
    tw.preval(g, drop_group=drop, cleanup_scope=clean)
    ctx.count('prevals')
    for s in sorted(mine | others):
        if clean and s not in others:
            ctx.raises(KeyError, lambda: tw.model[s], f'symbol `{s}`, which only the pre-evaluated group uses')
        else:
            ctx.check(tw.model[s].filled, f'symbol `{s}` has lost its data')
    tw.check('after preval')
    if not drop:  # The group is still there, so its expressions count once more
        tw.complete()
        tw.check('with the group which was kept')
        tw.check('the group which was kept', group=g)
        ctx.count('group_runs')
    # Using the name again starts a new group
    e = tw.expression()
    tw.append(e, group=g)
    tw.complete()
    tw.check('with a new expression in the group')
    tw.check('with a new expression in the group', group=g)
    tw.preval(g)
    ctx.count('prevals')
    tw.check('after a second preval')
    ctx.sig(ctx.trace)


def partial_or_matrix(ctx):
    """Partial utilities are equivalent to matrices that are used in an expression"""
    a, groups = grouped(ctx)
    m = a.model
    b = m.copy()
    rows, cols = ctx.rng.permutation(a.n), ctx.rng.permutation(a.c)
    if not a.units.is_unique:
        rows = np.arange(a.n)
    else:
        rows = rows[:ctx.int(1, a.n)]
    cols = cols[:ctx.int(1, a.c)]
    v = a.dyadic((len(rows), len(cols)))
    frame = pd.DataFrame(v, index=a.units[rows], columns=m.choices[cols])
    k = ctx.int(1, 2)
    for _ in range(k):
        m.add_partial_utilities(frame, reindex_rows=True)
    b.declare_matrix('the_matrix')
    b['the_matrix'].assign(frame)
    b.expressions.append('the_matrix' if k == 1 else '2 * the_matrix')
    kw = dict(clear_scope=False, check_infeasible=False, scale_utilities=ctx.chance(0.5))
    for s, t, name in zip(m.run_stochastic(**kw), b.run_stochastic(**kw), ('probabilities', 'logsums', 'terms')):
        ctx.equal(s.to_numpy(), t.to_numpy(), f'{name} from partial utilities, and from a matrix', 1e-5 if a.tol == 4 else 1e-11)
    ctx.count('partials')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('staged', staged, 900, 8000),
    Scenario('segments', segments, 120, 2000),
    Scenario('flags', flags, 200, 4000),
    Scenario('partial_or_matrix', partial_or_matrix, 120, 2000),
]
