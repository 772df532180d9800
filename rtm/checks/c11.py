"""Copies and subsets of models are independent of their origin, and equivalent to it"""
import numpy as np
import pandas as pd

from rtm.checks.c10 import setup, step
from rtm.core import Scenario
from rtm.shadow import GROUPS, Twin

SHARDS = {'py': 8}
RULE = ('A case is a population of models which are made from one random model by copying (with all combinations of the flags) '
        'and by taking subsets of the decision units. Random operations get applied to random members, each of which has a '
        'reference of its own; after each operation all members are judged against their references. A further scenario '
        'compares subsets with the rows of the full model, exactly. Distinct by history.')
ASSUMPTIONS = ['the nodes of the tree are shared by copies, so the tree is not changed after copying',
               'data which was assigned to symbols is not changed in-place by the caller']
MINIMUM = {'copies': 800, 'subsets': 400, 'runs': 5000, 'not_ready': 300, 'rows_compared': 1500}


def populations(ctx):
    first = setup(ctx, ready=ctx.chance(0.8))
    if ctx.chance(0.3) and first.groups() and first.ready():
        first.preval(ctx.pick(first.groups()), drop_group=ctx.chance(0.7), cleanup_scope=ctx.chance(0.7))
    members = [first]
    ctx.note('tree', first.tree.describe())
    first.shared_tree = True
    for _ in range(ctx.int(4, 10)):
        tw = ctx.pick(members)
        if len(members) < 5 and ctx.chance(0.55):
            name = f'm{len(members)}'
            if tw.units is not None and tw.tree_ready() and ctx.chance(0.4):
                members.append(tw.copy_subset(name))
                ctx.count('subsets')
            else:
                kw = {f: False for f in ('decision_units', 'scope_declared', 'scope_assigned', 'expressions', 'utilities')
                      if ctx.chance(0.2)}
                members.append(tw.copy(name, **kw))
                ctx.count('copies')
        elif tw.units is None:
            if ctx.chance(0.7):
                other = next((t.units for t in members if t.units is not None), None)
                tw.set_units(other.copy() if other is not None and ctx.chance(0.5) else None)
        else:
            step(ctx, tw)
        what = 'after ' + ctx.trace[-1][:80]
        for t in members:
            t.check(what)
            if t.groups() and ctx.chance(0.15):
                g = ctx.pick(t.groups())
                t.check(f'{what}, group {g!r}', group=g)
    for t in ctx.rng.permutation(len(members)):
        members[t].complete()
        members[t].check('at the end')
    for t in members:
        t.check('at the very end')
    first.check_inputs()
    ctx.sig(ctx.trace)


def same_unit(a, b):
    return a is b or a == b


def subsets(ctx):
    """The results for a subset of the units are the rows of the results for all of them"""
    tw = setup(ctx)
    U = tw.utilities()
    if tw.n < 2 or not tw.units.is_unique:
        tw.set_units(n=ctx.int(2, 12))
        tw.complete()
        if ctx.chance(0.5):
            tw.add_partial()
    if ctx.chance(0.3) and tw.units.is_unique:
        tw.model.debug_id = tw.units[-1]  # Which the subset keeps, so it needs to have that unit as well
    kw = dict(clear_scope=False, check_infeasible=False, scale_utilities=ctx.chance(0.5))
    whole = tw.model.run_stochastic(**kw)
    keep = [r.copy(deep=True) for r in whole]
    mask = ctx.rng.random(tw.n) < ctx.pick([0.2, 0.5, 0.8])
    mask[-1] = True
    sub = tw.copy_subset('sub', mask)
    twice = None
    ctx.check(same_unit(sub.model.debug_id, tw.model.debug_id), f'debugged unit of a subset: {sub.model.debug_id!r}')
    parts = sub.model.run_stochastic(**kw)
    for w, p, name in zip(keep, parts, ('probabilities', 'logsums', 'terms')):
        ctx.labels(p.index, tw.units[mask], f'{name} of the subset')
        ctx.equal(p.to_numpy(), w.to_numpy()[mask], f'{name} of the subset', 1e-12)
        ctx.count('rows_compared', len(p))
    m2 = mask.copy()
    m2[:-1] &= ctx.rng.random(tw.n - 1) < 0.6
    twice = sub.copy_subset('sub2', m2[mask])
    for w, p, name in zip(keep, twice.model.run_stochastic(**kw), ('probabilities', 'logsums', 'terms')):
        ctx.equal(p.to_numpy(), w.to_numpy()[m2], f'{name} of the subset of a subset', 1e-12)
        ctx.count('rows_compared', len(p))
    for w, p, name in zip(keep, tw.model.run_stochastic(**kw), ('probabilities', 'logsums', 'terms')):
        ctx.equal(p.to_numpy(), w.to_numpy(), f'{name} of the full model, after taking subsets', 0, 0)
    everything = tw.copy_subset('all', np.ones(tw.n, dtype=bool))
    for w, p, name in zip(keep, everything.model.run_stochastic(**kw), ('probabilities', 'logsums', 'terms')):
        ctx.equal(p.to_numpy(), w.to_numpy(), f'{name} of a subset with all units', 1e-12)
    ctx.count('subsets', 3)
    # Masks of other units are refused
    other = pd.Series(True, index=list(range(90000, 90000 + tw.n + 1)))
    ctx.raises(Exception, lambda: tw.model.copy_subset(other), 'mask of other units')
    ctx.sig(ctx.trace)


def seeds(ctx):
    """Draws of a copy are the same as those of its origin"""
    tw = setup(ctx)
    if not np.isfinite(tw.utilities()).all():
        return
    tw.model.debug_id = tw.units[0] if ctx.chance(0.3) and tw.units.is_unique else None
    new = tw.copy('copy')
    ctx.check(same_unit(new.model.debug_id, tw.model.debug_id), f'debugged unit of a copy: {new.model.debug_id!r}')
    ctx.check(new.model.precision == tw.precision, f'precision of a copy: {new.model.precision}')
    kw = dict(random_seed=ctx.int(1, 9999), n_draws=ctx.int(1, 5), astype='index', squeeze=False, clear_scope=False)
    a, la = tw.model.run_discrete(**kw)
    b, lb = new.model.run_discrete(**kw)
    ctx.equal(a.to_numpy(), b.to_numpy(), 'draws of a copy', 0, 0)
    ctx.equal(la.to_numpy(), lb.to_numpy(), 'logsums of a copy', 0, 0)
    ctx.labels(a.index, b.index, 'draws of a copy')
    ctx.count('copies')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('populations', populations, 800, 12000),
    Scenario('subsets', subsets, 300, 5000),
    Scenario('seeds', seeds, 100, 2000),
]
