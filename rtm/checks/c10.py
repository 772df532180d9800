"""Running a model does not change it: histories of operations and runs give what the current contents of the model stand for"""
import numpy as np
import pandas as pd

from rtm.core import Scenario, same_frame
from rtm.models import gen_any_tree
from rtm.shadow import GROUPS, Twin

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a random history of operations (declarations, assignments, expressions in groups, partial utilities, changes '
        'of the decision units, of precision and of the tree, discrete and stochastic runs with and without clearing the scope, '
        'and failing operations) which is applied to a model and to a reference of its contents. After each step the model '
        'has to be as ready as its reference, and its utilities have to be those of the reference. Distinct by history.')
ASSUMPTIONS = ['whether choice-oriented symbols keep their data when the decision units change is not specified']
MINIMUM = {'runs': 3000, 'not_ready': 150, 'repeated': 200, 'failures': 150, 'failed_runs': 60, 'utilities_compared': 40000, 'unit_changes': 200,
           'scope_clears': 100}


def setup(ctx, n_expr=None, groups=True, ready=True, **kw):
    tree = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 2, 3]), max_children=3)
    tw = Twin(ctx, tree, **kw)
    tw.set_units()
    for _ in range(n_expr or ctx.int(1, 4)):
        tw.append(group=ctx.pick([None, None, GROUPS[0], GROUPS[4]]) if groups and ctx.chance(0.5) else None)
    if ctx.chance(0.4):
        tw.add_partial()
    if ready:
        tw.complete()
    return tw


def histories(ctx):
    tw = setup(ctx, ready=False)
    ctx.note('tree', tw.tree.describe())
    for _ in range(ctx.int(6, 16)):
        step(ctx, tw)
        if ctx.chance(0.75):
            tw.check('after ' + ctx.trace[-1][:80], n_threads=ctx.pick([1, 1, 2]))
            if tw.groups() and ctx.chance(0.3):
                g = ctx.pick(tw.groups())
                tw.check(f'group {g!r}', group=g)
    tw.complete()
    tw.check('at the end')
    tw.check_inputs()
    ctx.sig(ctx.trace)


def step(ctx, tw):
    ops = ['assign', 'assign', 'declare', 'append', 'append_group', 'partial', 'units', 'precision', 'complete', 'complete',
           'clear_scope', 'run', 'run', 'fail', 'validate', 'choice', 'drop', 'expr_clear', 'symbol_empty']
    k = ctx.pick(ops)
    if k == 'assign':
        if tw.scope:
            tw.assign(ctx.pick(sorted(tw.scope)))
    elif k == 'declare':
        tw.declare()
    elif k == 'append':
        tw.append()
    elif k == 'append_group':
        tw.append(group=ctx.pick(GROUPS))
    elif k == 'partial':
        if tw.tree_ready():
            tw.add_partial()
    elif k == 'units':
        how = ctx.pick(['same', 'order', 'some', 'new', 'new']) if tw.units is not None else 'new'
        units = None
        if how == 'same':
            units = tw.units.copy()
        elif how == 'order':  # The same ones in another order
            units = tw.units[::-1] if ctx.chance(0.5) else tw.units[ctx.rng.permutation(tw.n)]
        elif how == 'some':
            units = tw.units[sorted(ctx.rng.permutation(tw.n)[:ctx.int(1, tw.n)])]
        tw.set_units(units)
        ctx.count('unit_changes')
        ctx.count(f'units_{how}')
    elif k == 'precision':
        tw.set_precision()
    elif k == 'complete':
        if tw.tree_ready():
            tw.complete()
    elif k == 'clear_scope':
        tw.clear_scope()
    elif k == 'run':
        mutating_run(ctx, tw)
    elif k == 'fail':
        failing(ctx, tw)
    elif k == 'validate':
        if tw.ready():
            tw.model.validate()
    elif k == 'choice':
        if not tw.shared_tree and ctx.chance(0.5) and tw.tree_ready():
            grow_tree(ctx, tw)
    elif k == 'drop':
        if tw.groups():
            tw.drop_group(ctx.pick(tw.groups()))
    elif k == 'expr_clear':
        if ctx.chance(0.3):
            tw.note('expressions.clear')
            tw.model.expressions.clear()
            tw.exprs = []
            tw.append()
    elif k == 'symbol_empty':
        if tw.scope:
            name = ctx.pick(sorted(tw.scope))
            tw.note('empty', name)
            tw.model[name].empty()
            tw.scope[name].value, tw.scope[name].unsure = None, False


def grow_tree(ctx, tw):
    """Adds a choice, after which cached utilities and the data of choice-oriented symbols do not fit any more"""
    parents = [-1] + [i for i, nd in enumerate(tw.tree.nodes) if nd.children]
    depth = tw.tree.depth
    tw.add_choice(ctx.pick(parents), ctx.pick([1.0, 0.5]))
    if ctx.chance(0.3) and depth < 4 and (depth > 1 or not any('{' in e.text or '@' in e.text for e in tw.exprs)):
        leaf = ctx.pick(tw.tree.leaves)  # Becomes a nest
        tw.add_choice(leaf)
        tw.add_choice(leaf, 0.5)
    tw.partial = tw.partial_units = None
    # Expressions stand for columns of the previous tree, so these get replaced too
    tw.note('expressions.clear')
    tw.model.expressions.clear()
    tw.exprs = []
    tw.clear_scope()
    for _ in range(ctx.int(1, 3)):
        tw.append()


def mutating_run(ctx, tw):
    clear = ctx.chance(0.5)
    how = ctx.pick(['stochastic', 'discrete'])
    group = ctx.pick(tw.groups()) if how == 'stochastic' and tw.groups() and ctx.chance(0.4) else None
    if not tw.ready(group):
        return
    tw.note('run', how, 'clear_scope', clear, 'group', repr(group))
    kw = {} if clear and ctx.chance(0.5) else {'clear_scope': clear}
    if group is not None:
        kw['group'] = group
        ctx.count('group_runs')
    try:
        if how == 'stochastic':
            result = tw.model.run_stochastic(check_infeasible=False, **kw)
        else:
            feasible = np.isfinite(tw.utilities(group)).all()
            if not feasible:
                return
            result = tw.model.run_discrete(random_seed=ctx.int(0, 1000), n_draws=ctx.pick([1, 3]),
                                           astype=ctx.pick(['category', 'index', object]), **kw)
    except Exception:
        tw.ctx.note('the run failed')
        raise
    spoil(ctx, result)
    if clear:
        tw.scope = {}
        ctx.count('scope_clears')
        for name in ('x', 't', 'b0'):
            ctx.raises(KeyError, lambda: tw.model[name], 'symbol after its scope was cleared')


def spoil(ctx, result):
    """What was returned belongs to the caller, who can change it"""
    for r in result:
        if isinstance(r, (pd.DataFrame, pd.Series)) and len(r) and all(t.kind in 'fi' for t in np.atleast_1d(r.dtypes)):
            if isinstance(r, pd.DataFrame):
                r.iloc[:, :] = -77
                r.values[...] = 13
            else:
                r.iloc[:] = -77
    ctx.count('spoiled_results')


def failing(ctx, tw):
    """Operations which fail have no effect"""
    m = tw.model
    k = ctx.pick(['syntax', 'mixed', 'partial_rows', 'partial_cols', 'vector', 'table', 'matrix', 'group', 'seed_draws', 'nan', 'nan', 'runtime', 'runtime',
                  'precision'])
    tw.note('fails:', k)
    n_before = len(m.expressions.tolist())
    ok = tw.tree_ready()
    if k == 'syntax':
        ctx.raises(Exception, lambda: m.expressions.append(ctx.pick(['x ++', 'x + [1, 2]', 'x[0]', 'x @ a @ b', 'nofunc(x)', 'x if x else 1', '{a: x}'])), k)
    elif k == 'mixed':
        if not any('x' in e.uses for e in tw.exprs) or not any('t' in e.uses for e in tw.exprs):
            return
        ctx.raises(Exception, lambda: m.expressions.append('x.a + b1'), k)
    elif k == 'partial_rows' and ok:
        frame = pd.DataFrame(1.0, index=['no_such_unit'], columns=m.choices)
        ctx.raises(KeyError, lambda: m.add_partial_utilities(frame), k)
    elif k == 'partial_cols' and ok:
        frame = pd.DataFrame(1.0, index=tw.units, columns=m.choices[1:])
        ctx.raises(KeyError, lambda: m.add_partial_utilities(frame, reindex_columns=False), k)
    elif k in ('vector', 'table', 'matrix') and ok:
        names = [s for s, v in tw.scope.items() if v.kind == k]
        if not names:
            return
        s = ctx.pick(names)
        if k == 'vector':
            ctx.raises(Exception, lambda: m[s].assign(np.ones(max(tw.n, tw.c) + 1)), k)
        elif k == 'table':
            ctx.raises(Exception, lambda: m[s].assign(pd.DataFrame({a: [1.0] for a in 'abxm'}, index=['no_such_label'])), k)
        else:
            frame = pd.DataFrame(1.0, index=['no_such_unit'], columns=m.choices)
            ctx.raises(Exception, lambda: m[s].assign(frame.T if tw.scope[s].o else frame), k)
    elif k == 'group':
        ctx.raises(KeyError, lambda: m.run_stochastic(group='no such group', clear_scope=False), k)
        ctx.raises(KeyError, lambda: m.preval('no such group'), k)
    elif k == 'seed_draws' and tw.ready():
        ctx.raises(ValueError, lambda: m.run_discrete(n_draws=0, clear_scope=False), k)
    elif k == 'precision':
        kept, bad = m.precision, ctx.pick([2, 16, 0, -8, 6])

        def change():
            m.precision = bad
        ctx.raises(ValueError, change, f'precision of {bad} bytes')
        ctx.check(m.precision == kept, f'the precision became {m.precision} when {bad} was refused')
    elif k == 'runtime' and tw.tree_ready() and tw.units is not None:
        # A group whose evaluation fails
        text = ctx.pick(['1 << 2.5', 'abs(1, 2)', '"text"', '1 + "text"', 'exp()'])
        m.expressions.append(text, group='failing')
        kw = ctx.pick([{}, {}, {'clear_scope': False}])
        ctx.raises(Exception, lambda: m.run_stochastic(group='failing', **kw), f'run of `{text}` {kw}')
        if tw.ready():
            ctx.raises(Exception, lambda: ctx.pick([m.run_stochastic, m.run_discrete])(**kw), f'run of `{text}` {kw}')
        m.expressions.drop_group('failing')
        ctx.count('failed_runs')
    elif k == 'nan' and tw.ready():
        names = [s for e in tw.exprs for s in e.uses if s in tw.scope and tw.scope[s].kind == 'vector' and tw.scope[s].o == 0]
        if not names:
            return
        s = ctx.pick(sorted(names))
        m[s].assign(np.full(tw.n, np.nan))
        with np.errstate(all='ignore'):
            old, tw.scope[s].value = tw.scope[s].value, np.full((tw.n, 1), np.nan)
            bad = np.isnan(tw.utilities()).any()
            tw.scope[s].value = old
        if bad:
            kw = ctx.pick([{}, {}, {'clear_scope': False}])  # Nothing is cleared unless the run succeeds
            ctx.raises(Exception, lambda: m.run_stochastic(**kw), f'run with NaN utilities {kw}')
            ctx.raises(Exception, lambda: m.run_discrete(**kw), f'discrete run with NaN utilities {kw}')
            ctx.count('failed_runs')
        tw.assign(s)
    ctx.check(len(m.expressions.tolist()) == n_before, f'{k}: the failed operation changed the number of expressions')
    ctx.count('failures')


def repeated(ctx):
    """Runs of an unchanged model are identical, whatever was run in between"""
    tw = setup(ctx)
    m = tw.model
    tw.check('first')
    kw = dict(clear_scope=False, check_infeasible=False)
    first = m.run_stochastic(**kw)
    keep = [r.copy(deep=True) for r in first]
    finite = np.isfinite(tw.utilities()).all()
    draws = m.run_discrete(random_seed=5, n_draws=4, clear_scope=False, astype='index') if finite else None
    keep_draws = [d.copy(deep=True) for d in draws] if finite else None
    for _ in range(ctx.int(2, 5)):
        k = ctx.pick(['stochastic', 'discrete', 'group', 'precision', 'validate', 'copy', 'scale', 'choices', 'spoil'])
        ctx.note('in between:', k)
        if k == 'stochastic':
            m.run_stochastic(n_threads=ctx.pick([1, 2, 4]), **kw)
        elif k == 'discrete' and finite:
            m.run_discrete(random_seed=ctx.int(0, 99), clear_scope=False, astype=ctx.pick([object, 'category', 'index']))
        elif k == 'group' and tw.groups():
            m.run_stochastic(group=ctx.pick(tw.groups()), **kw)
        elif k == 'precision':
            p = m.precision
            if p == 8 and tw.fine and tw.partial is not None:
                continue  # Partial utilities are stored with the precision of the model, and get rounded
            m.precision = 12 - p
            m.run_stochastic(**kw)
            m.precision = p
        elif k == 'validate':
            m.validate()
        elif k == 'copy':
            other = m.copy()
            other.run_stochastic(check_infeasible=False)
            other.clear_scope()
            other.expressions.clear()
        elif k == 'scale':
            m.run_stochastic(scale_utilities=False, **kw)
        elif k == 'choices':
            m.choices, m.elemental_choices, m.depth
        elif k == 'spoil':
            spoil(ctx, m.run_stochastic(**kw))
        again = m.run_stochastic(**kw)
        for a, b, name in zip(again, keep, ('probabilities', 'logsums', 'terms')):
            same_frame(ctx, a, b, f'{name} of a repeated run')
        if finite:
            for a, b in zip(m.run_discrete(random_seed=5, n_draws=4, clear_scope=False, astype='index'), keep_draws):
                same_frame(ctx, a, b, 'repeated draws')
        ctx.count('repeated')
    for a, b in zip(first, keep):
        same_frame(ctx, a, b, 'results that were returned earlier')
    ctx.sig(ctx.trace)


def tree_changes(ctx):
    """A tree that changes between runs"""
    tw = setup(ctx)
    tw.check('before')
    for _ in range(ctx.int(1, 3)):
        grow_tree(ctx, tw)
        if not tw.tree_ready():
            return
        tw.complete()
        tw.check('after adding choices')
        if ctx.chance(0.5):
            tw.add_partial()
            tw.check('with partial utilities for the new tree')
        ctx.count('tree_changes')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('histories', histories, 1500, 30000),
    Scenario('repeated', repeated, 300, 3000),
    Scenario('tree_changes', tree_changes, 200, 3000),
]
