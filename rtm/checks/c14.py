"""A model says that it is not ready exactly if something is missing"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import NAMES, Tree, gen_any_tree
from rtm.shadow import GROUPS, Twin

SHARDS = {'py': 8}
QUICK = 3
RULE = ('A case is a model under construction: choices, nests, decision units, declarations, assignments and expressions get '
        'added in random order, or are taken from a complete model one at a time. After each step, every entry point '
        '(validation of each of the parts, runs of the model and of its groups, pre-evaluation, partial utilities) has to raise '
        'the dedicated error exactly if something that it needs is missing. Distinct by history.')
ASSUMPTIONS = ['the parts that are checked along with others (e.g. assignments, but not declarations) are not specified']
MINIMUM = {'not_ready': 3000, 'ready': 1500, 'tree_not_ready': 300, 'unit_not_ready': 300, 'symbol_not_ready': 500, 'group_decisions': 500}


def decide(ctx, what, fn, ready, kind='not_ready'):
    """The call raises the error if something is missing, and succeeds otherwise"""
    from cheval.exceptions import ModelNotReadyError
    if ready is None:
        return
    if ready:
        ctx.count('ready')
        ctx.count('assertions')
        try:
            fn()
        except ModelNotReadyError as e:
            ctx.fail(f'{what}: nothing is missing, but it raised: {e}')
    else:
        ctx.count('not_ready')
        ctx.count(kind)
        ctx.raises(ModelNotReadyError, fn, what)


def judge(ctx, tw, what):
    m = tw.model
    tree, units = tw.tree_ready() if tw.tree.n else False, tw.units is not None
    undeclared = any(s not in tw.scope for e in tw.exprs for s in e.uses)
    decide(ctx, f'{what}: validation of the tree', lambda: m.validate(decision_units=False, expressions=False, assignment=False),
           tree, 'tree_not_ready')
    decide(ctx, f'{what}: validation of the units', lambda: m.validate(tree=False, expressions=False, assignment=False), units,
           'unit_not_ready')
    decide(ctx, f'{what}: validation of the declarations', lambda: m.validate(tree=False, decision_units=False, assignment=False),
           not undeclared, 'symbol_not_ready')
    missing = tw.missing()
    decide(ctx, f'{what}: validation of the assignments', lambda: m.validate(tree=False, decision_units=False),
           None if missing is None else not missing, 'symbol_not_ready')
    decide(ctx, f'{what}: validation of nothing', lambda: m.validate(tree=False, decision_units=False, expressions=False,
                                                                    assignment=False), True)
    decide(ctx, f'{what}: choices', lambda: m.choices, tree)
    decide(ctx, f'{what}: units', lambda: m.decision_units, units)
    ready = None if tree and units and missing is None else tree and units and not missing
    decide(ctx, f'{what}: validation', lambda: m.validate(), ready)
    if ready:
        tw.check(what)
        if np.isfinite(tw.utilities()).all():
            decide(ctx, f'{what}: discrete run', lambda: m.run_discrete(clear_scope=False, random_seed=3), ready)
    elif ready is not None:
        decide(ctx, f'{what}: stochastic run', lambda: m.run_stochastic(clear_scope=ctx.chance(0.5)), ready)
        decide(ctx, f'{what}: discrete run', lambda: m.run_discrete(clear_scope=ctx.chance(0.5)), ready)
    for g in tw.groups():
        mg = tw.missing(g)
        rg = None if tree and units and mg is None else tree and units and not mg
        ctx.count('group_decisions')
        decide(ctx, f'{what}: validation of group {g!r}', lambda: m.validate(group=g), rg)
        decide(ctx, f'{what}: run of group {g!r}',
               lambda: m.run_stochastic(group=g, clear_scope=False, check_infeasible=False), rg)
        if not rg and rg is not None:
            decide(ctx, f'{what}: preval of group {g!r}', lambda: m.preval(g), rg)
    if tree and units:
        if tw.tree.n < 6:
            tw.add_partial()
    else:
        from cheval.exceptions import ModelNotReadyError
        ctx.raises(ModelNotReadyError, lambda: m.add_partial_utilities(pd.DataFrame({'a': [1.0]})), f'{what}: partial utilities')


def construction(ctx):
    """Everything gets added in random order"""
    full = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 3]), max_children=3)
    tree = Tree()
    tw = Twin(ctx, tree)
    ctx.note('tree', full.describe())
    # The texts of the expressions need to know about the final tree
    final = Twin(ctx, full, model=tw.model)
    todo = ['choice'] * full.n + ['units'] + [('expr', ctx.pick([None, None, GROUPS[0], GROUPS[4]])) for _ in range(ctx.int(1, 4))]
    order = ctx.rng.permutation(len(todo))
    pos, handles, j = {}, {}, 0
    judged = 0
    judge(ctx, tw, 'empty model')
    for i in order:
        k = todo[i]
        if k == 'choice':
            nd = full.nodes[j]
            if nd.parent < 0:
                handles[j] = tw.model.add_choice(nd.path[0], nd.theta)
            else:
                handles[j] = handles[nd.parent].add_choice(nd.path[-1], nd.theta)
            tree.add(nd.path[-1], nd.theta, nd.parent)
            tw.partial = tw.partial_units = None
            for s in tw.scope.values():
                if s.kind != 'number' and (s.o == 1 or s.kind == 'matrix'):
                    s.value = None  # Data which does not fit any more
            tw.scope = {s: v for s, v in tw.scope.items() if v.kind == 'number' or (v.kind != 'matrix' and v.o == 0)}
            tw.model.clear_scope()
            tw.scope = {}
            j += 1
        elif k == 'units':
            tw.set_units()
        else:
            tw.append(final.expression(), group=k[1])
        if ctx.chance(0.4) and judged < 5:
            judged += 1
            if j < full.n:
                tw2 = tw.exprs
                if any('{' in e.text or '@' in e.text for e in tw2):
                    continue  # Their targets might not exist yet
            if j == 0:
                judge(ctx, tw, 'without choices')
                continue
            judge(ctx, tw, f'{j} of {full.n} choices')
            if tw.tree_ready() and tw.units is not None and ctx.chance(0.5):
                tw.complete()
                judge(ctx, tw, f'{j} of {full.n} choices, complete')
    tw.tree = full
    judge(ctx, tw, 'all but symbols')
    names = sorted({s for e in tw.exprs for s in e.uses})
    for s in [names[i] for i in ctx.rng.permutation(len(names))]:
        if s not in tw.scope:
            tw.declare(s)
            judge(ctx, tw, f'{s} declared')
        tw.assign(s)
        judge(ctx, tw, f'{s} assigned')
    ctx.check(tw.ready(), 'the reference is not ready')
    ctx.sig(ctx.trace)


def removal(ctx):
    """One thing is missing from a complete model"""
    tree = gen_any_tree(ctx, 0.5, max_depth=3, max_children=3)
    tw = Twin(ctx, tree)
    tw.set_units()
    for _ in range(ctx.int(1, 4)):
        tw.append(group=ctx.pick([None, None, 'g', 'h']))
    tw.complete()
    judge(ctx, tw, 'complete')
    for _ in range(3):
        k = ctx.pick(['redeclare', 'empty', 'units', 'clear', 'other_expr'])
        used = sorted({s for e in tw.exprs for s in e.uses})
        ctx.note('remove:', k)
        if k == 'redeclare' and used:
            tw.declare(ctx.pick(used))
        elif k == 'empty' and used:
            s = ctx.pick(used)
            tw.model[s].empty()
            tw.scope[s].value, tw.scope[s].unsure = None, False
        elif k == 'units':
            tw.set_units()
        elif k == 'clear':
            tw.clear_scope()
        else:
            tw.append(group=ctx.pick([None, 'g', 'h']))
        judge(ctx, tw, f'after {k}')
        tw.complete()
        judge(ctx, tw, f'completed after {k}')
    ctx.sig(ctx.trace)


def lonely(ctx):
    """Nests with a single child, at any level, and models with a single choice"""
    tree = gen_any_tree(ctx, 0.7, max_depth=ctx.pick([2, 3, 4]), max_children=3)
    tw = Twin(ctx, tree)
    tw.set_units()
    tw.complete()
    tw.exprs = []
    leaf = ctx.pick(tree.leaves)
    judge(ctx, tw, 'complete')
    tw.add_choice(leaf, ctx.pick([1.0, 0.5]))
    tw.partial = tw.partial_units = None
    judge(ctx, tw, 'a nest has a single child')
    tw.add_choice(leaf)
    tw.partial = tw.partial_units = None
    judge(ctx, tw, 'the nest has two children')
    single = Tree()
    ts = Twin(ctx, single, precision=8)
    single.add('only', 1.0)
    single.handles[0] = ts.model.add_choice('only')
    ts.set_units()
    judge(ctx, ts, 'a single choice')
    for i in range(2):
        ts.add_choice(0)
        judge(ctx, ts, f'a single nest with {i + 1} children')
    ts.add_choice(-1)
    ts.partial = ts.partial_units = None
    judge(ctx, ts, 'two top-level choices')
    ctx.sig(ctx.trace)


def assignments(ctx):
    """Data that is aligned with the units cannot be assigned without units, and neither data for choices without choices"""
    from cheval import ChoiceModel
    from cheval.exceptions import ModelNotReadyError
    m = ChoiceModel()
    n = ctx.int(1, 4)
    with_tree = ctx.chance(0.5)
    if with_tree:
        m.add_choices(['a', 'b', 'c'])
    m.declare_vector('x', 0)
    m.declare_table('t', 0)
    m.declare_matrix('mm')
    m.declare_number('b')
    m.declare_vector('w', 1)
    m['b'].assign(2)
    data = {'x': np.ones(n), 't': pd.DataFrame({'a': np.ones(n)}), 'mm': pd.DataFrame(np.ones((n, 3)), columns=['a', 'b', 'c'])}
    for s in sorted(data):
        ctx.raises(ModelNotReadyError, lambda: m[s].assign(data[s]), f'assignment of `{s}` without decision units')
        ctx.count('not_ready')
    if not with_tree:
        ctx.raises(ModelNotReadyError, lambda: m['w'].assign(np.ones(3)), 'assignment to choices without choices')
        m.add_choices(['a', 'b', 'c'])
    m['w'].assign(np.ones(3))
    m.decision_units = range(n)
    for s in sorted(data):
        m[s].assign(data[s])
    m['w'].assign(np.ones(3))
    m.expressions.append('x + t.a + mm + w + b')
    _, ls, _ = m.run_stochastic()
    ctx.equal(ls.to_numpy(), np.full(n, 3 * np.exp(6.0)), 'logsums')
    ctx.sig(n, with_tree, ctx.case)


SCENARIOS = [
    Scenario('construction', construction, 350, 6000),
    Scenario('removal', removal, 250, 5000),
    Scenario('lonely', lonely, 150, 2000),
    Scenario('assignments', assignments, 30, 200),
]
