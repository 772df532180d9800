"""Expressions restricted to a choice, and values listed per choice, reach exactly the named choices of the tree"""
import numpy as np
import pandas as pd

from rtm.checks.c07 import build
from rtm.core import Scenario
from rtm.models import Tree, check_utilities, gen_mnl, gen_tree, gen_units

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random tree (up to 5 levels; names repeat across nests; siblings are added in interleaved orders) with '
        'expressions that are restricted to single choices or nests, and with values listed per choice, where keys name '
        'a node, or all nodes below one (`A._`). The expected columns follow from the tree alone. Distinct by tree and '
        'expressions.')
ASSUMPTIONS = ['the key of a nest stands for the nest alone, and the key with a trailing underscore for everything below it',
               'if several keys of a literal cover the same choice, the last one counts']
MINIMUM = {'keys': 4000, 'partial_keys': 500, 'filters': 1200, 'nested': 400, 'utilities_compared': 40000,
           'unknown_targets': 60}


def below(tree, i):
    return [j for j, nd in enumerate(tree.nodes) if nd.path[:len(tree.nodes[i].path)] == tree.nodes[i].path and j != i]


def literal(ctx, tree):
    keys = {tree.dotted(i): [i] for i in range(tree.n)}
    partial = {}
    if tree.depth > 1:
        for i, nd in enumerate(tree.nodes):
            if nd.children:
                partial[tree.dotted(i) + '._'] = below(tree, i)
    k = ctx.int(1, min(tree.n, 6))
    picked = [str(s) for s in ctx.rng.permutation(list(keys))[:k]]
    if partial:
        picked += [str(s) for s in ctx.rng.permutation(list(partial))[:ctx.pick([0, 1, 1, 2])]]
        picked = [str(s) for s in ctx.rng.permutation(picked)] if ctx.chance(0.5) else sorted(picked, key=lambda s: '_' not in s.split('.'))
    value, items = np.zeros(tree.n), []
    for s in picked:
        v = ctx.pick([1, 2, -1, 0.5, -0.25, 3.75, 10, -7, 0])
        cols = partial[s] if s in partial else keys[s]
        value[cols] = v
        ctx.count('partial_keys', s in partial)
        ctx.count('keys')
        items.append(f"'{s}': {v}" if '.' not in s and ctx.chance(0.3) else f'{s}: {v}')
    return '{' + ', '.join(items) + '}', value


def addressing(ctx):
    nested = ctx.chance(0.75)
    tree = gen_tree(ctx, max_depth=ctx.pick([2, 2, 3, 3, 4, 5]), max_children=ctx.pick([2, 3, 4])) if nested else gen_mnl(ctx)
    n = ctx.pick([1, 2, 4])
    m, units = build(ctx, tree, n)
    x = ctx.reals(n, 2)
    w = ctx.reals(tree.n, 2)
    m.declare_vector('x', 0)
    m.declare_vector('w', 1)
    m.declare_number('b')
    m['x'].assign(x)
    m['w'].assign(pd.Series(w, index=m.choices))
    m['b'].assign(0.5)
    M = ctx.reals((n, tree.n), 2)
    m.declare_matrix('mm')
    m['mm'].assign(pd.DataFrame(M, index=units, columns=m.choices))
    U = np.zeros((n, tree.n))
    for _ in range(ctx.int(1, 6)):
        k = ctx.pick(['literal', 'literal', 'literal*x', 'filter', 'filter', 'filter_literal', 'literal_two', 'filter_w'])
        if k == 'literal':
            text, v = literal(ctx, tree)
            v = np.broadcast_to(v, (n, tree.n))
        elif k == 'literal*x':
            text, v = literal(ctx, tree)
            text, v = ctx.pick([f'{text} * x', f'x * {text}']), x[:, None] * v
        elif k == 'literal_two':
            t1, v1 = literal(ctx, tree)
            t2, v2 = literal(ctx, tree)
            text, v = f'{t1} + b * {t2} * w', np.broadcast_to(v1 + 0.5 * v2 * w, (n, tree.n))
        else:
            j = ctx.int(0, tree.n - 1)
            v = np.zeros((n, tree.n))
            ctx.count('filters')
            if k == 'filter':
                body, full = ctx.pick([('x', x[:, None] * np.ones(tree.n)), ('1.5', np.full((n, tree.n), 1.5)), ('mm', M),
                                       ('b * x', 0.5 * x[:, None] * np.ones(tree.n)), ('mm - x', M - x[:, None])])
            elif k == 'filter_literal':
                body, lit = literal(ctx, tree)
                full = np.broadcast_to(lit, (n, tree.n))
            else:
                body, full = 'w + x', w + x[:, None]
            v[:, j] = full[:, j]
            text = f'{body} @ {tree.dotted(j)}'
        ctx.note('append', text)
        m.expressions.append(text)
        U = U + v
    check_utilities(ctx, m, tree, U, 'utilities')
    ctx.note(f'tree={tree.describe()}')
    ctx.sig(tree.describe(), [t for t in m.expressions.tolist()])
    ctx.count('nested' if nested else 'flat')


def equivalent(ctx):
    """`e @ choice` is the same as `{choice: 1} * e`"""
    tree = gen_tree(ctx, max_depth=3) if ctx.chance(0.7) else gen_mnl(ctx)
    n = ctx.pick([1, 3])
    m, units = build(ctx, tree, n)
    m.declare_matrix('mm')
    m['mm'].assign(pd.DataFrame(ctx.dyadic((n, tree.n), 2), index=units, columns=m.choices))
    other = m.copy()
    for j in ctx.rng.permutation(tree.n)[:4]:
        name = tree.dotted(j)
        m.expressions.append(f'mm * 2 - 1 @ {name}')
        other.expressions.append('{%s: 1} * (mm * 2 - 1)' % name)
        ctx.count('filters')
        ctx.count('keys')
    a, b = m.run_stochastic(clear_scope=False), other.run_stochastic(clear_scope=False)
    for s, t in zip(a, b):
        ctx.equal(s.to_numpy(), t.to_numpy(), 'restricted expression compared to a literal with one key', 1e-12)
    ctx.note(tree.describe())
    ctx.sig(tree.describe())


def unknown(ctx):
    """Names which are not in the tree are rejected instead of being ignored"""
    tree = gen_tree(ctx, max_depth=ctx.pick([2, 3])) if ctx.chance(0.7) else gen_mnl(ctx)
    n = ctx.pick([1, 3])
    m, units = build(ctx, tree, n)
    m.declare_vector('x', 0)
    m['x'].assign(np.ones(n))
    paths = {nd.path for nd in tree.nodes}
    candidates = [('nowhere',), ('Nowhere_', ), (tree.nodes[0].path[0] + 'x',), (tree.nodes[0].path[0].upper() + '1',)]
    if tree.depth > 1:
        for i in tree.leaves:
            if len(tree.nodes[i].path) > 1:
                candidates += [tree.nodes[i].path[1:], tree.nodes[i].path[:1] + ('nowhere',), tree.nodes[i].path[::-1]]
    bad = ctx.pick([c for c in candidates if c not in paths])
    bad = '.'.join(bad)
    text = ctx.pick(['x @ %s', '{%s: 1}', 'x * {%s: 2.5}', '1 @ %s']) % bad
    m.expressions.append('x')
    ctx.note(tree.describe(), text)
    ctx.sig(tree.describe(), text)
    ctx.count('unknown_targets')
    before = m.copy()
    m.expressions.append(text)
    ctx.raises(Exception, lambda: m.run_stochastic(clear_scope=False), f'run with `{text}`')
    check_utilities(ctx, before, tree, np.ones((n, tree.n)), 'utilities of the copy without the rejected expression')


SCENARIOS = [
    Scenario('addressing', addressing, 2000, 40000),
    Scenario('equivalent', equivalent, 100, 2000),
    Scenario('unknown', unknown, 100, 1500),
]
