"""The choices of a model, and the order and labels of all results, are those of the tree as it was built"""
import numpy as np
import pandas as pd

from rtm.core import Scenario, Skip
from rtm.models import NAMES, Tree, check_utilities, gen_any_tree, gen_tree, gen_units, logit_reference

SHARDS = {'py': 8}
QUICK = 3
RULE = ('A case is a random history of adding and replacing choices at all levels (in interleaved orders; with names that are '
        'prefixes of others, or repeat in several nests), applied to a model and to a reference of the tree. The choices, their '
        'order and labels, the elemental choices, the depth and the properties of the nodes are compared after each step, and '
        'so are the labels and values of all results. Distinct by history.')
ASSUMPTIONS = ['a replaced choice moves to the end of the order, without its former descendants']
MINIMUM = {'trees_compared': 1500, 'replaced': 400, 'replaced_nests': 100, 'runs': 600, 'labels_compared': 15000, 'invalid_choices': 250}


class Live:
    """A reference of the tree, by path. Insertion-ordered"""

    def __init__(self):
        self.theta, self.handles = {}, {}

    def put(self, path, theta, handle):
        replaced = path in self.theta
        gone = [p for p in self.theta if p[:len(path)] == path]
        for p in gone:
            del self.theta[p], self.handles[p]
        self.theta[path], self.handles[path] = theta, handle
        return replaced, len(gone) > 1

    def children(self, path):
        return [p for p in self.theta if len(p) == len(path) + 1 and p[:-1] == path]

    @property
    def depth(self):
        return max(map(len, self.theta))

    def valid(self):
        return len(self.children(())) >= 2 and all(len(self.children(p)) != 1 for p in self.theta)

    def tree(self):
        t, pos = Tree(), {(): -1}
        # Parents can come after their descendants, only if these would be replaced too
        for p, theta in self.theta.items():
            pos[p] = t.add(p[-1], theta, pos[p[:-1]])
        t.handles = {pos[p]: h for p, h in self.handles.items()}
        return t


def label(path, depth):
    return path[0] if depth == 1 else path + ('.',) * (depth - len(path))


def compare(ctx, m, live, what):
    from cheval.exceptions import ModelNotReadyError
    depth = live.depth
    ctx.check(m.depth == depth, f'{what}: depth {m.depth} instead of {depth}')
    for p, h in live.handles.items():
        kids = live.children(p)
        ctx.check(h.name == p[-1] and h.full_name == '.'.join(p), f'{what}: node {p} is called {h.name}, {h.full_name}')
        ctx.check(h.logsum_scale == live.theta[p], f'{what}: scale of {p} is {h.logsum_scale} instead of {live.theta[p]}')
        ctx.check(h.level == len(p), f'{what}: level of {p} is {h.level}')
        ctx.check(h.is_parent == bool(kids) and h.n_children == len(kids),
                  f'{what}: {p} has {h.n_children} children instead of {kids}')
        ctx.check(sorted(c.full_name for c in h.children()) == sorted('.'.join(k) for k in kids),
                  f'{what}: children of {p} are {[c.full_name for c in h.children()]} instead of {kids}')
        ctx.check(all(any(c is live.handles[k] for k in kids) for c in h.children()),
                  f'{what}: the children of {p} are not those which were added last')
        deepest = max(len(q) for q in live.theta if q[:len(p)] == p)
        ctx.check(h.max_level() == deepest, f'{what}: the deepest level below {p} is {h.max_level()} instead of {deepest}')
        up = live.handles.get(p[:-1])
        ctx.check(h.parent is up, f'{what}: the parent of {p} is {h.parent}')
    if not live.valid():
        ctx.raises(ModelNotReadyError, lambda: m.choices, f'{what}: choices of an invalid tree')
        return
    want = [label(p, depth) for p in live.theta]
    ctx.labels(m.choices, want, f'{what}: choices')
    ctx.check(m.choices.nlevels == depth, f'{what}: choices have {m.choices.nlevels} levels')
    leaves = [label(p, depth) for p in live.theta if not live.children(p)]
    ctx.labels(m.elemental_choices, leaves, f'{what}: elemental choices')
    ctx.count('trees_compared')
    ctx.count('labels_compared', len(want) + len(leaves))


def run(ctx, m, live, what, units=None):
    """Results are labelled, ordered and valued by the tree"""
    tree = live.tree()
    units = units if units is not None else gen_units(ctx, ctx.int(1, 4))
    n = len(units)
    m.decision_units = units
    U = ctx.reals((n, tree.n), 2)
    m.declare_matrix('mm')
    cols = ctx.rng.permutation(tree.n)
    m['mm'].assign(pd.DataFrame(U[:, cols], index=units, columns=m.choices[cols]))
    m.expressions.clear()
    m.expressions.append('mm')
    check_utilities(ctx, m, tree, U, f'{what}: utilities')
    scale = ctx.chance(0.7)
    P, top, terms = m.run_stochastic(clear_scope=False, scale_utilities=scale)
    rp, rt, rterms = logit_reference(tree, U, scale)
    depth = tree.depth
    leaves = [tree.label(i) for i in tree.leaves]
    ctx.labels(P.columns, leaves, f'{what}: columns of the probabilities')
    ctx.labels(terms.columns, tree.labels(), f'{what}: columns of the terms')
    for r, name in ((P, 'probabilities'), (top, 'logsums'), (terms, 'terms')):
        ctx.check(r.index.equals(units), f'{what}: {name} have index {r.index[:5]!r} instead of {units[:5]!r}')
    ctx.equal(P.to_numpy(), rp, f'{what}: probabilities', 1e-9)
    ctx.equal(top.to_numpy(), rt, f'{what}: logsums', 1e-9)
    ctx.equal(terms.to_numpy(), rterms, f'{what}: terms', 1e-9)
    seed, draws = ctx.int(1, 999), ctx.int(1, 4)
    kw = dict(random_seed=seed, n_draws=draws, squeeze=False, clear_scope=False, scale_utilities=scale)
    pos, _ = m.run_discrete(astype='index', **kw)
    cat, _ = m.run_discrete(astype=ctx.pick(['category', object]), **kw)
    want = np.empty(pos.shape, dtype=object)
    for idx, i in np.ndenumerate(pos.to_numpy()):
        ctx.check(0 <= i < tree.n and not tree.nodes[i].children, f'{what}: drew position {i}, which is not an elemental choice')
        want[idx] = tree.label(int(i))
    for j in range(draws):
        ctx.labels(cat.iloc[:, j], want[:, j], f'{what}: labels of draws {j}')
        ctx.labels(cat.index, units, f'{what}: index of draws')
    ctx.count('runs')
    ctx.count('labels_compared', want.size)


def histories(ctx):
    from cheval import ChoiceModel
    m = ChoiceModel()
    live = Live()
    names = [str(s) for s in ctx.rng.permutation(NAMES + ['a', 'ab', 'abc', 'a_', 'a1', 'a10', 'aa', '__', 'a b', 'é'])][:ctx.int(3, 8)]
    names += ctx.pick([[], ['a', 'ab', 'abc', 'a_b']])
    max_depth = ctx.pick([1, 2, 2, 3, 4])
    for _ in range(ctx.int(4, 14)):
        parents = [()] * (1 + len(live.theta) // 3) + [p for p in live.theta if len(p) < max_depth]
        parent = ctx.pick(parents)
        name, theta = ctx.pick(names), ctx.pick([1.0, 0.5, 0.25, 0.75])
        k = ctx.pick(['one', 'one', 'one', 'several', 'scale'])
        if k == 'scale' and live.theta:
            p = ctx.pick(list(live.theta))
            live.handles[p].logsum_scale = theta
            live.theta[p] = theta
            ctx.note('scale', p, theta)
        elif k == 'several' and parent == ():
            batch = [str(s) for s in ctx.rng.permutation(names)[:ctx.int(1, 3)]]
            got = m.add_choices(batch) if theta == 1.0 else m.add_choices(batch, [theta] * len(batch))
            ctx.note('add', batch, theta)
            for b in batch:
                r, nest = live.put((b,), theta, got[b])
                ctx.count('replaced', r)
                ctx.count('replaced_nests', nest)
        else:
            args = (name,) if theta == 1.0 else (name, theta)
            h = m.add_choice(*args) if parent == () else live.handles[parent].add_choice(*args)
            ctx.note('add', parent + (name,), theta)
            r, nest = live.put(parent + (name,), theta, h)
            ctx.count('replaced', r)
            ctx.count('replaced_nests', nest)
        if live.theta:
            compare(ctx, m, live, 'after ' + ctx.trace[-1])
            if live.valid() and ctx.chance(0.3):
                run(ctx, m, live, 'after ' + ctx.trace[-1])
    if live.theta and live.valid():
        run(ctx, m, live, 'at the end')
        c = m.copy()
        ctx.labels(c.choices, m.choices, 'choices of a copy')
        ctx.labels(c.elemental_choices, m.elemental_choices, 'elemental choices of a copy')
    ctx.sig(ctx.trace)


def complete_trees(ctx):
    """Large and deep trees"""
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.8, max_depth=ctx.pick([2, 3, 4, 5]), max_children=ctx.pick([2, 3, 5]))
    m = ChoiceModel(precision=ctx.pick([8, 8]))
    tree.build(m, ctx.rng)
    live = Live()
    for i, nd in enumerate(tree.nodes):
        live.put(nd.path, nd.theta, tree.handles[i])
    compare(ctx, m, live, 'complete tree')
    run(ctx, m, live, 'complete tree')
    for _ in range(2):  # Replaces a nest, by a new one
        nests = [p for p in live.theta if live.children(p)]
        if not nests:
            break
        p = ctx.pick(nests)
        theta = ctx.pick([1.0, 0.5])
        h = m.add_choice(p[0], theta) if len(p) == 1 else live.handles[p[:-1]].add_choice(p[-1], theta)
        live.put(p, theta, h)
        ctx.count('replaced')
        ctx.count('replaced_nests')
        compare(ctx, m, live, f'after replacing {p}')
        if live.valid():
            run(ctx, m, live, f'after replacing {p}')
        kids = [str(s) for s in ctx.rng.permutation(NAMES)[:ctx.int(2, 3)]]
        for k in kids:
            live.put(p + (k,), 0.5, h.add_choice(k, 0.5))
        compare(ctx, m, live, f'after extending {p}')
        run(ctx, m, live, f'after extending {p}')
    ctx.note(tree.describe())
    ctx.sig(tree.describe())


def invalid(ctx):
    """Invalid names and scales are refused, and the tree stays as it was"""
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.6, max_depth=3, max_children=3)
    m = ChoiceModel()
    tree.build(m, ctx.rng)
    live = Live()
    for i, nd in enumerate(tree.nodes):
        live.put(nd.path, nd.theta, tree.handles[i])
    for _ in range(3):
        p = ctx.pick(list(live.theta))
        target = ctx.pick([m, live.handles[p]])
        args = ctx.pick([('a.b', 1.0), ('_', 1.0), ('.', 1.0), ('new', 0.0), ('new', -0.5), ('new', 1.0001), ('new', 2),
                         ('new', float('nan')), ('new', float('inf')), ('x.', 0.5)])
        if ctx.chance(0.4):  # The name of an existing choice, which would have been replaced
            target = m if len(p) == 1 else live.handles[p[:-1]]
            args = (p[-1], ctx.pick([0.0, -1.0, 1.5, float('nan')]))
        ctx.note('add', p, args)
        ctx.raises(Exception, lambda: target.add_choice(*args), f'add_choice{args}')
        ctx.count('invalid_choices')
        compare(ctx, m, live, f'after the rejected add_choice{args}')
        bad = ctx.pick([0.0, -1, 1.5, float('nan')])
        ctx.raises(Exception, lambda: setattr(live.handles[p], 'logsum_scale', bad), f'logsum_scale = {bad}')
        compare(ctx, m, live, f'after the rejected scale {bad}')
    run(ctx, m, live, 'after rejected choices')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('histories', histories, 500, 10000),
    Scenario('complete_trees', complete_trees, 200, 4000),
    Scenario('invalid', invalid, 120, 2000),
]
