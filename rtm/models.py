"""Generators of choice models, and an independent reference for the logit formulas"""
import numpy as np
import pandas as pd

NAMES = ['car', 'bus', 'walk', 'bike', 'rail', 'a', 'b', 'c', 'x', 'y', 'z', 'A', 'alt_1', 'alt_10', 'B2', 'drive_alone',
         'n1', 'n2', 'n3', 'k_', '_q', 'Zone', 'taxi', 'moto', 'ferry', 'tram', 'hov2', 'hov3', 'park_ride', 'school_bus']


class Node:
    def __init__(self, path, theta, parent):
        self.path, self.theta, self.parent = path, theta, parent  # parent: index in Tree.nodes, -1 for roots
        self.children = []


class Tree:
    """A tree of choices, in the order in which they get added to the model"""

    def __init__(self):
        self.nodes = []
        self.handles = {}

    @property
    def n(self):
        return len(self.nodes)

    @property
    def depth(self):
        return max(len(nd.path) for nd in self.nodes)

    @property
    def leaves(self):
        return [i for i, nd in enumerate(self.nodes) if not nd.children]

    def add(self, name, theta, parent=-1):
        path = (name,) if parent < 0 else self.nodes[parent].path + (name,)
        self.nodes.append(Node(path, theta, parent))
        if parent >= 0:
            self.nodes[parent].children.append(len(self.nodes) - 1)
        return len(self.nodes) - 1

    def label(self, i):
        path = self.nodes[i].path
        d = self.depth
        return path[0] if d == 1 else path + ('.',) * (d - len(path))

    def labels(self, idx=None):
        return [self.label(i) for i in (range(self.n) if idx is None else idx)]

    def dotted(self, i):
        return '.'.join(self.nodes[i].path)

    def index(self):
        if self.depth == 1:
            return pd.Index(self.labels())
        return pd.MultiIndex.from_tuples(self.labels())

    def build(self, model, rng=None):
        """Adds the choices to a model. Returns node handles by position"""
        handles = {}
        late = rng is not None and rng.random() < 0.15  # The scale is assigned to the nodes later on
        i = 0
        while i < self.n:
            nd = self.nodes[i]
            if nd.parent >= 0:
                if late or nd.theta == 1.0:
                    handles[i] = handles[nd.parent].add_choice(nd.path[-1])
                    handles[i].logsum_scale = nd.theta
                else:
                    handles[i] = handles[nd.parent].add_choice(nd.path[-1], nd.theta)
                i += 1
                continue
            j = i  # A run of top-level choices can be added at once
            while j < self.n and self.nodes[j].parent < 0:
                j += 1
            run = list(range(i, j))
            how = 0 if rng is None else int(rng.integers(4))
            if how == 0 or len(run) == 1:
                for k in run:
                    handles[k] = model.add_choice(self.nodes[k].path[0], self.nodes[k].theta)
            else:
                names, thetas = [self.nodes[k].path[0] for k in run], [self.nodes[k].theta for k in run]
                if how == 2 and all(t == 1.0 for t in thetas):
                    got = model.add_choices(iter(names))
                elif how == 3:
                    got = model.add_choices((n for n in names), (t for t in thetas))
                else:
                    got = model.add_choices(names, thetas)
                for k in run:
                    handles[k] = got[self.nodes[k].path[0]]
            i = j
        self.handles = handles
        return handles

    def describe(self):
        return [(self.dotted(i), nd.theta) for i, nd in enumerate(self.nodes)]


def gen_mnl(ctx, n=None):
    t = Tree()
    n = n or ctx.pick([2, 2, 3, 4, 5, 8, 13])
    for k in range(n):
        t.add(NAMES[k] if n <= len(NAMES) and ctx.case % 2 else f'c{k}', 1.0)
    return t


def gen_tree(ctx, max_depth=None, max_children=4, n_roots=None):
    """A nested tree: every nest has at least two children. The order of insertion is shuffled, as far as it is possible"""
    max_depth = max_depth or ctx.pick([2, 2, 2, 3, 3, 4, 5])
    spec = []  # (key, parent key, name, theta)

    def grow(parent, depth, prefix):
        k = ctx.int(2, max_children) if parent is not None else (n_roots or ctx.int(2, max_children))
        names = list(ctx.rng.permutation(NAMES)[:k])
        for j, nm in enumerate(names):
            nm = str(nm)
            key = prefix + (nm,)
            theta = ctx.pick([1.0, 0.5, 0.25, 0.75, 0.9, 0.3, 0.625])
            spec.append((key, parent, nm, theta))
            limit = 1.0 if depth == 1 and j == 0 and max_depth > 1 else (0.45 if depth == 1 else 0.35)
            if depth < max_depth and len(spec) < 40 and ctx.chance(limit):
                grow(key, depth + 1, key)

    grow(None, 1, ())
    # Random topological order. Nodes either follow their parent closely (depth-first) or get interleaved
    style = ctx.pick(['dfs', 'bfs', 'random'])
    if style == 'bfs':
        spec.sort(key=lambda s: len(s[0]))
    elif style == 'random':
        placed, rest, order = {None}, list(spec), []
        while rest:
            ready = [s for s in rest if s[1] in placed]
            s = ready[ctx.int(0, len(ready) - 1)]
            rest.remove(s)
            order.append(s)
            placed.add(s[0])
        spec = order
    t, pos = Tree(), {None: -1}
    for key, parent, nm, theta in spec:
        pos[key] = t.add(nm, theta, pos[parent])
    return t


def gen_any_tree(ctx, p_nested=0.6, **kw):
    return gen_tree(ctx, **kw) if ctx.chance(p_nested) else gen_mnl(ctx)


def gen_units(ctx, n, unique=True):
    """An index of decision units"""
    kind = ctx.pick(['range', 'ints', 'str', 'multi', 'named', 'date', 'float', 'offset'] + ([] if unique else ['dup'] * 4))
    if kind == 'range':
        ix = pd.RangeIndex(n)
    elif kind == 'offset':
        ix = pd.RangeIndex(100, 100 + 3 * n, 3)
    elif kind == 'ints':
        ix = pd.Index(ctx.rng.permutation(n * 3)[:n].astype(int))
    elif kind == 'str':
        ix = pd.Index([f'u{v}' for v in ctx.rng.permutation(n * 2)[:n]])
    elif kind == 'named':
        ix = pd.Index(ctx.rng.permutation(n * 3)[:n].astype(int), name='unit')
    elif kind == 'date':
        ix = pd.DatetimeIndex(pd.Timestamp('2020-01-01') + pd.to_timedelta(ctx.rng.permutation(n * 2)[:n], unit='D'))
    elif kind == 'float':
        ix = pd.Index(ctx.rng.permutation(n * 3)[:n] / 4.0)
    elif kind == 'dup':
        ix = pd.Index(ctx.rng.integers(0, max(1, n // 2 + 1), n))
    else:
        m = max(1, int(np.ceil(np.sqrt(n))))
        full = [(o, f'd{d}') for o in range(m + 1) for d in range(m + 1)]
        order = ctx.rng.permutation(len(full))[:n]
        ix = pd.MultiIndex.from_tuples([full[i] for i in order], names=['o', 'd'])
    return ix


def logit_reference(tree, U, scale_utilities=True):
    """Probabilities of the leaves [n_units x n_leaves], total [n_units] and terms of all nodes [n_units x n_nodes], by
    recursion over the tree, in extended precision"""
    U = np.asarray(U, dtype=np.longdouble)
    n = U.shape[0]
    terms, sums = [None] * tree.n, [None] * tree.n

    def term(i):
        nd = tree.nodes[i]
        v = U[:, i]
        if nd.children:
            s = np.zeros(n, dtype=np.longdouble)
            for c in nd.children:
                s = s + term(c)
            sums[i] = s
            with np.errstate(divide='ignore'):
                v = v + np.longdouble(nd.theta) * np.log(s)
        if nd.parent >= 0 and scale_utilities:
            v = v / np.longdouble(tree.nodes[nd.parent].theta)
        with np.errstate(over='ignore', invalid='ignore'):
            terms[i] = np.exp(v)
        return terms[i]

    top = np.zeros(n, dtype=np.longdouble)
    for i, nd in enumerate(tree.nodes):
        if nd.parent < 0:
            top = top + term(i)

    probs = [None] * tree.n

    def prob(i):
        if probs[i] is None:
            nd = tree.nodes[i]
            if nd.parent < 0:
                num, den, up = terms[i], top, np.ones(n, dtype=np.longdouble)
            else:
                num, den, up = terms[i], sums[nd.parent], prob(nd.parent)
            with np.errstate(all='ignore'):
                cond = np.where(den > 0, num / np.where(den > 0, den, 1), 0)
            probs[i] = cond * up
        return probs[i]

    P = np.stack([prob(i) for i in tree.leaves], axis=1)
    return P.astype(float), top.astype(float), np.stack(terms, axis=1).astype(float)


def utilities_of(model, tree, **kw):
    """The total utility of each (unit, choice), observed through the outputs of a run of a multinomial model"""
    assert tree.depth == 1
    _, _, terms = model.run_stochastic(clear_scope=False, check_infeasible=False, **kw)
    with np.errstate(divide='ignore'):
        return np.log(terms.to_numpy(dtype=float))


def supply(ctx, model, tree, units, U, prefix='mat'):
    """Gives the model the utilities U through one of several public ways, which are all supposed to be equivalent"""
    how = ctx.pick(['matrix', 'matrix_T', 'matrix_parts', 'partial', 'partial_shuffled', 'mixed', 'vectors'])
    cols = model.choices
    n, c = U.shape
    frame = pd.DataFrame(U, index=units, columns=cols)
    if how == 'vectors' and (n > 30 or c > 12):
        how = 'matrix'
    if how == 'matrix':
        model.declare_matrix(prefix)
        model[prefix].assign(frame)
        model.expressions.append(prefix)
    elif how == 'matrix_T':
        model.declare_matrix(prefix, orientation=1)
        model[prefix].assign(frame.T)
        model.expressions.append(prefix)
    elif how == 'matrix_parts':
        k = ctx.int(1, c - 1)
        order = ctx.rng.permutation(c)
        for j, part in enumerate((order[:k], order[k:])):
            name = f'{prefix}{j}'
            model.declare_matrix(name)
            model[name].assign(frame.iloc[:, part])
            model.expressions.append(name)
    elif how == 'partial':
        model.add_partial_utilities(frame)
    elif how == 'partial_shuffled':
        k = ctx.int(1, n)
        if units.is_unique:
            r, q = ctx.rng.permutation(n), ctx.rng.permutation(c)
            model.add_partial_utilities(frame.iloc[r[:k], q], reindex_rows=True)
            if k < n:
                model.add_partial_utilities(frame.iloc[r[k:], q], reindex_rows=True)
        else:
            model.add_partial_utilities(frame)
    elif how == 'mixed':
        half = np.where(np.isfinite(U), np.floor(np.where(np.isfinite(U), U, 0) * 4) / 8, 0)
        model.add_partial_utilities(pd.DataFrame(half, index=units, columns=cols))
        model.declare_matrix(prefix)
        model[prefix].assign(pd.DataFrame(U - half, index=units, columns=cols))
        model.expressions.append(prefix)
    elif how == 'vectors':
        for i in range(c):
            name = f'{prefix}{i}'
            model.declare_vector(name, 0)
            model[name].assign(frame.iloc[:, i] if ctx.chance(0.5) else U[:, i].copy())
            model.expressions.append(f'{name} @ {tree.dotted(i)}')
    return how


def observed_utilities(model, tree, **kw):
    """The total utility of each (unit, choice), including nests, from the outputs of a run. NaN where it is not observable
    (nests without any available alternative)"""
    _, _, terms = model.run_stochastic(clear_scope=False, check_infeasible=False, scale_utilities=False, **kw)
    T = terms.to_numpy(dtype=float)
    with np.errstate(divide='ignore', invalid='ignore'):
        U = np.log(T)
        for i, nd in enumerate(tree.nodes):
            if nd.children:
                s = T[:, nd.children].sum(axis=1)
                U[:, i] = np.where(s > 0, U[:, i] - nd.theta * np.log(s), np.nan)
    return U


def check_utilities(ctx, model, tree, U, what, precision=8, **kw):
    """Runs the model, and compares its utilities with the expected ones"""
    got = observed_utilities(model, tree, **kw)
    want = np.array(U, dtype=float)
    ctx.check(got.shape == want.shape, f'{what}: utilities of shape {got.shape} instead of {want.shape}')
    hidden = np.isnan(got) & ~np.isnan(want)
    for i, nd in enumerate(tree.nodes):  # Only nests can be unobservable, and only if nothing is available in them
        if nd.children:
            dead = np.isneginf(np.where(hidden[:, nd.children], -np.inf, got[:, nd.children])).all(axis=1)
            hidden[:, i] &= dead
        else:
            hidden[:, i] = False
    want[hidden] = np.nan
    tol = 1e-8 if precision == 8 else 2e-4
    with np.errstate(invalid='ignore'):
        ok = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= tol * np.maximum(1, np.abs(want)))
    ctx.count('assertions')
    ctx.count('utilities_compared', want.size - hidden.sum())
    if not ok.all():
        bad = np.argwhere(~ok)
        i, j = bad[0]
        ctx.fail(f'{what}: {len(bad)} of {want.size} utilities differ; first for unit {model.decision_units[i]!r}, choice '
                 f'{tree.dotted(j)}: got {got[i, j]!r}, expected {want[i, j]!r}')
    return got
