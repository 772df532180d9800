"""Data of the caller is never changed, and what was returned is the caller's own"""
import numpy as np
import pandas as pd

from rtm.checks import c07, l04
from rtm.core import Scenario, same_frame, same_object
from rtm.exprs import Gen
from rtm.frames import access
from rtm.models import gen_any_tree, gen_mnl

SHARDS = {'py': 8}
RULE = ('A case is a random model (data of all types, as arrays in varying memory layouts, series, tables with links and matrices '
        'with exactly or partially matching labels; partial utilities) or a set of linked tables, and a random sequence of '
        'operations, including failing ones. Exact copies of everything that was passed are compared after each operation, '
        'everything returned is overwritten, and repeated operations have to return exactly the same. Distinct by history.')
ASSUMPTIONS = ['whether changes which the caller makes to assigned data affect later runs is not specified',
               'tables are meant to be changed by link_to() and by assignments to their columns, which are no violations']
MINIMUM = {'snapshots': 100000, 'operations': 8000, 'overwritten': 5000, 'repeated': 2500, 'failures': 200, 'values_compared': 12000,
           'with_links': 400}


class Vault:
    """Exact copies of the caller's objects"""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, []

    def keep(self, obj, name):
        if not any(obj is o for o, _, _ in self.items) and not isinstance(obj, (int, float, bool, str, bytes, type(None), np.generic)):
            self.items.append((obj, self.copy(obj), name))
        return obj

    def copy(self, obj):
        if isinstance(obj, (pd.DataFrame, pd.Series)):
            c = (pd.DataFrame(obj) if isinstance(obj, pd.DataFrame) else obj).copy(deep=True)
            return c
        if isinstance(obj, pd.Index):
            return obj.copy(deep=True)
        if isinstance(obj, np.ndarray):
            return obj.copy(order='K'), obj.strides, obj.flags.writeable
        if isinstance(obj, dict):
            return {k: (v, self.copy(v)) for k, v in obj.items()}, list(obj)
        if isinstance(obj, (list, tuple)):
            return [(v, self.copy(v)) for v in obj]
        if isinstance(obj, (set, frozenset)):
            return set(obj)
        return obj

    def verify(self, obj, kept, what):
        ctx = self.ctx
        if isinstance(obj, pd.DataFrame):
            same_frame(ctx, pd.DataFrame(obj), kept, what)
        elif isinstance(obj, (pd.Series, pd.Index)):
            same_frame(ctx, obj, kept, what)
            if isinstance(obj, pd.Series):
                ctx.check(same_object(obj.name, kept.name), f'{what}: name changed from {kept.name!r} to {obj.name!r}')
        elif isinstance(obj, np.ndarray):
            kept, strides, writeable = kept
            same_frame(ctx, obj, kept, what)
            ctx.check(obj.strides == strides and obj.flags.writeable == writeable, f'{what}: memory layout changed')
        elif isinstance(obj, dict):
            kept, order = kept
            ctx.check(list(obj) == order, f'{what}: keys changed from {order} to {list(obj)}')
            for k, (v, c) in kept.items():
                ctx.check(obj[k] is v, f'{what}: item {k!r} was replaced by {obj[k]!r}')
                self.verify(v, c, f'{what}[{k!r}]')
        elif isinstance(obj, (list, tuple)):
            ctx.check(len(obj) == len(kept) and all(a is b for a, (b, _) in zip(obj, kept)),
                      f'{what}: items changed from {[b for b, _ in kept]} to {list(obj)}'[:500])
            for v, c in kept:
                self.verify(v, c, what)
        else:
            ctx.check(obj == kept, f'{what}: changed from {kept!r} to {obj!r}'[:500])

    def check(self, when):
        for obj, kept, name in self.items:
            self.verify(obj, kept, f'{name} {when}')
        self.ctx.count('snapshots', len(self.items))
        self.ctx.count('operations')


def parts(result):
    return result if isinstance(result, tuple) else (result,)


def freeze(result):
    """A copy of a result which is to be compared with later ones"""
    return [r.copy(deep=True) for r in parts(result)]


def arrays_of(obj):
    """The memory of an object of the caller, where this is accessible"""
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, pd.Series):
        v = obj.values
        if isinstance(v, pd.Categorical):
            v = v.codes.view()
        return [v if isinstance(v, np.ndarray) else getattr(v, '_data', np.zeros(0))]
    if isinstance(obj, pd.DataFrame):
        return [a for i in range(obj.shape[1]) for a in arrays_of(pd.DataFrame.iloc.fget(obj)[:, i])]
    if isinstance(obj, dict):
        return [a for v in obj.values() for a in arrays_of(v)]
    return []


def separate(ctx, result, vault, what):
    """Results don't share memory with inputs"""
    mine = [(name, a) for o, _, name in vault.items for a in arrays_of(o)]
    for r in parts(result):
        for a in arrays_of(r):
            for name, b in mine:
                ctx.count('assertions')
                if a.size and b.size and np.may_share_memory(a, b) and np.shares_memory(a, b):
                    ctx.fail(f'{what}: the result shares memory with {name}')


def overwrite(ctx, result):
    """Changes the values of everything that was returned, in place"""
    for r in parts(result):
        if not len(r):
            continue
        for a in arrays_of(r):
            if a.flags.writeable:
                a[...] = -1 if a.dtype.kind == 'i' else (77 if a.dtype.kind in 'uf' else a[::-1].copy() if a.ndim else a)
        if isinstance(r, pd.DataFrame):
            for i in range(r.shape[1]):
                dtype = pd.DataFrame.iloc.fget(r)[:, i].dtype
                if isinstance(dtype, np.dtype) and dtype.kind in 'if':
                    pd.DataFrame.iloc.fget(r)[:, i] = np.full(len(r), -77, dtype=dtype)
            if all(isinstance(t, np.dtype) and t.kind in 'if' for t in r.dtypes) and r.values.flags.writeable:
                r.values[...] = 13
        elif isinstance(r.dtype, np.dtype) and r.dtype.kind in 'if':
            r.iloc[:] = -77
        ctx.count('overwritten')


def identical(ctx, result, first, what):
    for i, (a, b) in enumerate(zip(parts(result), first)):
        same_frame(ctx, a, b, f'{what} (item {i})')
    ctx.count('repeated')


# region Models

def full_symbols(ctx, scope, tree, texts):
    """Data with exactly matching labels and types, for which it would be possible not to make a copy"""
    n, c = scope.n, scope.c
    m = scope.model
    for k in ctx.rng.permutation(['matrix', 'matrix_T', 'vector', 'vector1', 'series', 'frame'])[:ctx.int(1, 4)]:
        name = f'full_{k}'
        v = ctx.dyadic((n, c), 2).astype(ctx.pick(['f8', 'f8', 'f4']))
        order = ctx.pick('CF')
        if k == 'matrix':
            m.declare_matrix(name)
            data = pd.DataFrame(np.array(v, order=order), index=scope.units, columns=m.choices)
            texts.append(name)
        elif k == 'matrix_T':
            m.declare_matrix(name, orientation=1)
            data = pd.DataFrame(np.array(v.T, order=order), index=m.choices, columns=scope.units)
            texts.append(name)
        elif k == 'vector':
            m.declare_vector(name, 0)
            big = np.zeros((n, 3), dtype=v.dtype)  # Also not contiguous
            big[:, 1] = v[:, 0]
            data = big[:, 1] if order == 'F' else v[:, 0].copy()
            texts.append(ctx.pick([name, f'{name} * 2', f'where({name} > 0, 1, 0)']))
        elif k == 'vector1':
            m.declare_vector(name, 1)
            data = v[0].copy()
            texts.append(name)
        elif k == 'series':
            m.declare_vector(name, 0)
            data = pd.Series(v[:, 0].copy(), index=scope.units, name=ctx.pick([None, 'the name']))
            texts.append(name)
        else:
            m.declare_table(name, 0)
            data = pd.DataFrame({'a': v[:, 0], 'b': v[:, 1]}, index=scope.units)
            texts.append(ctx.pick([f'{name}.a', f'{name}.a * {name}.b']))
        scope.assigned[name] = data
        scope.assign(name)


def models(ctx):
    from cheval import ChoiceModel
    vault = Vault(ctx)
    tree = gen_any_tree(ctx, 0.4, max_depth=2, max_children=3)
    n = ctx.pick([1, 2, 4, 7])
    m = ChoiceModel(precision=ctx.pick([8, 8, 4]))
    if tree.depth == 1 and ctx.chance(0.5):
        names, scales = [nd.path[0] for nd in tree.nodes], [1.0] * tree.n
        vault.keep(names, 'names of choices')
        if ctx.chance(0.5):
            m.add_choices(names, vault.keep(scales, 'scales'))
        else:
            m.add_choices(names)
    else:
        tree.build(m, ctx.rng)
    units = c07.gen_units(ctx, n, unique=True)
    given = vault.keep(units if ctx.chance(0.6) or units.nlevels > 1 else units.to_list(), 'decision units')
    m.decision_units = given
    scope = c07.Scope(ctx, m, tree, m.decision_units)
    scope.declare('number')
    for _ in range(ctx.int(1, 5)):
        scope.declare()
    texts = []
    full_symbols(ctx, scope, tree, texts)
    for name, data in scope.assigned.items():
        vault.keep(data, f'data of {name}')
    vault.check('after assignments')
    gen = Gen(ctx, scope.terms, c07.keys_for(tree))
    texts += [t for t, _ in c07.grow(ctx, scope, gen, tree, ctx.int(1, 4), limit=8)]
    ctx.rng.shuffle(texts)
    groups = [None] + [g for g in ('g', 2) if ctx.chance(0.4)]
    for t in texts:
        m.expressions.append(t, group=ctx.pick(groups))
        ctx.note('  ', t)
    if ctx.chance(0.3):
        more = vault.keep([texts[0], '0'], 'list of expressions')
        m.expressions = more
    if ctx.chance(0.3):
        m.debug_id = m.decision_units[0]
    if ctx.chance(0.7):
        partial(ctx, m, vault)
    vault.check('after expressions')
    groups = [g for g in groups if g is None or any(e.group == g for e in m.expressions)] if False else groups
    runs(ctx, m, scope, vault, groups)
    ctx.sig(ctx.trace)


def partial(ctx, m, vault):
    u, c = m.decision_units, m.choices
    dtype = ctx.pick(['f8', f'f{m.precision}', f'f{m.precision}', 'i4'])
    v = np.array(ctx.dyadic((len(u), len(c)), 2), dtype=dtype, order=ctx.pick('CF'))
    kw = {}
    frame = pd.DataFrame(v, index=u, columns=c)
    if ctx.chance(0.3):
        frame = frame.iloc[ctx.rng.permutation(len(u))[:ctx.int(1, len(u))], ctx.rng.permutation(len(c))[:ctx.int(1, len(c))]]
        kw['reindex_rows'] = True
    ctx.note('add_partial_utilities', frame.shape, dtype, kw)
    vault.keep(frame, 'partial utilities')
    try:
        m.add_partial_utilities(frame, **kw)
    except Exception as e:  # Integers don't have to be supported
        if dtype != 'i4':
            raise
    vault.check('after adding partial utilities')


def runs(ctx, m, scope, vault, groups, depth=0):
    first = {}
    u = m.decision_units
    for _ in range(ctx.int(4, 9)):
        k = ctx.pick(['stochastic', 'stochastic', 'discrete', 'discrete', 'again', 'again', 'group', 'assign', 'partial', 'validate',
                      'copy', 'subset', 'fail', 'preval'])
        ctx.note(k)
        if k in ('stochastic', 'discrete', 'group') or (k == 'again' and not first):
            g = ctx.pick(groups) if k == 'group' else None
            kw = dict(clear_scope=False, n_threads=ctx.pick([1, 2]), group=g)
            if k == 'discrete':
                kw.update(random_seed=ctx.int(0, 99), n_draws=ctx.pick([1, 1, 4]), astype=ctx.pick(['category', 'index', 'object']),
                          squeeze=ctx.chance(0.7))
                fn = 'run_discrete'
            else:
                kw.update(check_infeasible=False, scale_utilities=ctx.chance(0.7))
                fn = 'run_stochastic'
            key = (fn, tuple(sorted(kw.items(), key=lambda x: x[0])))
            execute(ctx, m, fn, kw, key, first, vault)
        elif k == 'again':
            key = ctx.pick(sorted(first, key=repr))
            execute(ctx, m, key[0], dict(key[1]), key, first, vault)
        elif k == 'assign':
            name = ctx.pick(sorted(scope.assigned))
            m[name].assign(scope.assigned[name])
            vault.check(f'after assigning {name} again')
        elif k == 'partial':
            partial(ctx, m, vault)
            first.clear()
        elif k == 'validate':
            m.validate()
            vault.check('after validate()')
        elif k == 'copy':
            before = repeatable(ctx, m, first, vault)
            if before is None:
                continue
            other = m.copy()
            execute(ctx, other, before[0], dict(before[1]), before, first, vault)
            if depth == 0:
                o_scope = c07.Scope.__new__(c07.Scope)
                o_scope.assigned = scope.assigned
                runs(ctx, other, o_scope, vault, groups, 1)
            execute(ctx, m, before[0], dict(before[1]), before, first, vault)
        elif k == 'subset':
            mask = pd.Series(ctx.rng.random(len(u)) < 0.6, index=u, name='mask')
            vault.keep(mask, 'mask')
            sub = m.copy_subset(mask)
            vault.check('after copy_subset()')
            if mask.any():
                before = repeatable(ctx, m, first, vault)
                if before is None:
                    continue
                debug, sub.debug_id = sub.debug_id, None
                for _ in range(2):
                    execute(ctx, sub, before[0], dict(before[1]), None, {}, vault)
                execute(ctx, m, before[0], dict(before[1]), before, first, vault)
        elif k == 'fail':
            fail(ctx, m, vault, scope)
        elif k == 'preval' and depth:
            g = ctx.pick(groups)
            if g is None:
                continue
            try:
                m.preval(g, drop_group=ctx.chance(0.5), cleanup_scope=False)
            except KeyError:
                pass
            vault.check('after preval()')
            first.clear()


def repeatable(ctx, m, first, vault):
    if not first:
        kw = dict(clear_scope=False, n_threads=1, group=None, check_infeasible=False)
        key = ('run_stochastic', tuple(sorted(kw.items())))
        execute(ctx, m, 'run_stochastic', kw, key, first, vault)
    return ctx.pick(sorted(first, key=repr)) if first else None


def execute(ctx, m, fn, kw, key, first, vault):
    from cheval.exceptions import ModelNotReadyError
    try:
        result = getattr(m, fn)(**kw)
    except (KeyError, ZeroDivisionError, ModelNotReadyError) as e:  # There are no expressions in this group; infeasible units
        ctx.check(key not in first, f'{fn}({kw}) worked once, and raises {type(e).__name__} now')
        vault.check(f'after a failing {fn}()')
        return
    except Exception as e:
        if fn != 'run_discrete' or key in first:
            raise
        vault.check(f'after a failing {fn}()')
        return
    vault.check(f'after {fn}({kw})')
    separate(ctx, result, vault, fn)
    if key is not None:
        if key in first:
            identical(ctx, result, first[key], f'repeated {fn}({kw})')
        else:
            first[key] = freeze(result)
    trace = m.debug_results
    if trace is not None and len(trace):
        kept = trace.copy(deep=True)
        overwrite(ctx, result)
        same_frame(ctx, trace, kept, 'debug_results after the results were overwritten')
        overwrite(ctx, trace)
    else:
        overwrite(ctx, result)
    vault.check('after overwriting the results')


def fail(ctx, m, vault, scope):
    n, c = len(m.decision_units), len(m.choices)
    bad = ctx.pick(['vector', 'table', 'matrix', 'partial', 'syntax', 'group', 'nan'])
    ctx.count('failures')
    if bad in ('vector', 'table', 'matrix'):
        names = [s for s, v in scope.assigned.items() if type(m[s]).__name__ == bad.capitalize() + 'Symbol']
        if not names:
            return
        s = ctx.pick(names)
        data = {'vector': lambda: np.ones((n + c + 1)), 'table': lambda: pd.DataFrame({'a': np.ones(n + c + 1)}),
                'matrix': lambda: pd.DataFrame(np.ones((2, 2)), index=['no', 'nn'], columns=['q', 'r'])}[bad]()
        vault.keep(data, 'refused data')
        ctx.raises(Exception, lambda: m[s].assign(data), f'assignment of wrong data to a {bad}')
    elif bad == 'partial':
        data = vault.keep(pd.DataFrame(np.ones((2, 2)), index=['no', 'nn'], columns=['q', 'r']), 'refused data')
        ctx.raises(Exception, lambda: m.add_partial_utilities(data), 'partial utilities with wrong labels')
    elif bad == 'syntax':
        ctx.raises(Exception, lambda: m.expressions.append('1 +'), 'wrong syntax')
    elif bad == 'group':
        ctx.raises(KeyError, lambda: m.run_stochastic(group='no such group', clear_scope=False), 'missing group')
    else:
        other = m.copy()
        other.expressions.append('NAN')
        ctx.raises(Exception, lambda: other.run_stochastic(clear_scope=False), 'utilities without a value')
    vault.check('after a failure')

# endregion
# region Frames


def frames(ctx):
    world = l04.World(ctx, n=ctx.pick([1, 3, 8]))
    vault = Vault(ctx)
    for t in world.tabs:
        vault.keep(t.frame, f'table {t.name}')
    frame, n = world.frame, world.src.n
    gen = Gen(ctx, world.terms)
    local = world.add_locals() if ctx.chance(0.5) else None
    if local is not None:
        vault.keep(local, 'local values')
    ops = []
    gen = Gen(ctx, world.terms)
    for _ in range(3):
        if not gen.nums:
            break
        node, boolean = l04.grow(ctx, world, gen)
        if node is not None:
            ops.append((f'evaluate({node.text})', lambda f, t=node.text: f.evaluate(t, local_dict=local)))
            if local is None or all(not isinstance(v, np.ndarray) for v in local.values()):
                ops.append((f'slice + evaluate({node.text})', lambda f, t=node.text: f.iloc[:1].evaluate(t, local_dict=local)))
    for chain, agg in world.jobs:
        path = '.'.join(l.name for l in chain)
        ctx.count('with_links')
        if agg is None:
            for attr, col in chain[-1].dst.columns.items():
                ops.append((f'lookup of {path}.{attr}', lambda f, c=chain, a=attr: access(ctx, f, c, a)))
                if col.kind in ('int', 'float', 'bool', 'uint'):
                    ops.append((f'evaluate({path}.{attr})', lambda f, p=f'{path}.{attr}': f.evaluate(p)))
                    ops.append((f'pivot_table({path}.{attr})',
                                lambda f, p=f'{path}.{attr}': f.pivot_table(values=['rid'], index=[p], aggfunc='sum')))
                ops.append((f'slice + lookup of {path}.{attr}', lambda f, c=chain, a=attr: access(ctx, f.iloc[::-1], c, a)))
        else:
            func = ctx.pick(['sum', 'max', 'min', 'mean', 'count', 'first', 'last', 'median', 'std'])
            def node(f, c=chain + [agg]):
                for l in c:
                    f = f[l.name]
                return f
            attrs = ['1', 'rid', 'rid * 2'] + [a for a, c in agg.dst.columns.items() if c.kind in ('int', 'float')]
            for a in attrs:
                ops.append((f'{func}({a}) over {path}.{agg.name}', lambda f, a=a, nd=node, fn=func: getattr(nd(f), fn)(a)))
    ops += [('rid', lambda f: f['rid'].iloc[:0]), ('compute_indexers', lambda f: f.compute_indexers()), ('link_summary', lambda f: f.link_summary().drop(columns='preindexed')),
            ('slice', lambda f: f.iloc[:2].copy(deep=True)), ('filter', lambda f: f.loc[f['rid'] > 0].copy(deep=True)),
            ('compute_indexers again', lambda f: f.compute_indexers(refresh=False)), ('copy', lambda f: f.copy(deep=True)),
            ('pivot_table', lambda f: f.pivot_table(values='rid', index=['rid'], aggfunc='sum'))]
    first = {}
    ops = [ops[i] for i in ctx.rng.permutation(len(ops))][:ctx.int(4, 10)]
    for _ in range(2):
        for what, fn in ops:
            if ctx.chance(0.2):
                broken(ctx, frame, world, vault)
            ctx.note(what)
            try:
                result = fn(frame)
            except Exception as e:
                if 'pivot' not in what and 'evaluate' not in what:
                    raise
                ctx.check(what not in first, f'{what} worked once, and raises {type(e).__name__} now: {e}')
                continue
            vault.check(f'after {what}')
            if not isinstance(result, (pd.DataFrame, pd.Series)) or what == 'rid':
                continue
            separate(ctx, result, vault, what)
            plain = pd.DataFrame(result) if isinstance(result, pd.DataFrame) else result
            if what in first:
                identical(ctx, plain, first[what], f'repeated {what}')
            else:
                first[what] = freeze(plain)
            overwrite(ctx, plain)
            vault.check(f'after overwriting the result of {what}')
            ctx.count('values_compared', plain.size)
    ctx.sig(ctx.trace)


def broken(ctx, frame, world, vault):
    """Failing operations"""
    other = ctx.pick(world.tabs).frame
    fns = [lambda: frame.evaluate('rid + nothing'), lambda: frame['nothing'], lambda: frame.nothing,
           lambda: frame.link_to(other, 'new_link', on_self=vault.keep(['nothing', 'rid'], 'missing columns'), on_other=['rid', 'rid']),
           lambda: frame.link_to(other, 'new_link', on=vault.keep(['nothing'], 'missing columns')),
           lambda: frame.pivot_table(index=vault.keep(['nothing.x'], 'missing chain'), values='rid'),
           lambda: frame.evaluate('rid * 1.5', out=vault.keep(pd.Series(np.zeros(world.src.n, dtype='i8')), 'out of integers'))]
    ctx.raises(Exception, ctx.pick(fns), 'operation with missing columns')
    ctx.count('failures')
    vault.check('after a failing operation')

# endregion
# region Arguments


def arguments(ctx):
    """Containers which are passed to operations on tables"""
    from cheval import LinkedDataFrame
    vault = Vault(ctx)
    n, k = ctx.int(2, 8), ctx.int(2, 5)
    a = LinkedDataFrame({'key': ctx.rng.integers(0, k + 1, n), 'key2': ctx.rng.integers(0, 2, n), 'v': ctx.dyadic(n, 4), 'w': ctx.dyadic(n, 4),
                         'g': pd.Categorical([ctx.pick('ab') for _ in range(n)])})
    a.iloc[-1, :2] = a.iloc[0, :2]  # Several rows have the same keys
    pairs = [(i, j) for i in range(k) for j in range(2)]
    b = LinkedDataFrame({'key': [i for i, _ in pairs], 'key2': [j for _, j in pairs], 'area': ctx.dyadic(len(pairs), 4),
                         'label': [ctx.pick(['x', 'yy']) for _ in pairs]},
                        index=pd.MultiIndex.from_tuples(pairs, names=['key', 'key2']) if ctx.chance(0.5) else None)
    plain = pd.DataFrame(b, copy=True)
    source = vault.keep({'q': ctx.dyadic(n, 2), 'r': [1] * n}, 'dictionary of columns')
    LinkedDataFrame(source)['q'] = 3.0
    raw = vault.keep(ctx.dyadic((n, 2), 4), 'array')
    made = LinkedDataFrame(pd.DataFrame(raw, columns=['q', 'r']))
    made.link_to(a.reset_index(), 'self_', on_self='q', on_other='v') if len(set(a['v'])) == n else None
    vault.check('after creating tables')
    for obj, name in ((a, 'table a'), (b, 'table b'), (plain, 'plain table')):
        vault.keep(obj, name)
    keys = vault.keep(['key', 'key2'], 'on')
    target = ctx.pick([b, plain])
    how = ctx.pick(['on', 'both', 'levels'])
    if how == 'on':
        a.link_to(target, 'b', on=keys)
    elif how == 'both' or target.index.nlevels == 1:
        a.link_to(target, 'b', on_self=keys, on_other=vault.keep(['key', 'key2'], 'on_other'))
    else:
        a.link_to(target, 'b', on_self=keys, other_levels=vault.keep(ctx.pick([['key', 'key2'], [0, 1]]), 'other_levels'))
    b.link_to(a, 'rows', on_self=keys, on_other=keys)
    vault.check('after link_to()')
    fill = vault.keep({'v': -1}, 'fills') if False else None
    values = vault.keep(['v', 'w'], 'values')
    funcs = [lambda: a.pivot_table(values=values, index=vault.keep(['b.area'], 'index'), columns=vault.keep(['g'], 'columns'), aggfunc='sum'),
             lambda: a.pivot_table(values=vault.keep(['v', 'b.area'], 'values'), index=vault.keep(['key'], 'index'),
                                   aggfunc=vault.keep(['sum', 'mean'], 'aggfunc')),
             lambda: a.pivot_table(values=values, index='g', aggfunc=vault.keep({'v': 'sum', 'w': ['min', 'max']}, 'aggfunc')),
             lambda: a.pivot_table(values='v', index=vault.keep(['b.area', 'g'], 'index'), aggfunc='count'),
             lambda: a.evaluate('v * k + b.area', local_dict=vault.keep({'k': 2}, 'local values')),
             lambda: a.evaluate('v * k', local_dict=vault.keep({'k': ctx.dyadic(n, 2), 'unused': 'text'}, 'local values')),
             lambda: a.loc[vault.keep(pd.Series(ctx.rng.random(n) < 0.5), 'mask')].b.area,
             lambda: a.loc[vault.keep(ctx.rng.random(n) < 0.5, 'mask')].b.area,
             lambda: a.iloc[vault.keep(ctx.rng.permutation(n)[:2], 'positions')].b.area,
             lambda: a.loc[vault.keep([0, 1], 'labels'), vault.keep(['v', 'key', 'key2'], 'columns')],
             lambda: b.rows.sum('v'), lambda: b['rows'].mean('v * w'), lambda: b.evaluate('area + rows.sum(v)'),
             lambda: a.b.label, lambda: a.b['area'],
             lambda: a.pivot_table(values='v', index='b.label', aggfunc='sum')]
    first = {}
    order = [int(i) for i in ctx.rng.permutation(len(funcs))]
    for i in order[:6] + order[:3]:
        ctx.note('operation', i)
        result = funcs[i]()
        vault.check(f'after operation {i}')
        result = pd.DataFrame(result) if isinstance(result, pd.DataFrame) else result
        if i not in (5, 6, 7, 8):  # Without further random arguments
            separate(ctx, result, vault, f'operation {i}')
            if i in first:
                identical(ctx, result, first[i], f'repeated operation {i}')
            else:
                first[i] = freeze(result)
        if i != 9:
            overwrite(ctx, result)
        vault.check(f'after overwriting the result of operation {i}')
    ctx.sig(ctx.trace, how)

# endregion


SCENARIOS = [
    Scenario('models', models, 450, 10000),
    Scenario('frames', frames, 320, 6000),
    Scenario('arguments', arguments, 160, 3000),
]
