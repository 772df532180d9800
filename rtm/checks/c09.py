"""Data assigned to symbols is aligned by labels, filled where allowed, and rejected where it does not fit"""
import numpy as np
import pandas as pd

from rtm.checks.c07 import build
from rtm.core import Scenario
from rtm.exprs import gen_column
from rtm.models import Tree, check_utilities, gen_any_tree, gen_units

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random tree and index of units, with a symbol of each kind, assigned with data in varying order, extent, '
        'orientation, type and memory layout, or with data that does not fit in one of many ways. Fitting data has to show '
        'up in the cells of its labels (and the fill value everywhere else); other data has to be rejected, leaving the '
        'previous data in use. Distinct by tree, units, kind and flaw.')
ASSUMPTIONS = ['labels of partial tables and matrices are unique']
MINIMUM = {'aligned': 800, 'rejected': 500, 'kept_after_rejection': 300, 'utilities_compared': 20000, 'emptied': 80}


def strided(ctx, a):
    k = ctx.int(0, 3)
    if k == 0:
        return a
    if k == 1:
        out = np.empty(2 * len(a), dtype=a.dtype)[::2]
    elif k == 2:
        out = np.empty(len(a), dtype=a.dtype)[::-1]
    else:
        out = np.empty((len(a), 3), dtype=a.dtype)[:, 1]
    out[...] = a
    if ctx.chance(0.3):
        out.setflags(write=False)
    return out


def square(ctx):
    """A model whose decision units have the same names as its choices (e.g. origins and destinations)"""
    from cheval import ChoiceModel
    tree = Tree()
    for k in ctx.rng.permutation(ctx.pick([2, 3, 6, 12])):
        tree.add(f'z{k}', 1.0)
    m = ChoiceModel()
    tree.build(m, ctx.rng)
    units = m.choices if ctx.chance(0.6) else m.choices[ctx.rng.permutation(tree.n)]
    m.decision_units = units if ctx.chance(0.5) else pd.Index(list(units))
    ctx.count('square')
    return m, tree, pd.Index(list(units)), tree.n


def model(ctx, n=None, unique=True):
    if n is None and ctx.chance(0.12):
        return square(ctx)
    tree = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 3]), max_children=3)
    n = n or ctx.pick([1, 2, 3, 6, 30])
    m, units = build(ctx, tree, n, unique=unique)
    return m, tree, units, n


def matrices(ctx):
    m, tree, units, n = model(ctx)
    c = tree.n
    U = np.zeros((n, c))
    for k in range(ctx.int(1, 3)):
        name = f's{k}'
        o = ctx.int(0, 1)
        fill = ctx.pick([None, None, 0, 3, -2, 0.5])
        dt = ctx.pick(['f8', 'f8', 'f4', 'i8', 'i4', 'i2'])
        if dt[0] == 'i' and fill == 0.5:
            fill = 1
        part = ctx.pick(['full', 'rows', 'cols', 'both', 'shuffled', 'reversed'])
        rows, cols = np.arange(n), np.arange(c)
        if part in ('rows', 'both', 'shuffled'):
            rows = ctx.rng.permutation(n)[:n if part == 'shuffled' else ctx.int(1, n)]
        if part in ('cols', 'both', 'shuffled'):
            cols = ctx.rng.permutation(c)[:c if part == 'shuffled' else ctx.int(1, c)]
        if part == 'reversed':
            rows, cols = rows[::-1], cols[::-1]
        # Unequal distances between the values of rows and columns make any mix-up visible
        values = (ctx.rng.integers(-6, 7, (len(rows), len(cols))) * (0.25 if dt[0] == 'f' else 1)).astype(dt)
        if dt == 'f8':
            values += ctx.reals(values.shape, 0.1)
        frame = pd.DataFrame(values, index=units[rows], columns=m.choices[cols])
        whole = np.full((n, c), fill or 0, dtype=float)
        whole[np.ix_(rows, cols)] = values
        if ctx.chance(0.3):
            frame = frame.copy()
            frame.iloc[:, :] = np.asfortranarray(values)
        kw = {} if fill is None else {'fill_value': fill}
        m.declare_matrix(name, orientation=o, **kw) if o or ctx.chance(0.5) else m.declare_matrix(name, **kw)
        if ctx.chance(0.3):  # Replaced later on
            m[name].assign(pd.DataFrame(1.0, index=units, columns=m.choices).T if o else
                           pd.DataFrame(1.0, index=units, columns=m.choices))
        m[name].assign(frame.T if o else frame)
        m.expressions.append(name)
        ctx.note(f'{name}: orientation={o} fill={fill} {dt} {part} rows={rows.tolist()[:8]} cols={cols.tolist()[:8]}')
        ctx.count('aligned')
        U += whole
        ctx.sig(tree.describe(), n, o, fill, dt, part, rows.tolist(), cols.tolist())
    check_utilities(ctx, m, tree, U, 'utilities from matrices')


def partial_tables(ctx):
    m, tree, units, n = model(ctx)
    c = tree.n
    U = np.zeros((n, c))
    for k in range(ctx.int(1, 4)):
        part = ctx.pick(['full', 'rows', 'cols', 'both', 'shuffled'])
        rows, cols = np.arange(n), np.arange(c)
        if part in ('rows', 'both', 'shuffled'):
            rows = ctx.rng.permutation(n)[:n if part == 'shuffled' else ctx.int(1, n)]
        if part in ('cols', 'both', 'shuffled'):
            cols = ctx.rng.permutation(c)[:c if part == 'shuffled' else ctx.int(1, c)]
        values = ctx.pick([ctx.reals, ctx.dyadic])((len(rows), len(cols)), 3) if ctx.chance(0.6) else ctx.dyadic((len(rows), len(cols)), 3).astype('f4')
        frame = pd.DataFrame(values, index=units[rows], columns=m.choices[cols])
        m.add_partial_utilities(frame, reindex_rows=True) if part != 'full' else m.add_partial_utilities(frame)
        U[np.ix_(rows, cols)] += values
        ctx.note(f'{part} rows={rows.tolist()[:8]} cols={cols.tolist()[:8]}')
        ctx.count('aligned')
        if ctx.chance(0.4):
            refused_partial(ctx, m, tree, units)
    m.expressions.append('0')
    check_utilities(ctx, m, tree, U, 'partial utilities')
    ctx.sig(tree.describe(), n, U.tobytes()[:300])


def refused_partial(ctx, m, tree, units):
    """Partial utilities which do not fit are refused, and nothing gets added"""
    n, c = len(units), tree.n
    full = pd.DataFrame(ctx.dyadic((n, c), 3) + 100, index=units, columns=m.choices)
    nobody = units[1:].append(pd.Index(['nobody']) if not isinstance(units, pd.MultiIndex) else pd.MultiIndex.from_tuples([('x', 'y')]))
    nothing = pd.Index(list(m.choices[1:]) + ['nothing']) if tree.depth == 1 else pd.MultiIndex.from_tuples(
        list(m.choices[1:]) + [('nothing',) * tree.depth])
    rows, cols = ctx.rng.permutation(n), ctx.rng.permutation(c)
    flaws = dict(unknown_row=(full.set_axis(nobody), {'reindex_rows': True}), unknown_row_not_reindexed=(full.set_axis(nobody), {}),
                 unknown_col=(full.set_axis(nothing, axis=1), {'reindex_rows': ctx.chance(0.5)}),
                 partial_cols=(full.iloc[:, 1:], {'reindex_columns': False}))
    if n > 1:
        flaws['partial_rows'] = full.iloc[1:], {}
        flaws['partial_rows_too'] = full.iloc[1:], {'reindex_rows': False, 'reindex_columns': True}
    if (rows != np.arange(n)).any():
        flaws['permuted_rows'] = full.iloc[rows], ctx.pick([{}, {'reindex_rows': False}])
        flaws['permuted_both'] = full.iloc[rows, cols], {}
    if (cols != np.arange(c)).any():
        flaws['permuted_cols'] = full.iloc[:, cols], {'reindex_columns': False, 'reindex_rows': ctx.chance(0.5)}
    flaw = ctx.pick(sorted(flaws))
    frame, kw = flaws[flaw]
    ctx.note('refused', flaw, kw)
    ctx.raises(Exception, lambda: m.add_partial_utilities(frame, **kw), f'adding partial utilities with the flaw "{flaw}" {kw}')
    ctx.count('rejected')


def vectors(ctx):
    m, tree, units, n = model(ctx, unique=ctx.chance(0.7))
    U = np.zeros((n, tree.n))
    for k in range(ctx.int(1, 4)):
        name, o = f's{k}', ctx.int(0, 1)
        labels = m.choices if o else units
        data, values, typ = gen_column(ctx, len(labels))
        as_table = ctx.chance(0.4)
        if typ == 'text':
            target = ctx.pick(list(values))
            text, v = f'where($ == {target!r}, 2, -1)', np.where(values == target, 2, -1)
        elif typ == 'gap':
            text, v = 'where(isnan($), 7, 1)', np.where(np.isnan(values), 7, 1)
        else:
            text, v = ctx.pick([('$', values * 1.0), ('$ * 0.5', values * 0.5)])
        if as_table:
            m.declare_table(name, o)
            m[name].assign(pd.DataFrame({'q': data, 'other': 1.0}, index=labels)[['other', 'q']])
            text = text.replace('$', f'{name}.q')
        else:
            m.declare_vector(name, o)
            if isinstance(data, np.ndarray) and typ != 'text' and ctx.chance(0.5):
                m[name].assign(strided(ctx, data))
            else:
                m[name].assign(pd.Series(data, index=labels, name=ctx.pick([None, 'anything'])))
            text = text.replace('$', name)
        m.expressions.append(text)
        U = U + (v[None, :] if o else v[:, None])
        ctx.note(text, f'orientation={o}', str(getattr(data, 'dtype', type(data))), repr(values)[:100])
        ctx.count('aligned')
        ctx.sig(tree.describe(), text, o, str(getattr(data, 'dtype', '')), n)
    check_utilities(ctx, m, tree, U, 'utilities from vectors and tables')


def misfits(ctx):
    """Data which does not fit"""
    from cheval import LinkedDataFrame
    m, tree, units, n = model(ctx, ctx.pick([2, 3, 6]))
    c = tree.n
    kind = ctx.pick(['vector', 'table', 'matrix'])
    o = ctx.int(0, 1)
    labels = m.choices if o else units
    k = len(labels)
    name = 's'
    good = ctx.dyadic(k, 2)
    if kind == 'vector':
        m.declare_vector(name, o)
        m[name].assign(pd.Series(good, index=labels))
        text, v = name, good
        perm = np.roll(np.arange(k), 1)
        flaws = dict(
            permuted=lambda: pd.Series(good, index=labels).iloc[perm],
            shorter=lambda: pd.Series(good, index=labels).iloc[:-1],
            longer=lambda: pd.Series(np.append(good, 1), index=labels.append(labels[:1])),
            short_array=lambda: good[:-1], long_array=lambda: np.append(good, 0), two_dims=lambda: good[:, None],
            row=lambda: good[None, :], scalar=lambda: 1.5, a_list=lambda: list(good),
            other_labels=lambda: pd.Series(good, index=pd.Index([f'o{i}' for i in range(k)])),
            frame=lambda: pd.DataFrame({'a': good}, index=labels),
            dates=lambda: pd.Series(pd.date_range('2020-01-01', periods=k), index=labels),
            durations=lambda: pd.Series(pd.timedelta_range('1h', periods=k, freq='h'), index=labels))
    elif kind == 'table':
        m.declare_table(name, o, mandatory_attributes={'q'}, allow_links=False)
        frame = pd.DataFrame({'q': good, 'r': good + 1}, index=labels)
        m[name].assign(frame)
        text, v = 's.q', good
        perm = np.roll(np.arange(k), 1)
        flaws = dict(
            permuted=lambda: frame.iloc[perm], shorter=lambda: frame.iloc[:-1], longer=lambda: pd.concat([frame, frame.iloc[:1]]),
            no_attribute=lambda: frame[['r']], linked=lambda: LinkedDataFrame(frame), series=lambda: frame['q'],
            array=lambda: frame.to_numpy(), other_labels=lambda: frame.set_axis([f'o{i}' for i in range(k)]),
            a_dict=lambda: {'q': good})
    else:
        flags = ctx.pick([{}, {'reindex_rows': False}, {'reindex_cols': False}, {'reindex_rows': False, 'reindex_cols': False}])
        m.declare_matrix(name, orientation=o, **flags)
        values = ctx.dyadic((n, c), 2)
        frame = pd.DataFrame(values, index=units, columns=m.choices)
        m[name].assign(frame.T if o else frame)
        text, v = name, values
        extra_row = frame.set_axis(units[1:].append(pd.Index(['nobody'])) if not isinstance(units, pd.MultiIndex) else
                                   units[1:].append(pd.MultiIndex.from_tuples([('x', 'y')])))
        wrong_cols = frame.copy()
        wrong_cols.columns = (pd.Index(list(m.choices[1:]) + ['nothing']) if tree.depth == 1 else
                              pd.MultiIndex.from_tuples(list(m.choices[1:]) + [('nothing',) * tree.depth]))
        flaws = dict(unknown_row=lambda: extra_row, unknown_col=lambda: wrong_cols, array=lambda: values,
                     series=lambda: frame.iloc[:, 0], extended=lambda: pd.concat([frame, extra_row.iloc[-1:]]))
        if not flags.get('reindex_rows', True):
            flaws.update(partial_rows=lambda: frame.iloc[1:], permuted_rows=lambda: frame.iloc[np.roll(np.arange(n), 1)])
        if not flags.get('reindex_cols', True):
            flaws.update(partial_cols=lambda: frame.iloc[:, 1:], permuted_cols=lambda: frame.iloc[:, np.roll(np.arange(c), 1)])
    m.expressions.append(text)
    want = np.broadcast_to(v if v.ndim == 2 else (v[None, :] if o else v[:, None]), (n, c))
    for flaw in ctx.rng.permutation(list(flaws))[:3]:
        flaw = str(flaw)
        data = flaws[flaw]()
        if kind == 'matrix' and o and isinstance(data, pd.DataFrame):
            data = data.T
        ctx.note(f'{kind} orientation={o} flaw={flaw} tree={tree.describe()} units={units[:4].tolist()}')
        ctx.raises(Exception, lambda: m[name].assign(data), f'{kind} of orientation {o}: assigning data with the flaw "{flaw}"')
        ctx.count('rejected')
        ctx.count('kept_after_rejection')
        check_utilities(ctx, m, tree, want, f'utilities after data with the flaw "{flaw}" was rejected')
        ctx.sig(tree.describe(), n, kind, o, flaw)


def numbers(ctx):
    m, tree, units, n = model(ctx, 2)
    m.declare_number('b')
    value = ctx.pick([1, -2, 0.5, True, False, np.float64(1.25), np.float32(0.5), np.int16(3), np.bool_(True), '1.5', 0])
    m['b'].assign(value)
    m.expressions.append('b * 2')
    ctx.note('number', repr(value))
    ctx.sig(tree.describe(), repr(value))
    check_utilities(ctx, m, tree, np.full((n, tree.n), float(value) * 2), 'utilities from a number')
    bad = ctx.pick(['abc', None, [1, 2], np.ones(3), {}])
    ctx.raises(Exception, lambda: m['b'].assign(bad), f'number {bad!r}')
    ctx.count('rejected')
    check_utilities(ctx, m, tree, np.full((n, tree.n), float(value) * 2), 'utilities after a number was rejected')


def new_units(ctx):
    """Data never survives a change of the units, except for numbers"""
    from cheval import ModelNotReadyError
    m, tree, units, n = model(ctx)
    kind = ctx.pick(['vector', 'table', 'matrix', 'partial', 'vector1'])
    m.declare_number('b')
    m['b'].assign(0.5)
    m.expressions.append('b')
    if kind == 'vector':
        m.declare_vector('s', 0)
        m['s'].assign(np.ones(n))
    elif kind == 'vector1':
        m.declare_vector('s', 1)
        m['s'].assign(np.ones(tree.n))
    elif kind == 'table':
        m.declare_table('s', 0)
        m['s'].assign(pd.DataFrame({'q': np.ones(n)}, index=units))
    elif kind == 'matrix':
        m.declare_matrix('s')
        m['s'].assign(pd.DataFrame(1.0, index=units, columns=m.choices))
    else:
        m.add_partial_utilities(pd.DataFrame(1.0, index=units, columns=m.choices))
    if kind != 'partial':
        m.expressions.append('s.q' if kind == 'table' else 's')
    check_utilities(ctx, m, tree, np.full((n, tree.n), 1.5), 'utilities for the first units')
    n2 = ctx.pick([n, n + 1, max(1, n - 1)])
    fresh = gen_units(ctx, n2)
    if kind == 'partial' and fresh.equals(units):
        return
    m.decision_units = fresh if ctx.chance(0.7) or isinstance(fresh, pd.MultiIndex) else fresh.tolist()
    ctx.note(kind, units[:3].tolist(), '->', fresh[:3].tolist(), n2)
    ctx.sig(tree.describe(), kind, n, n2)
    ctx.count('emptied')
    if kind == 'partial':
        check_utilities(ctx, m, tree, np.full((n2, tree.n), 0.5), 'utilities for new units')
        return
    ctx.raises(ModelNotReadyError, lambda: m.run_stochastic(clear_scope=False), f'run with a {kind} of the previous units')
    if kind == 'vector':
        m['s'].assign(np.full(n2, 2.0))
    elif kind == 'vector1':
        m['s'].assign(np.full(tree.n, 2.0))
    elif kind == 'table':
        m['s'].assign(pd.DataFrame({'q': np.full(n2, 2.0)}, index=m.decision_units))
    else:
        m['s'].assign(pd.DataFrame(2.0, index=m.decision_units, columns=m.choices))
    check_utilities(ctx, m, tree, np.full((n2, tree.n), 2.5), 'utilities for new units')


SCENARIOS = [
    Scenario('matrices', matrices, 700, 15000),
    Scenario('partial_tables', partial_tables, 250, 6000),
    Scenario('vectors', vectors, 450, 10000),
    Scenario('misfits', misfits, 350, 8000),
    Scenario('numbers', numbers, 40, 300),
    Scenario('new_units', new_units, 160, 3000),
]
