"""A linked table is a DataFrame: operations that have nothing to do with links do what they do to plain frames"""
import copy
import io
import os
import tempfile

import numpy as np
import pandas as pd

from rtm.core import Scenario, same_object
from rtm.frames import Tab, access, establish, looked_up, relate, same_list

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a frame with columns of all types and random links, and a random sequence of operations of pandas (selecting, '
        'assigning, arithmetic, sorting, grouping, reshaping, combining, in-place changes), which are applied to it and to a plain '
        'DataFrame of the same contents. After each operation the results, and all of the frames which existed before, have to be '
        'the same on both sides, including what in-place changes of results do to the frames they were made from. Distinct by '
        'contents and operations.')
ASSUMPTIONS = ['links have names which are not those of columns', 'copies are made as pandas makes them by default']
MINIMUM = {'operations': 4500, 'results_compared': 8000, 'inplace': 1500, 'plain_failed': 20, 'frames_alive': 8000, 'readers': 150, 'lookups': 500}


# region Comparison

def same(ctx, got, want, what):
    ctx.count('results_compared')
    if isinstance(want, pd.DataFrame):
        ctx.check(isinstance(got, pd.DataFrame), f'{what}: is a {type(got).__name__} instead of a frame')
        same_table(ctx, got, want, what)
        if 'pivot_table' in what:  # Makes a new frame
            got.attrs.update(want.attrs)
        ctx.check(got.attrs == want.attrs, f'{what}: has attributes {got.attrs} instead of {want.attrs}')
    elif isinstance(want, pd.Series):
        ctx.check(isinstance(got, pd.Series), f'{what}: is a {type(got).__name__} instead of a series')
        try:
            pd.testing.assert_series_equal(got, want, check_exact=True)
        except AssertionError as e:
            ctx.fail(f'{what}: {str(e)[:400]}')
    elif isinstance(want, pd.Index):
        ctx.check(isinstance(got, pd.Index) and got.equals(want) and got.names == want.names, f'{what}: {got} instead of {want}')
    elif isinstance(want, np.ndarray):
        ctx.check(isinstance(got, np.ndarray) and got.shape == want.shape and got.dtype == want.dtype, f'{what}: {got!r} instead of {want!r}')
        for g, w in zip(got.ravel().tolist(), want.ravel().tolist()):
            ctx.check(same_object(g, w), f'{what}: {got!r} instead of {want!r}')
    elif isinstance(want, dict):
        ctx.check(isinstance(got, dict) and len(got) == len(want) and all(map(same_object, got, want)), f'{what}: {got!r} instead of {want!r}')
        for k, g, w in zip(want, got.values(), want.values()):
            same(ctx, g, w, f'{what} [{k!r}]')
    elif isinstance(want, (list, tuple)):
        ctx.check(isinstance(got, type(want)) and len(got) == len(want), f'{what}: {got!r} instead of {want!r}')
        for i, (g, w) in enumerate(zip(got, want)):
            same(ctx, g, w, f'{what} [{i}]')
    elif isinstance(want, str) and isinstance(got, str):
        got = got.replace('LinkedDataFrame', 'DataFrame')  # The name of the class
        ctx.check(got == want, f'{what}: {got[:300]!r} instead of {want[:300]!r}')
    else:
        ctx.check(type(got) is type(want) and same_object(got, want), f'{what}: {got!r} instead of {want!r}')


def same_table(ctx, got, want, what):
    try:
        pd.testing.assert_frame_equal(pd.DataFrame(got), want, check_exact=True)
    except AssertionError as e:
        ctx.fail(f'{what}: {str(e)[:400]}', f'got\n{pd.DataFrame(got)}\ninstead of\n{want}')

# endregion
# region Operations


def queries(ctx, f):
    """Operations that leave the frame as it is"""
    n, k = len(f), ctx.int(0, max(1, len(f)))
    cols = list(f.columns)
    num = [c for c in cols if f[c].dtype.kind in 'iuf']
    some = [c for c in cols if ctx.chance(0.5)]
    c1, c2 = ctx.pick(cols), ctx.pick(cols)
    x, y = ctx.pick(num), ctx.pick(num)
    perm = ctx.rng.permutation(n)
    picks = ctx.rng.integers(0, n, ctx.int(0, n + 2)) if n else np.array([], dtype=int)
    m = ctx.rng.random(n) < 0.5
    seed, v, up = ctx.int(0, 99), ctx.int(-3, 9), ctx.chance(0.5)
    unique = f.index.is_unique
    flat = f.index.nlevels == 1
    func = ctx.pick(['sum', 'mean', 'min', 'max', 'count', 'first', 'last', 'size', 'nunique'])
    other = pd.DataFrame({'k': np.arange(4), 'more': [1.5, 2.5, np.nan, 4.5]})
    out = [
        (f'[{c1!r}]', lambda f: f[c1]), (f'[{some}]', lambda f: f[some]), (f'.loc[:, {some}]', lambda f: f.loc[:, some]),
        (f'.iloc[:, {k} % n]', lambda f: f.iloc[:, k % f.shape[1]]), (f'.get({c1!r})', lambda f: f.get(c1)), ('.get(missing)', lambda f: f.get('no such', 3)),
        ('[no such]', lambda f: f['no such']), (f'.head({k})', lambda f: f.head(k)), (f'.tail({k})', lambda f: f.tail(k)),
        (f'[mask]', lambda f: f[m]), ('[series mask]', lambda f: f[f[x] > v]), (f'.loc[mask, {x!r}]', lambda f: f.loc[m, x]),
        (f'.iloc[{perm.tolist()}]', lambda f: f.iloc[perm]), (f'.take({picks.tolist()})', lambda f: f.take(picks)),
        (f'.iloc[{k}:]', lambda f: f.iloc[k:]), ('.iloc[::-1]', lambda f: f.iloc[::-1]), (f'.iloc[{k}, 0]', lambda f: f.iloc[k, 0]),
        (f'.iloc[{k}]', lambda f: f.iloc[k]), (f'.sample', lambda f: f.sample(frac=1.0, random_state=seed)),
        (f'.sort_values({x!r}, ascending={up})', lambda f: f.sort_values(x, ascending=up, kind='stable')),
        (f'.sort_values([{x!r}, {y!r}])', lambda f: f.sort_values([x, y], kind='stable')), ('.sort_index()', lambda f: f.sort_index(kind='stable')),
        ('.reset_index()', lambda f: f.reset_index()), ('.reset_index(drop=True)', lambda f: f.reset_index(drop=True)),
        (f'.set_index({c1!r})', lambda f: own_labels(f.set_index(c1))), (f'.set_index({c1!r}, drop=False)', lambda f: own_labels(f.set_index(c1, drop=False))),
        (f'.set_index(append)', lambda f: own_labels(f.set_index(x, append=True))),
        (f'.drop(columns={some})', lambda f: f.drop(columns=some)), (f'.drop(index)', lambda f: f.drop(f.index[:1]) if len(f) else f),
        (f'.rename(columns)', lambda f: f.rename(columns={c1: 'renamed'})), ('.rename(str.upper)', lambda f: f.rename(columns=str.upper)),
        ('.rename_axis', lambda f: f.rename_axis('rows')), ('.add_prefix', lambda f: f.add_prefix('p_')),
        (f'.assign', lambda f: f.assign(extra=f[x] + 1)), (f'.assign({c1})', lambda f: f.assign(**{c1: 5})),
        (f'.astype({x!r})', lambda f: f.astype({x: 'f8'})), (f".astype({x!r} to str)", lambda f: f.astype({x: str})),
        (f'.fillna dict', lambda f: f.fillna({c1: 0}) if c1 in num else f.fillna({x: 0})), ('.fillna numbers', lambda f: f[num].fillna(0)),
        ('.ffill()', lambda f: f.ffill()), ('.isna()', lambda f: f.isna()), ('.notna()', lambda f: f.notna()), ('.dropna()', lambda f: f.dropna()),
        (f'.dropna(subset={[c1]})', lambda f: f.dropna(subset=[c1])), (f'.dropna(columns)', lambda f: f.dropna(axis=1)),
        (f'.drop_duplicates({x!r})', lambda f: f.drop_duplicates(x)), (f'.duplicated({x!r})', lambda f: f.duplicated(x)),
        ('.shift(1)', lambda f: f[num].shift(1)), ('.shift(0)', lambda f: f.shift(0)), ('.diff()', lambda f: f[num].diff()), ('.cumsum()', lambda f: f[num].cumsum()),
        ('.rank()', lambda f: f[num].rank()), ('.abs()', lambda f: f[num].abs()), ('.round(0)', lambda f: f.round(0)),
        (f'.clip({v})', lambda f: f[num].clip(lower=v)), (f'.where', lambda f: f[num].where(f[num] > v, -1)), ('.mask', lambda f: f[num].mask(f[num] > v)),
        ('.replace', lambda f: f.replace({x: {1: 100}})), ('.isin', lambda f: f.isin([1, 2, 'a'])),
        ('+ 1', lambda f: f[num] + 1), ('* itself', lambda f: f[num] * f[num]), ('-', lambda f: -f[num].astype('f8')), ('> v', lambda f: f[num] > v),
        ('== itself', lambda f: f[num] == f[num]), ('+ series', lambda f: f[num] + f[num].iloc[0] if len(f) else f[num]),
        ('.sub(axis)', lambda f: f[num].sub(f[x], axis=0)), ('.add(fill)', lambda f: f[num].add(f[[x]], fill_value=1)),
        ('np.exp', lambda f: np.exp(f[num] / 10)), ('np.add', lambda f: np.add(f[num], 2)), ('np.asarray', lambda f: np.asarray(f[num])),
        ('.to_numpy()', lambda f: f[num].to_numpy()), ('.values', lambda f: f[[x, y]].values), ("to_dict('list')", lambda f: f.to_dict('list')),
        ("to_dict('records')", lambda f: f.to_dict('records')), ('.to_records', lambda f: f[num].to_records(index=False).tolist()), ('.T', lambda f: f[num].T),
        (f'.{func}()', lambda f: getattr(f[num], func)() if func not in ('first', 'last', 'size') else f.shape), ('.describe()', lambda f: f[num].describe()),
        ('.agg', lambda f: f[num].agg(['sum', 'max'])), ('.apply(axis=0)', lambda f: f[num].apply(lambda s: s.max())),
        ('.apply(axis=1)', lambda f: f[num].apply(lambda r: r.sum(), axis=1)), ('.apply(frame)', lambda f: f[num].apply(lambda s: s * 2)),
        ('.applymap', lambda f: f[num].applymap(lambda v: v + 1)), ('.pipe', lambda f: f.pipe(lambda g: g.head(2))),
        ('.transform', lambda f: f[num].transform(lambda s: s - s.min())), ('.idxmax', lambda f: f[[x]].dropna().idxmax()),
        ('.corr()', lambda f: f[num].corr()), ('.quantile', lambda f: f[num].quantile(0.3)), ('.value_counts', lambda f: f[[x]].value_counts()),
        ('.nunique()', lambda f: f.nunique()), ('.memory', lambda f: int(f.memory_usage(index=False).sum())), ('.any()', lambda f: (f[num] > v).any()),
        (f'.groupby({x!r}).{func}()', lambda f: getattr(f.groupby(x)[num], func)()), (f'.groupby({x!r})[{y!r}].{func}()', lambda f: getattr(f.groupby(x)[y], func)()),
        ('.groupby.agg', lambda f: f.groupby(x).agg(low=(y, 'min'), high=(y, 'max'))), ('.groupby.transform', lambda f: f.groupby(x)[y].transform('max')),
        ('.groupby.apply', lambda f: f.groupby(x).apply(lambda g: g[y].sum())), ('.groupby.size', lambda f: f.groupby([x, y]).size()),
        ('.groupby.cumcount', lambda f: f.groupby(x).cumcount()), ('.groupby.filter', lambda f: f.groupby(x).filter(lambda g: len(g) > 1)),
        ('.groupby.ngroup', lambda f: f.groupby(x).ngroup()), ('.groupby list', lambda f: [(k, len(g), g[y].sum()) for k, g in f.groupby(x)]),
        ('.groupby.head', lambda f: f.groupby(x).head(1)), ('.groupby frames', lambda f: dict(list(f.groupby(x)))),
        ('.nlargest', lambda f: f.nlargest(2, x)), ('.melt', lambda f: f.melt(id_vars=[x], value_vars=[y] if y != x else None)),
        ('.stack()', lambda f: f[num].stack()), ('.unstack', lambda f: f.set_index(x, append=True)[[y]].unstack() if y != x else f.shape),
        ('.merge', lambda f: f.merge(other, left_on=x, right_on='k', how=ctx_how)), ('.merge index', lambda f: f.merge(other, left_on=x, right_index=True)),
        ('.join', lambda f: f.join(other, on='rid')), ('pd.merge(right)', lambda f: pd.merge(other, f, left_on='k', right_on=x)),
        ('pd.concat self', lambda f: pd.concat([f, f])), ('pd.concat', lambda f: pd.concat([f, other], ignore_index=True)),
        ('pd.concat plain', lambda f: pd.concat([other, f])), ('pd.concat columns', lambda f: pd.concat([f.reset_index(drop=True), other], axis=1)),
        ('pd.get_dummies', lambda f: pd.get_dummies(f[[c1]])), ('pd.crosstab', lambda f: pd.crosstab(f[x], f[y])),
        ('.explode', lambda f: f.explode(x)), ('.select_dtypes', lambda f: f.select_dtypes('number')), ('.filter', lambda f: f.filter(regex='a')),
        ('.eval', lambda f: f.eval(f'{x} * 2 + {y}')), ('.eval assign', lambda f: f.eval(f'made = {x} + 1')), ('.query', lambda f: f.query(f'{x} > {v}')),
        ('.iterrows', lambda f: [(i, r[c1]) for i, r in f.iterrows()]), ('.itertuples', lambda f: [t[1] for t in f.itertuples()]),
        ('.items', lambda f: [(k, s.iloc[0] if len(s) else None) for k, s in f.items()]), ('len', lambda f: len(f)), ('.shape', lambda f: f.shape),
        ('.columns', lambda f: f.columns), ('.index', lambda f: f.index), ('.dtypes', lambda f: [str(t) for t in f.dtypes]), ('in', lambda f: (c1 in f, 'no such' in f)),
        ('.empty', lambda f: f.empty), ('iter', lambda f: list(f)), ('.equals', lambda f: f.equals(f.copy())), ('.to_csv()', lambda f: f.to_csv()),
        ('.to_csv(columns)', lambda f: f.to_csv(columns=[c1], index=False, sep=';')), ('.to_string', lambda f: f.to_string()), ('repr', lambda f: repr(f)),
        ('.to_json', lambda f: f[num].reset_index(drop=True).to_json()), ('.copy(deep)', lambda f: f.copy(deep=True)), ('.copy()', lambda f: f.copy()),
        ('.infer_objects', lambda f: f.infer_objects()), ('.align', lambda f: f[num].align(f[num].iloc[::-1] if unique else f[num])),
        ('.combine_first', lambda f: f[num].combine_first(f[num].fillna(1)) if unique else f.shape), ('.compare', lambda f: f[num].compare(f[num].fillna(7))),
        ('.squeeze', lambda f: f[[x]].squeeze(axis=1)), ('.at', lambda f: f.at[f.index[k], c1] if unique else None), ('.iat', lambda f: f.iat[k, 0]),
        ('.xs', lambda f: f.xs(f.index[0]) if flat and unique else None), ('.loc[label]', lambda f: f.loc[f.index[k]] if flat and unique else None),
        ('.loc[labels]', lambda f: f.loc[list(f.index[perm])] if flat and unique else None), ('.reindex', lambda f: f.reindex(f.index[perm]) if unique else None),
        ('.reindex same', lambda f: f.reindex(f.index) if unique else None), ('.reindex(columns)', lambda f: f.reindex(columns=some + ['added'])),
        ('.swapaxes', lambda f: f[num].swapaxes(0, 1)), ('.rolling', lambda f: f[num].rolling(2).sum()), ('.expanding', lambda f: f[num].expanding().max()),
        ('.pivot_table', lambda f: f.pivot_table(values=y, index=x, aggfunc='max') if x != y else None), ('.set_axis', lambda f: f.set_axis(np.arange(len(f)), axis=0)),
        ('.truncate', lambda f: f.reset_index(drop=True).truncate(1, 3)), ('.lookup by get_loc', lambda f: f.columns.get_loc(c1)), ('.bool', lambda f: bool(f)),
        ('.pop of a copy', lambda f: f.copy().pop(c1)), ('.mode', lambda f: f[[x]].mode()), ('.sum(axis=1)', lambda f: f[num].sum(axis=1)),
        ('.std', lambda f: f[num].std()), ('.dot', lambda f: f[num].fillna(0).astype('f8').dot(np.ones(len(num)))), ('.insert in copy', inserted),
        ('.first_valid_index', lambda f: f.first_valid_index()), ('.keys()', lambda f: f.keys()), ('.convert_dtypes', lambda f: f[[x]].convert_dtypes()),
        ('.to_period', lambda f: f.axes[1]), ('.size', lambda f: f.size), ('.ndim', lambda f: f.ndim), ('attribute', lambda f: getattr(f, 'rid')),
        ('.reindex(fill)', lambda f: f[num].reindex(list(f.index[:2]) + [-99], fill_value=5) if unique and flat else None),
        ('.reindex(index, fill)', lambda f: f.reindex(f.index[::-1].union(f.index[:0]), fill_value=v) if unique else None),
        ('.reindex renamed', lambda f: f.reindex(f.index.rename('named')) if unique and flat else None),
        ('.reindex columns same', lambda f: f.reindex(columns=list(f.columns))), ('.reindex_like', lambda f: f.reindex_like(f[num]) if unique else None),
        ('.reindex(method)', lambda f: f.reset_index(drop=True).reindex(np.arange(len(f) + 2) - 1, method='ffill')),
        ('.reindex twice', lambda f: f.reindex(index=f.index[perm], columns=some + [x]) if unique and x not in some else None),
        ('.align itself', lambda f: f.align(f.rename_axis('named') if flat else f)), ('.align rows', lambda f: f.align(f.iloc[1:], axis=0, fill_value=-1) if unique else None),
        ('.align series', lambda f: f[num].align(f[x], axis=0)[0]), ('[all]', lambda f: f[np.ones(len(f), dtype=bool)]), ('.loc[all]', lambda f: f.loc[np.ones(len(f), dtype=bool)]),
        ('[none]', lambda f: f[np.zeros(len(f), dtype=bool)]), ('.take(all)', lambda f: f.take(np.arange(len(f)))), ('.iloc[:]', lambda f: f.iloc[:]), ('.loc[:]', lambda f: f.loc[:]), ('.head(all)', lambda f: f.head(len(f) + 1)),
        ('.iloc[all]', lambda f: f.iloc[list(range(len(f)))]), ('.iloc[rows, columns]', lambda f: f.iloc[1:, :2]), ('.loc[slice]', lambda f: f.loc[f.index[0]:f.index[-1]] if unique and flat and len(f) and f.index.is_monotonic_increasing else None),
        ('.iloc[-k:]', lambda f: f.iloc[-2:]), ('.iloc[::2]', lambda f: f.iloc[::2]), ('[slice]', lambda f: f[1:3]), ('[::-1]', lambda f: f[::-1]),
        ('copy.copy', lambda f: copy.copy(f).shape), ('copy.deepcopy', lambda f: copy.deepcopy(f)), ('.set_flags', lambda f: f.set_flags(allows_duplicate_labels=True)),
        ('.nsmallest', lambda f: f.nsmallest(2, x)), ('.where frame', lambda f: f.where(f.notna())), ('.mask frame', lambda f: f.mask(f.isna(), 0) if len(num) == len(cols) else f[num].mask(f[num].isna(), 0)),
        ('.interpolate', lambda f: f[num].astype('f8').interpolate()), ('.bfill()', lambda f: f.bfill()), ('.sample(n)', lambda f: f.sample(n=min(2, len(f)), random_state=seed)),
        ('.sample(replace)', lambda f: f.sample(n=4, replace=True, random_state=seed)), ('.add_suffix', lambda f: f.add_suffix('_s')), ('.agg dict', lambda f: f.agg({x: 'sum', y: 'max'})),
        ('pd.concat keys', lambda f: pd.concat({'p': f, 'q': f.iloc[:1]})), ('.append', lambda f: f.append(f.iloc[:1])), ('.to_numpy all', lambda f: f.to_numpy()),
        ('.groupby.apply frames', lambda f: f.groupby(x).apply(lambda g: g.head(1))), ('.groupby.get_group', lambda f: f.groupby(x).get_group(f[x].iloc[0])),
        ('.groupby(level)', lambda f: f.groupby(level=0)[[y]].sum()), ('.groupby.rank', lambda f: f.groupby(x)[y].rank()), ('.groupby.nth', lambda f: f.groupby(x).nth(0)),
        ('.groupby(axis)', lambda f: f[num].T.shape), ('.groupby columns', lambda f: [(k, list(g.columns), len(g)) for k, g in f.groupby([x, y])]),
        ('.groupby sliced', lambda f: [g[y].tolist() for _, g in f.iloc[1:].groupby(x)]), ('.groupby masks', lambda f: [g.loc[g[y] > v].shape for _, g in f.groupby(x)]),
        ('.sort_values(reset)', lambda f: f.sort_values(x, ignore_index=True, kind='stable')), ('.sort_index(columns)', lambda f: f.sort_index(axis=1)),
        ('.drop rows', lambda f: f.drop(index=f.index[-1:])), ('.squeeze rows', lambda f: f.iloc[:1].squeeze()), ('.to_dict(index)', lambda f: f.to_dict('index') if unique and flat else None),
        ('.attrs', lambda f: dict(f.attrs)), ('.attrs of a slice', lambda f: dict(f.iloc[1:][some].attrs)), ('.isin frame', lambda f: f.isin(f) if unique else None),
        ('.hist', lambda f: np.histogram(f[x].dropna())[0]), ('.info', info), ('.iloc[mask]', lambda f: f.iloc[m]), ('.query names', lambda f: f.query('rid >= @v', local_dict={'v': v})),
        ('.cov()', lambda f: f[num].cov()), ('.prod', lambda f: f[[x]].prod()), ('.pct_change', lambda f: f[[x]].astype('f8').pct_change()), ('.cumprod', lambda f: f[[x]].cumprod()),
        ('.pivot', lambda f: f.pivot(index='rid', columns=x, values=y) if len({'rid', x, y}) == 3 else None),
        ('no attribute', lambda f: f.no_such_attribute), ('.resample', lambda f: f[num].groupby(np.arange(len(f)) // 2).sum()),
    ]
    ctx_how = ctx.pick(['inner', 'left', 'outer', 'right'])
    return out


def own_labels(f):
    """Index that has no memory in common with a column, as pandas gets confused when such labels change"""
    f.index = f.index.copy(deep=True)
    return f


def info(f):
    out = io.StringIO()
    f.info(buf=out, memory_usage=False)
    return out.getvalue().replace('cheval.ldf.api.LinkedDataFrame', 'pandas.core.frame.DataFrame')


def inserted(f):
    g = f.copy()
    g.insert(0, 'put', 4)
    return g


def changes(ctx, f):
    """Operations that change the frame itself"""
    n, cols = len(f), list(f.columns)
    num = [c for c in cols if f[c].dtype.kind in 'iuf' and c != 'rid'] or ['rid']
    ints = [c for c in num if f[c].dtype == 'i8'] or ['rid']
    x, y, z = ctx.pick(num), ctx.pick(num), ctx.pick(ints)
    k, v = ctx.int(0, max(0, n - 1)), ctx.int(0, 60)
    m = ctx.rng.random(n) < 0.5
    fresh = f'c{ctx.int(0, 99)}'

    def setter(key, value):
        def do(f):
            f[key] = value(f) if callable(value) else value
        return do

    def loc(rows, col, value):
        def do(f):
            f.loc[rows, col] = value
        return do

    def iloc(row, col, value):
        def do(f):
            f.iloc[row, col] = value
        return do

    def aug(f):
        f[z] += 1

    def masked(f):
        f[f[z] > 5] = f[f[z] > 5]

    def delete(f):
        if x != 'rid':
            del f[x]

    def attribute(f):
        setattr(f, z, f[z] + 2)

    def columns(f):
        f.columns = [c if c != x or x == 'rid' else 'other_name' for c in f.columns]

    def relabel(f):
        f.index = np.arange(len(f))[::-1]

    def indexed(f):
        if f.index.name != 'rid':
            f.set_index('rid', drop=False, inplace=True)
            own_labels(f)

    def values(f):
        f[z].to_numpy()[:1] = v  # Through the memory

    def column(f):
        f[z].iloc[:1] = v

    return [
        (f'[{fresh!r}] = scalar', setter(fresh, v)), (f'[{fresh!r}] = array', setter(fresh, np.arange(n) * 1.5)), (f'[{z!r}] = ', setter(z, lambda f: f[z] * 2)),
        ('[list] = ', setter([x, y] if x != y else [x], 1)), (f'.loc[mask, {z!r}] = {v}', loc(m, z, v)), (f'.loc[mask, new] = ', loc(m, fresh, 1.0)),
        (f'.iloc[{k}, 0] = 3', iloc(k, cols.index(z), 3) if n else setter(fresh, 1)), (f'.loc[:, {z!r}] = {v}', loc(slice(None), z, v)),
        (f'[{z!r}] += 1', aug), ('[mask frame] = ', masked), (f'del [{x!r}]', delete), ('.insert', lambda f: f.insert(0, fresh, v) if fresh not in f.columns else None),
        ('.pop', lambda f: f.pop(x) if x != 'rid' else None), ('.drop(inplace)', lambda f: f.drop(columns=[c for c in [x] if c != 'rid'], inplace=True)),
        ('.rename(inplace)', lambda f: f.rename(columns={x: 'nn'} if x != 'rid' else {}, inplace=True)), ('.sort_values(inplace)', lambda f: f.sort_values('rid', ascending=False, inplace=True)),
        ('.fillna(inplace)', lambda f: f.fillna({x: 0}, inplace=True)), ('.reset_index(inplace)', lambda f: f.reset_index(drop=True, inplace=True)),
        ('.set_index(inplace)', indexed), ('.drop_duplicates(inplace)', lambda f: f.drop_duplicates('rid', inplace=True)),
        ('.attribute = ', attribute), ('.columns = ', columns), ('.index = ', relabel), ('.replace(inplace)', lambda f: f.replace({z: {1: 7}}, inplace=True)),
        ('.update', lambda f: f.update(pd.DataFrame({z: [9]}, index=f.index[:1])) if f.index.is_unique and len(f) else None), ('.eval(inplace)', lambda f: f.eval(f'{fresh} = rid + 1', inplace=True)),
        ('.clip(inplace)', lambda f: f.__setitem__(z, f[z].clip(0, 5))), ('values', values), ('column', column), ('.sort_index(inplace)', lambda f: f.sort_index(inplace=True, kind='stable')),
        ('.dropna(inplace)', lambda f: f.dropna(subset=[x], inplace=True)), ('.query(inplace)', lambda f: f.query('rid >= 0', inplace=True)),
        ('.iat = ', lambda f: f.iat.__setitem__((0, cols.index(z)), v) if len(f) else None), ('.at = ', lambda f: f.at.__setitem__((f.index[0], z), v) if len(f) and f.index.is_unique else None),
    ]

# endregion


def attempt(fn, f):
    try:
        return fn(f), None
    except Exception as e:
        return None, e


class Pair:
    def __init__(self, linked, plain, name):
        self.linked, self.plain, self.name = linked, plain, name


def usable(f):
    try:
        return (isinstance(f, pd.DataFrame) and f.columns.is_unique and f.columns.nlevels == 1 and 'rid' in f.columns and f['rid'].dtype.kind == 'i'
                and all(isinstance(c, str) and c.isidentifier() for c in f.columns) and len(f) <= 60)
    except Exception:
        return False


def make(ctx):
    """A frame with links, and a plain frame of the same contents"""
    src = Tab(ctx, 'S', ctx.pick([0, 1, 3, 6, 9]))
    src.add_columns(['int', 'float', ctx.pick(['text', 'cat', 'date', 'bool', 'uint']), ctx.pick(['text', 'int', 'float', 'cat', 'date'])],
                    names=['area', 'pop', 'x', 'y', 'kind', 'flag', 'when', 'cost', 'n_cars', 'label', 'size_', 'value'])
    links = []
    for name in ['link', 'deep'][:ctx.int(0, 2)]:
        dst = Tab(ctx, f'D_{name}', ctx.pick([1, 3, 6]), linked=ctx.chance(0.6)).add_columns()
        links.append((dst, relate(ctx, name, src, dst, agg=ctx.chance(0.3))))
    src.make()
    if ctx.chance(0.5):
        src.frame = type(src.frame)(pd.DataFrame(src.frame).copy())
    plain = pd.DataFrame(src.frame).copy()
    if ctx.chance(0.5):
        plain.attrs.update(made='here', at=[1, 2])
        src.frame.attrs.update(made='here', at=[1, 2])
    for dst, l in links:
        dst.make()
        establish(ctx, l)
    return src, links, plain


def sequences(ctx):
    src, links, plain = make(ctx)
    ctx.note('frame', {c: str(t) for c, t in plain.dtypes.items()}, 'index', plain.index[:6].tolist(), 'links', [l.name for _, l in links])
    pairs = [Pair(src.frame, plain, 'the frame')]
    for i in range(ctx.int(3, 8)):
        at = ctx.int(0, len(pairs) - 1)
        p = pairs[at]
        change = ctx.chance(0.3)
        name, fn = ctx.pick((changes if change else queries)(ctx, p.plain))
        what = f'step {i}: frame {at} {name}'
        ctx.note(what)
        (want, e_want), (got, e_got) = attempt(fn, p.plain), attempt(fn, p.linked)
        ctx.count('operations')
        ctx.count('inplace', change)
        if e_want is not None:
            ctx.check(e_got is not None, f'{what}: a plain frame raises {e_want!r}, but this one returns {str(got)[:200]}')
            ctx.check(type(e_got) is type(e_want), f'{what}: raises {e_got!r} instead of {e_want!r}')
            ctx.count('plain_failed')
            if change:
                break
        else:
            ctx.check(e_got is None, f'{what}: raises {type(e_got).__name__}: {str(e_got)[:200]}, while a plain frame does not')
            same(ctx, got, want, what)
            if usable(want) and got is not p.linked and len(pairs) < 5:
                pairs.append(Pair(got, want, what))
        for j, q in enumerate(pairs):
            same_table(ctx, q.linked, q.plain, f'{what}: frame {j} afterwards')
            ctx.count('frames_alive')
        pairs = [q for q in pairs if usable(q.plain)]
        if not pairs:
            break
    ctx.sig(ctx.trace, plain.to_csv())


def each(ctx):
    """One operation, after which cells of the result are changed"""
    src, links, plain = make(ctx)
    ops = queries(ctx, plain)
    name, fn = ops[ctx.case % len(ops)]
    ctx.note('frame', {c: str(t) for c, t in plain.dtypes.items()}, 'index', plain.index[:6].tolist(), 'operation', name)
    linked = src.frame
    (want, e_want), (got, e_got) = attempt(fn, plain), attempt(fn, linked)
    ctx.count('operations')
    if e_want is not None:
        ctx.check(type(e_got) is type(e_want), f'{name}: {"raises " + repr(e_got) if e_got else "returns " + str(got)[:200]} instead of raising {e_want!r}')
        ctx.count('plain_failed')
    else:
        ctx.check(e_got is None, f'{name}: raises {type(e_got).__name__}: {str(e_got)[:200]}, while a plain frame does not')
        same(ctx, got, want, name)
        if isinstance(want, (pd.DataFrame, pd.Series)) and want.size:
            row = ctx.int(0, len(want) - 1)
            for c in range(want.shape[1] if want.ndim == 2 else 1):
                for r in (want, got):
                    s = r.iloc[:, c] if r.ndim == 2 else r
                    if s.dtype.kind in 'iuf':
                        if r.ndim == 2:
                            r.iloc[row, c] = 77
                        else:
                            r.iloc[row] = 77
            ctx.count('inplace')
            same(ctx, got, want, f'{name}, changed')
    same_table(ctx, linked, plain, f'{name}: the frame afterwards')
    ctx.count('frames_alive')
    for dst, l in links:
        if l.agg or not dst.columns:
            continue
        if e_want is None and isinstance(want, (pd.DataFrame, pd.Series)) and shared(plain, want):
            continue  # So that the keys were changed as well
        attr = ctx.pick(list(dst.columns))
        same_list(ctx, access(ctx, linked, [l], attr), looked_up([l], attr, list(range(src.n))), f'{l.name}.{attr} after {name}')
        ctx.count('lookups')
    ctx.sig(ctx.trace, plain.to_csv())


def shared(plain, result):
    """Whether any of their numeric data share memory"""
    def arrays(f):
        columns = [f.iloc[:, i] if f.ndim == 2 else f for i in range(f.shape[1] if f.ndim == 2 else 1)]
        return [s.to_numpy() for s in columns if s.dtype.kind in 'iuf' and s.size]
    return any(np.shares_memory(a, b) for a in arrays(plain) for b in arrays(result))


def readers(ctx):
    """Reading and writing"""
    from cheval import LinkedDataFrame
    n = ctx.int(0, 8)
    frame = pd.DataFrame({'id': np.arange(n), 'text': [ctx.pick(['a', 'bb', 'c d']) for _ in range(n)], 'num': ctx.dyadic(n) if n else np.empty(0),
                          'flag': ctx.rng.random(n) < 0.5})
    folder = tempfile.mkdtemp(prefix='l10_')
    path = os.path.join(folder, 'data.txt')
    try:
        kw = ctx.pick([{}, {'index_col': 'id'}, {'usecols': ['id', 'num']}, {'nrows': 2}, {'dtype': {'num': 'f4'}}])
        how = ctx.pick(['read_csv', 'read_table', 'read_fwf', 'read_', 'read_json'])
        if how == 'read_table':
            frame.to_csv(path, sep='\t', index=False)
        elif how == 'read_fwf':
            with open(path, 'w') as f:
                f.write(frame.to_string(index=False, justify='left') if n else 'id text num flag\n')
            kw = {}
        elif how == 'read_json':
            frame.to_json(path)
            kw = {}
        else:
            frame.to_csv(path, index=False)
        name = {'read_': 'csv', 'read_json': 'json'}.get(how)
        want = getattr(pd, f'read_{name}' if name else how)(path, **kw)
        got = LinkedDataFrame.read_(name, path, **kw) if name else getattr(LinkedDataFrame, how)(path, **kw)
        ctx.note(how, name, kw, n)
        ctx.check(isinstance(got, LinkedDataFrame), f'{how} returned a {type(got).__name__}')
        same_table(ctx, got, want, how)
        # It can be linked
        if n and 'num' in got.columns and got.index.is_unique:
            other = pd.DataFrame({'v': np.arange(len(got)) * 2}, index=got.index)
            got.link_to(other, 'other')
            same_list(ctx, got.other.v, other['v'], f'lookup after {how}')
        # And is written as plain frames are
        out = ctx.pick([{}, {'index': False}, {'sep': '|', 'header': False}, {'columns': [want.columns[0]]} if len(want.columns) else {}])
        target = ctx.pick(['text', 'path', 'buffer'])
        if target == 'text':
            texts = [f.to_csv(**out) for f in (got, want)]
        elif target == 'path':
            texts = []
            for i, f in enumerate((got, want)):
                ctx.check(f.to_csv(f'{path}.{i}', **out) is None, 'to_csv(path) returned something')
                texts.append(open(f'{path}.{i}').read())
        else:
            buffers = [io.StringIO(), io.StringIO()]
            for b, f in zip(buffers, (got, want)):
                f.to_csv(b, **out)
            texts = [b.getvalue() for b in buffers]
        ctx.check(texts[0] == texts[1], f'to_csv({out}): {texts[0][:200]!r} instead of {texts[1][:200]!r}')
        ctx.count('readers')
        ctx.sig(how, kw, n, out, target, texts[1])
    finally:
        for f in os.listdir(folder):
            os.remove(os.path.join(folder, f))
        os.rmdir(folder)


SCENARIOS = [
    Scenario('each', each, 3600, 36000),
    Scenario('sequences', sequences, 900, 15000),
    Scenario('readers', readers, 200, 2000),
]
