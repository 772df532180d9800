"""Pivot tables of linked attributes equal those of plain columns"""
import math

import numpy as np
import pandas as pd

from rtm.checks.l04 import World
from rtm.core import Scenario, is_missing, same_frame
from rtm.exprs import Gen

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a frame with columns of many types and links to other tables (lookups over one or two links, and aggregations), '
        'which is pivoted by columns, linked attributes, aggregations and random expressions over them, one or several each. The result is '
        'compared cell by cell with a pivot table of a plain frame whose columns were computed from a reference of the relations. '
        'Distinct by arguments.')
ASSUMPTIONS = ['pandas pivots plain tables properly', 'text of linked attributes may be given as bytes']
MINIMUM = {'pivots': 1200, 'linked_items': 700, 'aggregated_items': 150, 'expressions': 400, 'cells': 6000, 'several': 400, 'two_dimensions': 400,
           'all_columns': 50, 'filtered': 200}


def decoded(v):
    return v.decode() if isinstance(v, bytes) else v


def flat(labels):
    """Labels in a comparable form"""
    return [tuple(decoded(x) for x in l) if isinstance(l, tuple) else decoded(l) for l in labels]


def key(l):
    return repr(tuple(plain(x) for x in l) if isinstance(l, tuple) else plain(l))


def plain(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return round(float(x), 6) + 0.0
    return x


def cells(result):
    """{(row label, column label): value}"""
    rows, cols = [key(l) for l in flat(result.index)], [key(l) for l in flat(result.columns)]
    values = result.to_numpy(dtype=object)
    return rows, cols, values


def compare(ctx, got, want, what, tol):
    if isinstance(want, pd.Series):
        want = want.to_frame()
    if isinstance(got, pd.Series):
        got = got.to_frame()
    gr, gc, gv = cells(got)
    wr, wc, wv = cells(want)
    ctx.check(gr == wr, f'{what}: rows {gr[:12]} instead of {wr[:12]}')
    ctx.check(gc == wc, f'{what}: columns {gc[:12]} instead of {wc[:12]}')
    ctx.check(list(got.index.names) == list(want.index.names), f'{what}: names of rows {got.index.names} instead of {want.index.names}')
    ctx.check(list(got.columns.names) == list(want.columns.names), f'{what}: names of columns {got.columns.names} instead of {want.columns.names}')
    ctx.count('cells', wv.size)
    for i in range(wv.shape[0]):
        for j in range(wv.shape[1]):
            g, w = decoded(gv[i, j]), decoded(wv[i, j])
            if is_missing(g) and is_missing(w):
                continue
            same = False
            if isinstance(g, str) or isinstance(w, str):
                same = g == w
            elif not is_missing(g) and not is_missing(w):
                same = g == w or abs(float(g) - float(w)) <= tol * max(1, abs(float(w)))
            ctx.check(same, f'{what}: row {wr[i]}, column {wc[j]}: {g!r} instead of {w!r}')


class Items:
    """What can be pivoted by: text -> values"""

    def __init__(self, ctx, world):
        self.ctx, self.world = ctx, world
        self.frame, self.n = world.frame, world.src.n
        self.gen = Gen(ctx, world.terms)
        self.own = [c for c in self.frame.columns if isinstance(self.frame[c].dtype, np.dtype) or str(self.frame[c].dtype) == 'category']
        self.plain = pd.DataFrame(self.frame).copy(deep=True)
        self.linked = [t for t in world.terms if t.text in world.linked | world.aggregated]
        self.used = {}

    def labels(self):
        """For rows and columns: columns with few different values, linked attributes and boolean expressions"""
        ctx = self.ctx
        k = ctx.pick(['own', 'linked', 'linked', 'expression'])
        if k == 'linked':
            ts = [t for t in self.linked if t.typ in ('text', 'bool', 'num')]
            if ts:
                return self.take(ctx.pick(ts))
        if k == 'expression' and self.gen.nums:
            node = self.gen.boolean(1)
            if node.uses and node.text not in self.frame.columns:
                return self.take_node(node)
        return self.take_own([c for c in self.own if self.frame[c].dtype.kind in 'iub' or self.frame[c].dtype == object or
                              str(self.frame[c].dtype) == 'category'])

    def values(self):
        ctx = self.ctx
        k = ctx.pick(['own', 'linked', 'linked', 'expression'])
        if k == 'linked':
            ts = [t for t in self.linked if t.typ in ('num', 'gap')]
            if ts:
                return self.take(ctx.pick(ts))
        if k == 'expression' and self.gen.nums:
            for _ in range(10):
                node = self.gen.num(ctx.pick([1, 1, 2]))
                v = np.asarray(node.value)
                if node.uses and node.text not in self.frame.columns and np.isfinite(v).all() and np.abs(v).max() < 1e5:
                    return self.take_node(node)
        return self.take_own([c for c in self.own if self.frame[c].dtype.kind in 'iuf'])

    def take_own(self, names):
        name = self.ctx.pick(names)
        self.used[name] = None
        return name

    def take(self, term):
        self.used[term.text] = np.broadcast_to(term.value, (self.n, 1))[:, 0]
        self.ctx.count('aggregated_items' if term.text in self.world.aggregated else 'linked_items')
        return term.text

    def take_node(self, node):
        self.used[node.text] = np.broadcast_to(node.value, (self.n, 1))[:, 0]
        self.ctx.count('expressions')
        return node.text

    def reference(self):
        out = self.plain.copy()
        for text, v in self.used.items():
            if v is not None:
                if v.dtype == object:
                    v = [decoded(x) for x in v]
                out[text] = np.asarray(v) if not isinstance(v, list) else pd.Series(v, index=out.index, dtype=object).to_numpy()
        return out


def shape(ctx, items):
    """One item, or several of them as list"""
    if len(items) == 1 and ctx.chance(0.6):
        return items[0]
    ctx.count('several', len(items) > 1)
    return list(items)


def distinct(fn, k, taken):
    out = []
    for _ in range(k):
        for _ in range(6):
            v = fn()
            if v not in taken:
                taken.add(v)
                out.append(v)
                break
    return out


def pivots(ctx):
    world = World(ctx, n=ctx.pick([1, 3, 8, 20, 40]))
    if ctx.chance(0.4):  # Columns whose names aren't identifiers
        for name in ctx.rng.permutation(['two words', '1 + 1', 'zone.total', 'a-b', '2021'])[:2]:
            world.frame[str(name)] = ctx.rng.integers(0, 4, world.src.n)
    items = Items(ctx, world)
    before = [(t, pd.DataFrame(t.frame).copy(deep=True)) for t in world.tabs]
    links = {name: world.frame.get_link_target(name) for name in world.src.links}
    for _ in range(ctx.int(2, 4)):
        items.used = {}
        taken = set()
        index = distinct(items.labels, ctx.pick([1, 1, 2, 3]), taken)
        columns = distinct(items.labels, ctx.pick([0, 1, 1, 2]), taken)
        values = distinct(items.values, ctx.pick([1, 1, 2, 3, 6]), taken)
        if not index or not values:
            continue
        kw = {'index': shape(ctx, index), 'values': shape(ctx, values)}
        if columns:
            kw['columns'] = shape(ctx, columns)
            ctx.count('two_dimensions')
        if ctx.chance(0.15) and 'columns' not in kw:
            kw = {'columns': kw['index'], 'values': kw['values']}
        k = ctx.pick(['default', 'one', 'one', 'several', 'dict', 'callable'])
        if k == 'one':
            kw['aggfunc'] = ctx.pick(['sum', 'max', 'min', 'count', 'first', 'median', 'mean'])
        elif k == 'several':
            kw['aggfunc'] = [str(s) for s in ctx.rng.permutation(['sum', 'max', 'min', 'count'])[:2]]
        elif k == 'dict':
            kw['aggfunc'] = {v: ctx.pick(['sum', 'max', 'count']) for v in values}
        elif k == 'callable':
            kw['aggfunc'] = ctx.pick([np.sum, np.max, len])
        if ctx.chance(0.3):
            kw['fill_value'] = ctx.pick([0, -7])
        if ctx.chance(0.2):
            kw['dropna'] = False
        if ctx.chance(0.15) and k in ('default', 'one') and len(values) == 1 and 'columns' in kw:
            kw['margins'] = True
        plain, frame = items.reference(), world.frame
        if ctx.chance(0.25):  # Some of the rows
            mask = ctx.rng.random(items.n) < 0.6
            mask[ctx.int(0, items.n - 1)] = True
            plain, frame = plain.loc[mask], frame.loc[mask]
            ctx.count('filtered')
        ctx.note('pivot_table', {a: (v if not callable(v) else v.__name__) for a, v in kw.items()})
        try:
            want = plain.pivot_table(**kw)
        except Exception as e:  # Something that pandas can't do
            ctx.count('unsupported')
            ctx.note('pandas:', type(e).__name__, str(e)[:100])
            continue
        if kw.get('dropna') is False and want.size > 20000:
            continue
        got = frame.pivot_table(**kw)
        single = any(any(s in t for s in world.single) for t in items.used)
        big = max((float(np.nanmax(np.abs(pd.to_numeric(plain[v], errors='coerce')))) if len(plain) else 0 for v in values), default=0)
        tol = 1e-4 * max(1, 0 if math.isnan(big) else big) if single else 1e-7
        compare(ctx, got, want, f'pivot_table {kw}', tol)
        ctx.count('pivots')
        ctx.sig(kw, want.shape)
    for t, b in before:
        same_frame(ctx, pd.DataFrame(t.frame), b, f'table {t.name} after pivoting')
    for name, target in links.items():
        ctx.check(world.frame.get_link_target(name) is target, f'link {name} has another target after pivoting')
    ctx.check(sorted(world.frame.link_summary().index) == sorted(links), 'links changed by pivoting')


def all_columns(ctx):
    """Without values, all of the (remaining) numeric columns are pivoted. Groups can also be given as series or arrays"""
    world = World(ctx, n=ctx.pick([3, 8, 20]))
    items = Items(ctx, world)
    if len(items.own) < world.frame.shape[1]:
        return
    numeric = [c for c in items.own if items.frame[c].dtype.kind in 'iuf']
    k = ctx.pick(['all', 'series', 'array'])
    if k == 'all':
        index = items.labels()
        kw = {'index': shape(ctx, [index]), 'aggfunc': ctx.pick(['sum', 'mean', 'max'])}
        want = items.reference()
        keep = numeric + [c for c in [index] if c not in numeric]
        want = want[keep].pivot_table(**kw)
        ctx.note(kw)
        got = world.frame.pivot_table(**kw)
        got = got[[c for c in got.columns if c in numeric]]  # Whether there are others depends on pandas
        want = want[[c for c in want.columns if c in got.columns or c in numeric]]
    else:
        groups = ctx.rng.integers(0, 3, world.src.n)
        by = pd.Series(groups, index=world.frame.index, name='group') if k == 'series' else groups
        if k == 'series' and not world.frame.index.is_unique:
            return
        v = items.values()
        kw = {'index': by, 'values': v, 'aggfunc': 'sum'}
        ctx.note(k, v)
        want = items.reference().pivot_table(**kw)
        got = world.frame.pivot_table(**kw)
    compare(ctx, got, want, f'pivot_table {k}', 2e-3)
    ctx.count('all_columns')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('pivots', pivots, 700, 10000),
    Scenario('all_columns', all_columns, 160, 2000),
]
