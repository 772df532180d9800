"""Aggregations over links are those of the linked rows"""
import math

import numpy as np
import pandas as pd

from rtm.core import Scenario, is_missing, same_frame
from rtm.exprs import Gen, Sym
from rtm.frames import Tab, aggregate, establish, follow, gen_values, looked_up, relate, same_list

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random relation between two tables with repeated keys on the other side (of one to three components, of all '
        'types, in columns or indexes, with rows that are linked to nothing and rows without keys), possibly at the end of a chain of '
        'lookups. Columns and expressions get aggregated by all of the supported functions, and are compared row by row with an '
        'aggregation in plain Python. Distinct by relation, function and expression.')
ASSUMPTIONS = ['integers stay within the range of their type', 'the fill value of aggregated integers is -1, unless given']
MINIMUM = {'aggregations': 5500, 'filled_rows': 3000, 'groups': 10000, 'expressions': 700, 'chained': 400, 'multi_key': 400,
           'linked_expressions': 100, 'changed_columns': 200, 'further_arguments': 2000}
FUNCS = ['max', 'min', 'mean', 'median', 'prod', 'std', 'sum', 'var', 'quantile', 'count', 'first', 'last', 'nth']
FREE = ['count', 'first', 'last', 'nth']


class Term:
    """What gets aggregated: its values by row of the target, and its type"""

    def __init__(self, text, values, kind, exact=True, col=None):
        self.text, self.values, self.kind, self.exact, self.col = text, values, kind, exact, col


def column_term(ctx, dst, attr=None):
    attr = attr or ctx.pick([a for a, c in dst.columns.items() if c.kind != 'date'] or ['rid'])
    if attr == 'rid':
        return Term(attr, list(range(dst.n)), 'int')
    col = dst.columns[attr]
    return Term(attr, col.values, col.kind, col.dtype != 'f4', col)


def number_columns(dst, kinds=('int', 'float')):
    return [a for a, c in dst.columns.items() if c.kind in kinds and a.isidentifier() and not any(is_missing(v) for v in c.values)]


def expression_term(ctx, dst):
    """An expression over the columns of the target"""
    ints = [a for a in number_columns(dst, ('int',)) if dst.columns[a].dtype in ('i4', 'i8')]
    nums = number_columns(dst)
    bools = [a for a, c in dst.columns.items() if c.kind == 'bool' and a.isidentifier()]
    k = ctx.pick(['one', 'int', 'float', 'gen', 'gen'])
    if k == 'one' or not nums:
        return Term(ctx.pick([None, '1', '2', '0']), None, 'int')
    if k == 'int' and ints:
        a, b = ctx.pick(ints), ctx.pick(ints)
        text, fn = ctx.pick([(f'{a} + {b}', lambda x, y: x + y), (f'{a} * 2 - {b}', lambda x, y: x * 2 - y), (f'-{a}', lambda x, y: -x),
                             (f'({a} + 1) * 3', lambda x, y: (x + 1) * 3), (f'{a} - {b} - 1', lambda x, y: x - y - 1)])
        return Term(text, [fn(x, y) for x, y in zip(dst.columns[a].values, dst.columns[b].values)], 'int')
    if k == 'gen' and dst.linked:
        texts = [a for a, c in dst.columns.items() if c.kind == 'text' and a.isidentifier() and all(isinstance(v, str) for v in c.values)]
        terms = [Sym(a, np.array(dst.columns[a].values, dtype=float)[:, None], 'num', a) for a in nums] + \
                [Sym(a, np.array(dst.columns[a].values, dtype=bool)[:, None], 'bool', a) for a in bools] + \
                [Sym(a, np.array(dst.columns[a].values, dtype=object)[:, None], 'text', a) for a in texts]
        for _ in range(10):
            node = Gen(ctx, terms).num(ctx.pick([1, 2, 2]))
            if np.isfinite(node.value).all() and np.abs(node.value).max() < 1e4:
                return Term(f'1.0 * ({node.text})', np.broadcast_to(node.value, (dst.n, 1))[:, 0].tolist(), 'float', False)
    a, b = ctx.pick(nums), ctx.pick(nums)
    return Term(f'{a} * 0.5 + {b}', [x * 0.5 + y for x, y in zip(dst.columns[a].values, dst.columns[b].values)], 'float', False)


def expected(term, func, link, rows, int_fill, q, nth, more=()):
    """For rows of the source of the link (or None). Also tells how many of them were filled"""
    out, filled = [], 0
    whole = term.kind == 'int' or func == 'count'
    fill = int_fill if whole else math.nan
    for r in rows:
        group = [] if r is None else link.match[r]
        if group:
            v = aggregate([term.values[g] for g in group], func, q, nth, *more)
            if v is Ellipsis:
                v, filled = fill, filled + 1
        else:
            v = fill
            filled += 1
        out.append(v)
    return out, filled


def judge(ctx, frame, lookups, link, term, func, rows, what, spoil=True, held=None):
    """lookups: the chain of links which leads to the frame that has the link"""
    dst = link.dst
    if term.values is None:
        term = Term(term.text, [int(term.text or 1)] * dst.n, 'int')
    kw, q, nth, int_fill = {}, 0.5, 1, -1
    if func == 'quantile' and ctx.chance(0.5):
        q = kw['q'] = ctx.pick([0, 0.25, 0.5, 0.9, 1])
    if func == 'nth' and ctx.chance(0.7):
        nth = kw['n'] = ctx.pick([0, 1, 2, -1, -2])
    if ctx.chance(0.3):
        int_fill = kw['int_fill'] = ctx.pick([0, -99, 7])
    if func == 'prod':
        if any(not is_missing(v) and abs(v) > 12 for v in term.values) or max(map(len, link.match), default=0) > 8:
            func = 'sum'
    more = ()
    if func in ('var', 'std') and ctx.chance(0.4):
        more = (ctx.pick([0, 1, 2]),)
        kw['ddof'] = more[0]
    if func in ('sum', 'prod') and term.kind == 'float' and ctx.chance(0.3):
        more = (1, ctx.pick([0, 1, 2, 3]))
        kw['min_count'] = more[1]
    at = follow(lookups, rows) if lookups else rows
    want, filled = expected(term, func, link, at, int_fill, q, nth, more)
    ctx.count('further_arguments', len(kw))
    if term.kind in ('bool', 'uint', 'date') and filled:
        return False  # The fill value of these is not specified
    node = frame
    for l in lookups + [link]:
        node = getattr(node, l.name) if ctx.chance(0.6) else node[l.name]
    args = () if term.text is None else (term.text,)
    path = '.'.join(l.name for l in lookups + [link]) + f'.{func}{args} {kw}'
    ctx.note(path)
    call = getattr(node, func)
    if held is not None:
        call = held.setdefault((tuple(l.name for l in lookups), func), call)
    got = call(*args, **kw)
    ctx.check(isinstance(got, pd.Series), f'{what}: {path} is a {type(got).__name__}')
    ctx.check(got.index.equals(frame.index), f'{what}: {path} is not aligned: {got.index[:8]} instead of {frame.index[:8]}')
    same_list(ctx, got, want, f'{what}: {path}', 1e-9 if term.exact else 1e-5)
    ctx.count('aggregations')
    ctx.count(f'func_{func}')
    ctx.count('filled_rows', filled)
    ctx.count('groups', len(rows) - filled)
    if spoil and len(got) and ctx.chance(0.2):  # The caller owns the result
        try:
            got.iloc[:] = got.iloc[0]
            got.values[...] = 3
        except (TypeError, ValueError):
            pass
    return True


def suits(term, func):
    if func in FREE:
        return term.kind != 'date'
    return term.kind in ('int', 'uint', 'float', 'bool')


def pick_func(ctx, term):
    if term.kind == 'bool':
        return ctx.pick(['sum', 'mean', 'count', 'first', 'last'])
    return ctx.pick([f for f in FUNCS if suits(term, f)])


def setup(ctx, hops=0, sizes=(1, 2, 4, 7, 12), m=None, **kw):
    tabs = [Tab(ctx, f'T{i}', ctx.pick(sizes)) for i in range(hops + 1)]
    dst = Tab(ctx, 'D', m or ctx.pick([2, 5, 9, 20]), linked=ctx.chance(0.6))
    names = [str(s) for s in ctx.rng.permutation(['hh', 'zone', 'l_1', 'owner', 'to', 'persons', 'trips', 'tbl'])]
    lookups = [relate(ctx, names[i], tabs[i], tabs[i + 1]) for i in range(hops)]
    link = relate(ctx, names[-1], tabs[-1], dst, agg=True, **kw)
    for t in tabs + [dst]:
        t.add_columns(names=['area', 'pop', 'y', 'kind', 'flag', 'when', 'cost', 'n_cars', 'label', 'size_', 'value', 'two words', 'a-b', '2021', 'pop + y'])
    for t in tabs + [dst]:
        t.make()
    return tabs, dst, lookups, link


def connect(ctx, lookups, link):
    from cheval.ldf.constants import LinkAggregationRequired
    for i in ctx.rng.permutation(len(lookups) + 1):
        l = (lookups + [link])[i]
        flag = establish(ctx, l)
        ctx.check(bool(flag) == (l.agg), f'link {l.name}: aggregation is {flag}')
        ctx.count('multi_key', len(l.how[1]) > 1)


def direct(ctx):
    tabs, dst, lookups, link = setup(ctx, ctx.pick([0, 0, 0, 1, 2]))
    if not link.agg:
        return
    connect(ctx, lookups, link)
    before = [pd.DataFrame(t.frame).copy(deep=True) for t in tabs + [dst]]
    held = {} if ctx.chance(0.4) else None
    for _ in range(ctx.int(3, 8)):
        start = ctx.int(0, len(lookups))
        term = column_term(ctx, dst) if ctx.chance(0.7) else expression_term(ctx, dst)
        if judge(ctx, tabs[start].frame, lookups[start:], link, term, pick_func(ctx, term), list(range(tabs[start].n)), 'aggregation',
                 held=held):
            ctx.count('chained', start < len(lookups))
            ctx.count('expressions', term.col is None)
    for t, b in zip(tabs + [dst], before):
        same_frame(ctx, pd.DataFrame(t.frame), b, f'table {t.name} after aggregations')
    ctx.sig(ctx.trace)


def linked(ctx):
    """The aggregated expression follows links of the target itself"""
    src, dst, far = Tab(ctx, 'S', ctx.int(1, 8)), Tab(ctx, 'D', ctx.int(2, 14)), Tab(ctx, 'F', ctx.int(1, 6), linked=ctx.chance(0.5))
    link = relate(ctx, 'many', src, dst, agg=True)
    look = relate(ctx, 'far', dst, far, missing=ctx.chance(0.5))
    back = relate(ctx, 'below', dst, Tab(ctx, 'B', ctx.int(2, 9)), agg=True)
    for t in (src, dst, far, back.dst):
        t.add_columns(['int', 'float', 'int', 'bool'], missing=0)
        t.make()
    if not link.agg:
        return
    for l in (link, look, back):
        establish(ctx, l)
    for _ in range(4):
        own, attr = ctx.pick(number_columns(dst)), ctx.pick(number_columns(far, ('int',)))
        theirs = looked_up([look], attr, list(range(dst.n)))
        k = ctx.pick(['lookup', 'where', 'aggregation'])
        if k == 'lookup':
            text, fn = f'1.0 * {own} + far.{attr}', lambda a, b: a + b
        elif k == 'where':
            text, fn = f'where(far.{attr} > 0, 1.0 * {own}, 0)', lambda a, b: a if b > 0 else 0
        elif not back.agg:
            continue
        else:
            attr = ctx.pick(number_columns(back.dst, ('int',)))
            theirs, _ = expected(column_term(ctx, back.dst, attr), 'sum', back, range(dst.n), -1, 0, 0)
            text, fn = f'0.5 * {own} - below.sum({attr})', lambda a, b: 0.5 * a - b
        term = Term(text, [fn(a, b) for a, b in zip(dst.columns[own].values, theirs)], 'float', False)
        judge(ctx, src.frame, [], link, term, ctx.pick(['sum', 'mean', 'max', 'first', 'count', 'median']), list(range(src.n)), 'aggregation')
        ctx.count('linked_expressions')
    ctx.sig(ctx.trace)


def changed(ctx):
    """The same aggregations again, after values of the other table (or its columns) changed"""
    tabs, dst, lookups, link = setup(ctx, ctx.pick([0, 0, 1]))
    if not link.agg:
        return
    connect(ctx, lookups, link)
    texts, nums = ['rid', ctx.pick(sorted(dst.columns))], number_columns(dst)
    for _ in range(ctx.int(1, 4) if nums else 0):
        a, b = ctx.pick(nums), ctx.pick(nums)
        texts.append(ctx.pick([a, f'1.0 * {a} + 0.5 * {b}', f'{a} * 2.0']))
    rows = list(range(tabs[0].n))
    for i in range(ctx.int(2, 4)):
        if i:
            for attr in ctx.rng.permutation(sorted(dst.columns))[:ctx.int(1, 3)]:
                attr = str(attr)
                col = gen_values(ctx, dst.n, ctx.pick([dst.columns[attr].kind] * 3 + ['int', 'float']) if attr in number_columns(dst)
                                 else dst.columns[attr].kind)
                ctx.note('new values of', attr, col.kind)
                dst.frame[attr] = col.data()
                dst.columns[attr] = col
            ctx.count('changed_columns')
        for text in texts:
            term = parsed_term(dst, text)
            if term is None:
                continue
            judge(ctx, tabs[0].frame, lookups, link, term, pick_func(ctx, term), rows, f'aggregation after {i} changes')
    ctx.sig(ctx.trace)


def parsed_term(dst, text):
    if text in dst.columns or text == 'rid':
        return column_term(None, dst, text) if text == 'rid' or dst.columns[text].kind != 'date' else None
    names = [a for a in dst.columns if a in text.split()]
    env = {a: dst.columns[a].values for a in names}
    values = [eval(text, {'__builtins__': {}}, {a: v[i] for a, v in env.items()}) for i in range(dst.n)]
    return Term(text, values, 'float', False)


def refused(ctx):
    """Text has no sum"""
    tabs, dst, lookups, link = setup(ctx)
    if not link.agg:
        return
    connect(ctx, lookups, link)
    frame = tabs[-1].frame
    for attr, c in dst.columns.items():
        func = ctx.pick([f for f in FUNCS if f not in FREE])
        if c.kind in ('text', 'cat', 'object', 'date'):
            ctx.raises(Exception, lambda: getattr(frame[link.name], func)(attr), f'{func} of a column of type {c.kind}')
            ctx.count('refused')
    ctx.raises(Exception, lambda: frame[link.name].sum('no_such_column'), 'aggregation of a column that does not exist')
    ctx.raises(AttributeError, lambda: frame[link.name].no_such_function('rid'), 'unknown aggregation')
    ctx.raises(Exception, lambda: getattr(frame[link.name], 'rid'), 'lookup through a link to many rows')
    ctx.raises(Exception, lambda: frame[link.name]['rid'], 'lookup through a link to many rows')
    judge(ctx, frame, [], link, column_term(ctx, dst), 'count', list(range(tabs[-1].n)), 'afterwards')
    ctx.sig(ctx.trace, list(dst.columns))


def big(ctx):
    tabs, dst, lookups, link = setup(ctx, ctx.pick([0, 1]), sizes=(200, 1000), m=ctx.pick([500, 3000]))
    if not link.agg:
        return
    connect(ctx, lookups, link)
    for _ in range(3):
        term = column_term(ctx, dst) if ctx.chance(0.7) else expression_term(ctx, dst)
        judge(ctx, tabs[0].frame, lookups, link, term, pick_func(ctx, term), list(range(tabs[0].n)), 'aggregation')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('direct', direct, 2400, 40000),
    Scenario('linked', linked, 200, 4000),
    Scenario('changed', changed, 300, 5000),
    Scenario('refused', refused, 100, 1500),
    Scenario('big', big, 24, 300),
]
