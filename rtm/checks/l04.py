"""Evaluated expressions equal row-wise evaluation"""
import math

import numpy as np
import pandas as pd

from rtm.checks.l02 import Term, expected
from rtm.core import Scenario, is_missing, same_frame
from rtm.exprs import NAME, Gen, Sym, gen_column
from rtm.frames import Tab, establish, follow, looked_up, relate

SHARDS = {'py': 8}
QUICK = 5
RULE = ('A case is a frame with columns of many types, links to other tables (lookups over one or two links, and aggregations of '
        'columns or expressions) and local values, over which random expressions of the supported language are evaluated. Each '
        'expression is generated together with its values, computed by NumPy from a reference of the relations. Distinct by text.')
ASSUMPTIONS = ['comparisons of the generated expressions have no rounding errors', 'text consists of ASCII characters']
MINIMUM = {'evaluations': 4000, 'values_compared': 25000, 'with_links': 1200, 'with_aggregations': 500, 'with_locals': 500, 'with_out': 300,
           'refused': 300, 'boolean_results': 200, 'filtered': 250, 'without_rows': 60}
LOCAL_NAMES = ['beta', 'k_1', 'local', 'coef', 'w_']
OWN = ['cost', 'x', 'x1', 'size_', 'name', 'flag', 'Kind', 'sub_x', 'dict0', 'out', 'y_2', 'n', 'd']


class World:
    def __init__(self, ctx, n=None, links=True, index=None):
        self.ctx = ctx
        self.src = src = Tab(ctx, 'S', n or (ctx.pick([1, 2, 4, 9, 20]) if index is None else len(index)))
        if index is not None:
            src.index = (list(index.names), [index.get_level_values(i) for i in range(index.nlevels)])
        self.terms, self.single = [], set()
        self.linked, self.aggregated, self.func = set(), set(), None
        tabs = [src]
        jobs = []
        for i in range(ctx.int(0, 2) if links else 0):
            dst = Tab(ctx, f'D{i}', ctx.pick([1, 3, 8]), linked=ctx.chance(0.7))
            tabs.append(dst)
            l = relate(ctx, ctx.pick(['zone', 'hh', 'home', 'to']) + str(i), src, dst)
            jobs.append(([l], None))
            if dst.linked and ctx.chance(0.5):
                far = Tab(ctx, f'F{i}', ctx.pick([2, 6]), linked=ctx.chance(0.5))
                tabs.append(far)
                jobs.append(([l, relate(ctx, 'far', dst, far)], None))
            if dst.linked and ctx.chance(0.4):
                low = Tab(ctx, f'L{i}', ctx.pick([4, 9]))
                tabs.append(low)
                below = relate(ctx, 'below', dst, low, agg=True)
                jobs.append(([l], below) if below.agg else ([l, below], None))
        if links and ctx.chance(0.6):
            many = Tab(ctx, 'M', ctx.pick([4, 12]), linked=ctx.chance(0.6))
            tabs.append(many)
            l = relate(ctx, 'many', src, many, agg=True)
            jobs.append(([], l) if l.agg else ([l], None))
        for t in tabs:
            kinds = [ctx.pick(['int', 'float', 'bool', 'text', 'cat', 'int', 'float']) for _ in range(ctx.int(2, 4))]
            t.add_columns(kinds, names=['area', 'pop', 'y', 'kind', 'when', 'cost', 'n_cars', 'label', 'value', 'x', 'a']
                          if t is not src else ['own_a', 'own_b', 'own_c', 'own_d'])
            t.make()
        for t in tabs:
            for l in t.links.values():
                establish(ctx, l)
        self.tabs, self.jobs = tabs, jobs
        self.frame = src.frame
        rows = list(range(src.n))
        for name in ctx.rng.permutation(OWN)[:ctx.int(2, 5)]:
            data, values, typ = gen_column(ctx, src.n)
            self.frame[str(name)] = data
            self.add(str(name), values, typ, str(getattr(data, 'dtype', '')))
        for chain, agg in jobs:
            if agg is None:
                for attr, col in chain[-1].dst.columns.items():
                    self.add_values('.'.join([l.name for l in chain] + [attr]), looked_up(chain, attr, rows), col, self.linked)
            else:
                for _ in range(ctx.int(2, 4)):
                    self.add_aggregation(chain, agg, rows)

    def add(self, text, values, typ, dtype=''):
        self.terms.append(Sym(text, np.asarray(values)[:, None], typ, text))
        if dtype in ('f4', 'float32'):
            self.single.add(text)

    def add_values(self, text, values, col, group):
        kind = col.kind
        if kind in ('text', 'cat'):
            self.add(text, np.array(['' if is_missing(v) else v for v in values], dtype=object), 'text')
        elif kind == 'bool':
            self.add(text, np.array(values, dtype=bool), 'bool')
        elif kind in ('int', 'float', 'uint'):
            v = np.array(values, dtype=float)
            self.add(text, v, 'gap' if np.isnan(v).any() else 'num', 'f4' if col.dtype == 'f4' else '')
        group.add(text)

    def add_aggregation(self, chain, agg, rows):
        ctx = self.ctx
        nums = [a for a, c in agg.dst.columns.items() if c.kind in ('int', 'float') and not any(is_missing(v) for v in c.values)]
        # Often, the same function is applied to several columns or expressions
        func = self.func if self.func and ctx.chance(0.5) else ctx.pick(['sum', 'max', 'min', 'mean', 'count', 'first', 'last', 'median'])
        self.func = func
        if nums and ctx.chance(0.8):
            attr = ctx.pick(nums)
            col = agg.dst.columns[attr]
            if ctx.chance(0.5):
                text, term = attr, Term(attr, col.values, col.kind)
            else:
                text, term = ctx.pick([(f'{attr} * 0.5', lambda v: v * 0.5), (f'{attr} + {attr} * 0.25', lambda v: v + v * 0.25),
                                       (f'({attr} - 1.5) * 2', lambda v: (v - 1.5) * 2)])
                term = Term(text, [term(v) for v in col.values], 'float')
            single = col.dtype == 'f4'
        else:
            # Without an argument, a constant gets aggregated
            text, term, single = ctx.pick(['', '1']), Term('1', [1] * agg.dst.n, 'int'), False
        at = follow(chain, rows) if chain else rows
        want, _ = expected(term, func, agg, at, -1, 0.5, 1)
        v = np.array(want, dtype=float)
        if not np.isfinite(v[~np.isnan(v)]).all():
            return
        exact = func != 'mean'
        text = '.'.join(l.name for l in chain + [agg]) + f'.{func}({text})'
        self.add(text, v, 'gap' if np.isnan(v).any() or not exact else 'num', 'f4' if single else '')
        self.aggregated.add(text)

    def add_locals(self):
        ctx = self.ctx
        local = {}
        for name in ctx.rng.permutation(LOCAL_NAMES)[:ctx.int(1, 3)]:
            name, k = str(name), ctx.pick(['int', 'float', 'array', 'np'])
            if k == 'array':
                v = ctx.dyadic(self.src.n, 3)
                local[name], values = v, v[:, None]
            else:
                v = {'int': ctx.int(-4, 4), 'float': ctx.pick([0.5, -1.25, 3.0]), 'np': np.float64(0.75)}[k]
                local[name], values = v, np.full((1, 1), float(v))
            self.terms.append(Sym(name, values, 'num', name))
        return local


def tolerance(world, uses):
    return 1e-4 if uses & world.single else 1e-9


def grow(ctx, world, gen):
    for _ in range(40):
        boolean = ctx.chance(0.15)
        node = gen.boolean(2) if boolean else gen.num(ctx.pick([0, 1, 1, 2, 2, 3]))
        v = np.asarray(node.value)
        if not node.uses or len(NAME.findall(node.text)) > 28 or (not boolean and (not np.isfinite(v).all() or np.abs(v).max() > 1e5)):
            continue
        return node, boolean
    return None, None


def random_expressions(ctx):
    world = World(ctx, links=ctx.chance(0.8))
    frame, n = world.frame, world.src.n
    local = world.add_locals() if ctx.chance(0.35) else None
    gen = Gen(ctx, world.terms)
    if not gen.nums:
        return
    before = [pd.DataFrame(t.frame).copy(deep=True) for t in world.tabs]
    for _ in range(ctx.int(2, 6)):
        node, boolean = grow(ctx, world, gen)
        if node is None:
            continue
        want = np.broadcast_to(node.value, (n, 1))[:, 0]
        kw, keep = {}, None
        used = node.uses & set(local or ())
        if local is not None and (used or ctx.chance(0.5)):
            kw['local_dict'] = local
            keep = dict(local)
        if not boolean and ctx.chance(0.2):
            out = ctx.pick([pd.Series(np.full(n, -5.0), index=frame.index), pd.Series(np.zeros(n))])
            if ctx.chance(0.5):  # A column of a block of several ones, or every other value of an array
                out = ctx.pick([lambda: pd.DataFrame(np.zeros((n, 3)))[1], lambda: pd.Series(np.zeros(2 * n)[::2])])()
            kw['out'] = out
            ctx.count('with_out')
        ctx.note('evaluate', node.text, list(kw))
        some = frame
        if 'out' not in kw and not any(isinstance(v, np.ndarray) for v in (local or {}).values()) and ctx.chance(0.2):
            mask = ctx.rng.random(n) < ctx.pick([0.0, 0.4, 0.8])  # Also none of the rows
            some, want = frame.loc[mask], want[mask]
            ctx.count('filtered')
            ctx.count('without_rows', not mask.any())
        got = some.evaluate(node.text, **kw)
        ctx.check(isinstance(got, pd.Series) and got.index.equals(some.index), f'`{node.text}` is not aligned with the frame')
        if boolean:
            ctx.check(got.dtype == bool, f'`{node.text}` has type {got.dtype}')
            ctx.count('boolean_results')
        scale = 1e-4 * max(1, float(np.abs(want.astype(float)).max(initial=0))) if node.uses & world.single else 1e-9
        ctx.equal(got.to_numpy(), want, f'`{node.text}`', tolerance(world, node.uses), scale)
        if 'out' in kw:
            ctx.equal(kw['out'].to_numpy(), want, f'out= of `{node.text}`', tolerance(world, node.uses), scale)
        if keep is not None:
            ctx.check(set(keep) == set(local), f'local values became {sorted(local)}')
            for k, v in keep.items():
                ctx.check(local[k] is v, f'local value {k} was replaced')
        ctx.count('evaluations')
        ctx.count('with_links', bool(node.uses & world.linked))
        ctx.count('with_aggregations', bool(node.uses & world.aggregated))
        ctx.count('with_locals', bool(used))
        ctx.sig(node.text, want.tolist())
    for t, b in zip(world.tabs, before):
        same_frame(ctx, pd.DataFrame(t.frame), b, f'table {t.name} after evaluations')


def priority(ctx):
    """Columns go before local values of the same name, which stand for missing columns only"""
    n = ctx.int(1, 6)
    from cheval import LinkedDataFrame
    a, b = ctx.dyadic(n, 4), ctx.dyadic(n, 4)
    frame = LinkedDataFrame({'a': a, 'b': b}, index=ctx.rng.permutation(n) + 3)
    local = {'a': 100.0, 'c': ctx.pick([2.0, 3, ctx.dyadic(n, 2)])}
    keep = dict(local)
    ctx.equal(frame.evaluate('a * 2 + b + c', local_dict=local).to_numpy(), a * 2 + b + local['c'], '`a * 2 + b + c`')
    ctx.check(local.keys() == keep.keys() and all(local[k] is keep[k] for k in keep), 'the dictionary of local values was changed')
    ctx.raises(Exception, lambda: frame.evaluate('a + c'), 'a name that is neither a column nor local')
    ctx.equal(frame.evaluate('a + b').to_numpy(), a + b, '`a + b`')
    ctx.equal(frame.evaluate('where(a > b, NEG_INF, NAN)').to_numpy(), np.where(a > b, -np.inf, np.nan), 'constants')
    ctx.equal(frame.evaluate('where(a > b, -inf, nan)' if False else 'where(a > b, NEG_INF, a)').to_numpy(), np.where(a > b, -np.inf, a), 'constants')
    c = ctx.pick([1, 2.5, 0])
    ctx.equal(frame.evaluate(str(c)).to_numpy(), np.full(n, float(c)), f'the constant {c}')
    frame['c'] = 7.0  # Now there is a column
    ctx.equal(frame.evaluate('a + c', local_dict=local).to_numpy(), a + 7, '`a + c` with a new column')
    ctx.count('evaluations', 5)
    ctx.count('with_locals', 2)
    ctx.count('refused')
    ctx.sig(a.tolist(), b.tolist())


def refused(ctx):
    """Unknown names, links and attributes are refused. Frames can be evaluated as before afterwards"""
    world = World(ctx, n=ctx.pick([2, 5]))
    frame = world.frame
    keep = pd.DataFrame(frame).copy(deep=True)
    own = [t for t in world.terms if t.typ == 'num']
    if not own:
        return
    t = ctx.pick(own).text
    texts = [f'{t} + nothing', 'nothing', f'{t} * nothing.at_all', 'nothing.sum(x)', f'abs({t}, {t})', f'unknown_function({t})',
             f'{t} @ name', '{a: 1}', f'{t} if {t} else 1', f'[{t}]', f'{t}[0]', '', f'{t} +', f'"text" + {t}', f'{t} = 2']
    for chain, agg in world.jobs:
        path = '.'.join(l.name for l in chain + ([agg] if agg else []))
        if agg:
            texts += [f'{t} + {path}.sum(nothing)', f'{path}.rid * 2', f'{path}.no_function(rid) + {t}', f'{t} * {path}.rid',
                      f'{path}.sum(rid, int_fill=0)', f'{path}.sum(rid, rid)', f'{path}.max(rid, 2)']
        else:
            texts += [f'{t} + {path}.nothing', f'{path}.sum(rid)', f'{path}.rid.rid + {t}']
    for text in ctx.rng.permutation(texts)[:5]:
        ctx.note('evaluate', str(text))
        ctx.raises(Exception, lambda: frame.evaluate(str(text)), f'evaluation of `{text}`')
        ctx.count('refused')
        ctx.sig(str(text))
    out = pd.Series(np.full(world.src.n, 4, dtype='i8'))
    ctx.raises(Exception, lambda: frame.evaluate('1.5 * rid', out=out), 'out= of an integer type')
    out4 = pd.Series(np.full(world.src.n, 4, dtype='f4'))
    ctx.raises(Exception, lambda: frame.evaluate('1.5 * rid', out=out4, allow_casting=False), 'unsafe casting')
    frame.evaluate('1.5 * rid', out=out4)
    ctx.equal(out4.to_numpy(), np.arange(world.src.n) * 1.5, 'out= of single precision')
    same_frame(ctx, pd.DataFrame(frame), keep, 'frame after failed evaluations')
    ctx.equal(frame.evaluate('rid * 2').to_numpy(), np.arange(world.src.n) * 2, '`rid * 2`')


def big(ctx):
    """More rows than NumExpr handles at once"""
    world = World(ctx, n=ctx.pick([1500, 5000, 9000]))
    gen = Gen(ctx, world.terms)
    if not gen.nums:
        return
    for _ in range(3):
        node, boolean = grow(ctx, world, gen)
        if node is None:
            continue
        ctx.note('evaluate', node.text)
        want = np.broadcast_to(node.value, (world.src.n, 1))[:, 0]
        scale = 1e-4 * max(1, float(np.abs(want.astype(float)).max())) if node.uses & world.single else 1e-9
        ctx.equal(world.frame.evaluate(node.text).to_numpy(), want, f'`{node.text}`', tolerance(world, node.uses), scale)
        ctx.count('evaluations')
        ctx.sig(node.text)


SCENARIOS = [
    Scenario('random_expressions', random_expressions, 1300, 25000),
    Scenario('priority', priority, 60, 600),
    Scenario('refused', refused, 160, 3000),
    Scenario('big', big, 16, 300),
]
