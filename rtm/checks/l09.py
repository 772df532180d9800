"""Linked attributes in utilities are those of each unit and choice"""
import numpy as np
import pandas as pd

from rtm.checks.c07 import grow, keys_for, total
from rtm.checks.l02 import Term, expected
from rtm.checks.l04 import World
from rtm.core import Scenario, is_missing, same_frame
from rtm.exprs import NAME, Gen, Scope, Sym
from rtm.frames import Link, Tab, establish, follow, gen_values, looked_up
from rtm.models import check_utilities, gen_any_tree, gen_tree, gen_units

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a random tree with tables for the decision units and for the choices, which are linked to other tables (lookups over one '
        'or two links, aggregations; by columns or by the labels), and were filtered or reordered before they got assigned. Random '
        'expressions over these, and over other symbols, are generated together with their values for each unit and choice. Utilities are '
        'recovered from runs of the model, and of copies and subsets of it, and after values in linked tables changed. Distinct by expressions.')
ASSUMPTIONS = ['comparisons of the generated expressions have no rounding errors', 'text consists of ASCII characters']
MINIMUM = {'models': 800, 'utilities_compared': 25000, 'linked_uses': 700, 'unit_tables': 500, 'choice_tables': 350, 'sliced_tables': 250,
           'reordered_tables': 250, 'subsets': 200, 'copies': 150, 'by_label': 300, 'changed_values': 200,
           'aggregations': 700}


class Table:
    """A linked table for the units (orientation 0) or choices (1) of a model"""

    def __init__(self, ctx, name, o, labels):
        self.ctx, self.name, self.o = ctx, name, o
        n = None if labels is None else len(labels)
        order = np.arange(n) if labels is not None else None
        shuffled = labels is not None and labels.is_unique and ctx.chance(0.5)
        if shuffled:
            order = ctx.rng.permutation(n)
        self.world = w = World(ctx, n=ctx.pick([2, 5, 9]) if labels is None else None, index=labels[order] if labels is not None else None)
        if w.src.frame.index.is_unique and ctx.chance(0.6):
            self.by_label()
        frame = w.frame
        rows = np.arange(len(frame))
        if shuffled:
            frame = frame.loc[list(labels)] if ctx.chance(0.7) or isinstance(labels, pd.MultiIndex) else frame.loc[labels]
            rows = np.argsort(order)
            ctx.count('reordered_tables')
        elif labels is None and ctx.chance(0.6):
            for _ in range(ctx.int(1, 2)):
                frame, rows = self.sliced(frame, rows)
            ctx.count('sliced_tables')
        self.frame, self.rows = frame, rows
        if ctx.chance(0.2):
            self.frame.compute_indexers(refresh=ctx.chance(0.5))
        self.frame['late'] = ctx.rng.integers(-5, 6, len(rows))

    def by_label(self):
        """A link by all labels of the rows"""
        ctx, src = self.ctx, self.world.src
        ix = src.frame.index
        pos = ctx.rng.permutation(len(ix))[:ctx.int(1, len(ix))]
        dst = Tab(ctx, 'L', len(pos), linked=ctx.chance(0.5))
        dst.index = (list(ix.names), [ix.get_level_values(i)[pos] for i in range(ix.nlevels)])
        dst.add_columns(['int', 'float', 'bool', 'text'], names=['pa', 'pb', 'pc', 'pd'])
        dst.make()
        where = {int(p): r for r, p in enumerate(pos)}
        self.label_link = Link('by_label', src, dst, [[where[i]] if i in where else [] for i in range(len(ix))], False,
                               ({} if ctx.chance(0.5) else {'precompute': False}, ['labels']))
        if any(is_missing(v) for v in ix.to_list() if not isinstance(v, tuple)):
            return
        establish(ctx, self.label_link)
        self.world.tabs.append(dst)
        self.world.jobs.append(([self.label_link], None))
        for attr, col in dst.columns.items():
            self.world.add_values(f'by_label.{attr}', looked_up([self.label_link], attr, list(range(src.n))), col, self.world.linked)
        ctx.count('by_label')

    def sliced(self, frame, rows):
        ctx, n = self.ctx, len(rows)
        m = ctx.rng.random(n) < 0.7
        m[ctx.int(0, n - 1)] = True
        k = ctx.pick(['mask', 'getitem', 'iloc', 'head', 'tail', 'labels'])
        lo = ctx.int(0, n - 1)
        hi = ctx.int(lo + 1, n)
        if k == 'labels' and frame.index.is_unique:
            pos = ctx.rng.permutation(n)[:ctx.int(1, n)]
            labels = [frame.index[int(p)] for p in pos]
            return frame.loc[labels], rows[pos]
        if k == 'iloc':
            return frame.iloc[lo:hi], rows[lo:hi]
        if k == 'head':
            return frame.head(hi), rows[:hi]
        if k == 'tail':
            return frame.tail(n - lo), rows[lo:]
        return (frame.loc[m] if k == 'mask' else frame[m]), rows[m]

    def terms(self):
        out = []
        for t in self.world.terms:
            v = np.asarray(t.value)[self.rows, 0]
            out.append(Sym(f'{self.name}.{t.text}', v[None, :] if self.o else v[:, None], t.typ, self.name))
        late = np.asarray(self.frame['late'], dtype=float)
        out.append(Sym(f'{self.name}.late', late[None, :] if self.o else late[:, None], 'num', self.name))
        return out


class Setting:
    def __init__(self, ctx):
        from cheval import ChoiceModel
        self.ctx = ctx
        self.tree = tree = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 2, 3]), max_children=3)
        self.m = m = ChoiceModel()
        tree.build(m, ctx.rng)
        which = ctx.pick([[0], [0], [1], [0, 1], [0, 1], [0, 0]])
        self.tables = []
        units = None
        if 0 not in which or ctx.chance(0.4):
            units = gen_units(ctx, ctx.pick([1, 2, 4, 7]), unique=ctx.chance(0.9))
        for i, o in enumerate(which):
            t = Table(ctx, ['tbl', 'table_2', 'p'][i], o, units if o == 0 else m.choices)
            if o == 0 and units is None:
                units = t.frame.index
            self.tables.append(t)
            ctx.count('choice_tables' if o else 'unit_tables')
        self.units = units
        m.decision_units = units
        for t in self.tables:
            if ctx.chance(0.5):
                m.declare_table(t.name, t.o)
            else:
                m.declare_table(t.name, orientation=t.o, mandatory_attributes={'late'})
            m[t.name].assign(t.frame)
        self.scope = Scope(ctx, m, tree, units)
        self.scope.names = [s for s in self.scope.names if s not in ('tbl', 'table_2', 'p')]
        self.scope.declare('number')
        for _ in range(ctx.int(0, 2)):
            self.scope.declare(ctx.pick(['number', 'vector', 'matrix']))
        self.n, self.c = len(units), tree.n
        self.single = any(t.world.single for t in self.tables) or any(
            'float32' in str(getattr(d, 'dtype', '')) or (isinstance(d, pd.DataFrame) and any('float32' == str(x) for x in d.dtypes))
            for d in self.scope.assigned.values())

    def terms(self):
        return self.scope.terms + [x for t in self.tables for x in t.terms()]

    def expressions(self, k, limit=20.0):
        gen = Gen(self.ctx, self.terms(), keys_for(self.tree), neg_inf=True)
        if not gen.nums:
            return []
        # Values for every (unit, choice), so these can be grown as usual
        out = grow(self.ctx, self.scope, gen, self.tree, k, limit=limit)
        linked = {f'{t.name}.{x}' for t in self.tables for x in t.world.linked | t.world.aggregated}
        self.ctx.count('linked_uses', sum(any(x in text for x in linked) for text, _ in out))
        return out

    def run(self, m, exprs, what, rows=None):
        U = total(exprs, self.n, self.c)
        if rows is not None:
            U = U[rows]
        check_utilities(self.ctx, m, self.tree, U, what, 4 if self.single else 8, n_threads=self.ctx.pick([1, 1, 2]))


def models(ctx):
    s = Setting(ctx)
    exprs = s.expressions(ctx.int(1, 4))
    before = [(t, pd.DataFrame(t.frame).copy(deep=True)) for t in s.tables] + \
             [(x, pd.DataFrame(x.frame).copy(deep=True)) for t in s.tables for x in t.world.tabs[1:]]
    for text, _ in exprs:
        s.m.expressions.append(text)
        ctx.note(text)
    m = s.m
    k = ctx.pick(['run', 'run', 'copy', 'subset', 'subset'])
    if k == 'copy':
        m = s.m.copy()
        ctx.count('copies')
        s.run(m, exprs, 'copied model')
    elif k == 'subset' and s.n > 1:
        mask = ctx.rng.random(s.n) < 0.6
        mask[ctx.int(0, s.n - 1)] = True
        m = s.m.copy_subset(pd.Series(mask, index=s.units))
        ctx.count('subsets')
        s.run(m, exprs, f'subset {np.flatnonzero(mask)} of the model', mask)
    s.run(s.m, exprs, f'model (after {k})')
    for t, b in before:
        same_frame(ctx, pd.DataFrame(t.frame), b, f'table {t.name} after running the model')
    ctx.count('models')
    ctx.sig([text for text, _ in exprs], s.tree.describe())


def changed(ctx):
    """Values of linked tables which change in between of runs"""
    s = Setting(ctx)
    jobs = [(t, chain) for t in s.tables for chain, agg in t.world.jobs if agg is None]
    jobs = [(t, chain) for t, chain in jobs if any(c.kind == 'int' for c in chain[-1].dst.columns.values())]
    if not jobs:
        return
    terms = []
    for _ in range(ctx.int(1, 4)):
        t, chain = ctx.pick(jobs)
        attr = ctx.pick([a for a, c in chain[-1].dst.columns.items() if c.kind == 'int'])
        coef, choice = ctx.pick([2, -1, 0.5]), ctx.pick([None, ctx.int(0, s.c - 1)])
        terms.append((t, chain, attr, coef, choice))
        text = f'{coef} * {t.name}.{".".join(l.name for l in chain)}.{attr} / 8' + ('' if choice is None else f' @ {s.tree.dotted(choice)}')
        s.m.expressions.append(text)
        ctx.note(text)
    for i in range(ctx.int(2, 3)):
        if i:
            t, chain, attr, _, _ = ctx.pick(terms)
            dst = chain[-1].dst
            col = gen_values(ctx, dst.n, 'int')
            dst.frame[attr] = col.data()
            dst.columns[attr] = col
            ctx.note('new values of', attr)
            ctx.count('changed_values')
        U = np.zeros((s.n, s.c))
        for t, chain, attr, coef, choice in terms:
            v = np.array(looked_up(chain, attr, list(range(t.world.src.n))), dtype=float)[t.rows]
            v = (v[None, :] if t.o else v[:, None]) * coef / 8
            mask = np.ones(s.c) if choice is None else (np.arange(s.c) == choice)
            U = U + v * mask
        check_utilities(ctx, s.m, s.tree, U, f'run {i}')
    ctx.sig(ctx.trace)


def aggregations(ctx):
    """Many aggregations over the same links, by the same or other functions, of the same or other columns"""
    s = Setting(ctx)
    jobs = [(t, chain, agg) for t in s.tables for chain, agg in t.world.jobs if agg is not None]
    jobs = [(t, chain, agg, [a for a, c in agg.dst.columns.items() if c.kind in ('int', 'float') and not any(is_missing(v) for v in c.values)])
            for t, chain, agg in jobs]
    if not jobs:
        return
    U = np.zeros((s.n, s.c))
    single = s.single
    for _ in range(ctx.int(1, 3)):
        parts, V = [], 0
        for _ in range(ctx.int(1, 4)):
            t, chain, agg, nums = ctx.pick(jobs)
            func = ctx.pick(['sum', 'sum', 'max', 'min', 'mean', 'count', 'first', 'last'])
            for _ in range(ctx.int(1, 3)):
                attr = ctx.pick(nums + ['rid', 'rid', '1'])
                col = agg.dst.columns.get(attr)
                values = col.values if col else list(range(agg.dst.n)) if attr == 'rid' else [1] * agg.dst.n
                shift = ctx.pick([0, 0, 1, 2]) if col or attr == 'rid' else 0
                text, values = (f'{attr} + {shift}.0', [v + shift for v in values]) if shift else (attr, values)
                kind = 'float' if shift or (col and col.kind == 'float') else 'int'
                at = follow(chain, range(t.world.src.n)) if chain else range(t.world.src.n)
                want, _ = expected(Term(text, values, kind), func, agg, at, -1, 0.5, 1)
                v = np.array(want, dtype=float)[t.rows]
                coef = ctx.pick([1, 2, -1, 0.5])
                path = f'{t.name}.' + '.'.join(l.name for l in chain + [agg]) + f'.{func}({text})'
                if np.isnan(v).any():  # Rows without any linked row
                    path, v = f'where({path} == {path}, {path}, 0)', np.where(np.isnan(v), 0, v)
                parts.append(f'{coef} * {path}' if ctx.chance(0.5) else f'{path} * {coef}')
                V = V + coef * (v[None, :] if t.o else v[:, None])
                ctx.count('aggregations')
        V = V / 64 * np.ones((s.n, s.c))
        text, mask = f'({" + ".join(parts)}) / 64', np.ones(s.c)
        if ctx.chance(0.4):
            j = ctx.int(0, s.c - 1)
            text, mask = f'{text} @ {s.tree.dotted(j)}', np.arange(s.c) == j
        if len(NAME.findall(text)) > 60 or np.abs(V).max(initial=0) > 30:
            continue
        ctx.note(text)
        s.m.expressions.append(text)
        U = U + V * mask
    m, rows = s.m, slice(None)
    if not len(s.m.expressions.tolist()):
        return
    if s.n > 1 and ctx.chance(0.3):
        mask = ctx.rng.random(s.n) < 0.6
        mask[ctx.int(0, s.n - 1)] = True
        check_utilities(ctx, s.m.copy_subset(pd.Series(mask, index=s.units)), s.tree, U[mask], 'subset', 4 if single else 8)
    check_utilities(ctx, m, s.tree, U, 'model', 4 if single else 8)
    ctx.sig(ctx.trace)


def refused(ctx):
    """Expressions with links or attributes which do not exist fail, without any effect on those that follow"""
    s = Setting(ctx)
    t = ctx.pick(s.tables)
    texts = [f'{t.name}.nothing', f'{t.name}.nothing.at_all', f'{t.name}.nothing.sum(x)', f'{t.name}.rid.rid']
    for chain, agg in t.world.jobs:
        path = f'{t.name}.' + '.'.join(l.name for l in chain + ([agg] if agg else []))
        texts += [f'{path}.nothing', f'{path}.sum(nothing)'] if agg is None else [f'{path}.rid', f'{path}.sum(nothing)', f'{path}.nothing(rid)']
    bad = str(ctx.pick(texts))
    ctx.note(bad)

    def attempt():
        m2 = s.m.copy()
        m2.expressions.append(bad)
        m2.run_stochastic(clear_scope=False)
    ctx.raises(Exception, attempt, f'run with `{bad}`')
    exprs = s.expressions(1)
    for text, _ in exprs:
        s.m.expressions.append(text)
    s.run(s.m, exprs, 'model after a failed copy')
    ctx.count('refused')
    ctx.sig(bad, [x for x, _ in exprs])


SCENARIOS = [
    Scenario('models', models, 1100, 18000),
    Scenario('aggregations', aggregations, 500, 8000),
    Scenario('changed', changed, 200, 4000),
    Scenario('refused', refused, 120, 2000),
]
