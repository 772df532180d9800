"""The utility of a (unit, choice) is the sum of all expressions, evaluated for that unit and that choice"""
import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.exprs import Gen, Scope, layout
from rtm.models import check_utilities, gen_any_tree, gen_mnl, gen_tree, gen_units

SHARDS = {'py': 8}
QUICK = 3
RULE = ('A case is a random tree, with units of varying type, randomly declared and assigned symbols (numbers, vectors, tables '
        'and matrices of either orientation, with integer, float, boolean, text and categorical data in varying types) and '
        'randomly grown expressions, whose meaning is computed along with their text. Utilities are recovered from the '
        'outputs of a run and compared for each unit and choice. Distinct by the texts of the expressions and the tree.')
ASSUMPTIONS = ['expressions follow Python syntax and precedence; division is true division',
               'data is chosen such that comparisons inside of expressions have no rounding errors',
               'tolerance 1e-8 relative to utilities (2e-4 in single precision, or with single precision data)']
MINIMUM = {'expressions': 2500, 'utilities_compared': 40000, 'nested': 200, 'with_filter': 300, 'dict_literals': 150}


def keys_for(tree):
    """Dict literal keys, and the columns which they refer to"""
    return {tree.dotted(i): [i] for i in range(tree.n)}


def single(scope):
    def f4(x):
        if isinstance(x, pd.DataFrame):
            return any(str(t) in ('float32', 'float16') for t in x.dtypes)
        return getattr(getattr(x, 'dtype', None), 'name', '') in ('float32', 'float16')
    return any(f4(x) for x in scope.assigned.values())


def build(ctx, tree, n, precision=8, unique=True):
    from cheval import ChoiceModel
    m = ChoiceModel(precision=precision)
    tree.build(m, ctx.rng)
    units = gen_units(ctx, n, unique=unique)
    m.decision_units = units
    return m, units


def grow(ctx, scope, gen, tree, n_expr, p_filter=0.35, limit=20.0):
    """Random expressions, as a list of (text, utilities [n x c])"""
    out = []
    for _ in range(n_expr):
        text, v, uses = gen.utility(scope.n, scope.c, limit=limit)
        ctx.count('expressions')
        ctx.count('dict_literals', '{' in text)
        if ctx.chance(0.2):
            text = layout(ctx, text)
            ctx.count('layouts')
        if ctx.chance(p_filter):
            j = ctx.int(0, tree.n - 1)
            w = np.zeros_like(v)
            w[:, j] = v[:, j]
            text, v = text + ctx.pick([' @ ', '@', '  @  ']) + tree.dotted(j), w
            ctx.count('with_filter')
        out.append((text, v))
    return out


def total(exprs, n, c):
    U = np.zeros((n, c))
    for _, v in exprs:
        U = U + v
    return U


def setup(ctx, tree, n, n_sym, precision=8, kinds=None, unique=True, names=None):
    m, units = build(ctx, tree, n, precision, unique)
    scope = Scope(ctx, m, tree, units, names)
    scope.declare('number')
    for _ in range(n_sym):
        scope.declare(kinds and ctx.pick(kinds))
    gen = Gen(ctx, scope.terms, keys_for(tree), neg_inf=True)
    return m, units, scope, gen


def random_model(ctx):
    tree = gen_any_tree(ctx, 0.5, max_depth=ctx.pick([2, 2, 3]), max_children=3)
    n = ctx.pick([1, 2, 3, 5, 9])
    precision = ctx.pick([8, 8, 8, 4])
    m, units, scope, gen = setup(ctx, tree, n, ctx.int(1, 6), precision, unique=ctx.chance(0.9))
    exprs = grow(ctx, scope, gen, tree, ctx.int(1, 5), limit=20 if precision == 8 else 8)
    run(ctx, m, tree, scope, exprs, precision)


def run(ctx, m, tree, scope, exprs, precision, **kw):
    for text, _ in exprs:
        m.expressions.append(text)
    ctx.note(f'tree={tree.describe()} n={scope.n} precision={precision}')
    for text, _ in exprs:
        ctx.note('  ', text)
    for name, data in scope.assigned.items():
        ctx.note('  data', name, repr(data).replace('\n', ' | ')[:300])
    U = total(exprs, scope.n, scope.c)
    check_utilities(ctx, m, tree, U, 'utilities', 4 if precision == 4 or single(scope) else 8,
                    n_threads=ctx.pick([1, 1, 2, 4]))
    ctx.sig(tree.describe(), [t for t, _ in exprs])
    ctx.count('nested' if tree.depth > 1 else 'flat')


def wide(ctx):
    """More expressions and symbols, more units"""
    tree = gen_any_tree(ctx, 0.5, max_depth=3)
    m, units, scope, gen = setup(ctx, tree, ctx.pick([50, 400, 3000]), ctx.int(5, 12))
    run(ctx, m, tree, scope, grow(ctx, scope, gen, tree, ctx.int(6, 20), limit=10), 8)


ALIKE = ['household_income', 'household_size', 'household_income_2', 'household', 'households', 'Household_size', 'household_',
         'household_size_', 'household_income_am', 'household_income_pm', 'household_income_amt',
         'household_income_attributes_by_zone_2016', 'household_income_attributes_by_zone_2021', 'Household_income_attributes_by_zone_2021']


def attributes(ctx):
    """Several attributes of several tables in one expression, of the same names"""
    tree = gen_any_tree(ctx, 0.3, max_depth=2)
    m, units, scope, gen = setup(ctx, tree, ctx.pick([2, 5]), ctx.int(2, 4), kinds=['table', 'table', 'vector'],
                                names=ctx.pick([None, ALIKE]))
    exprs = []
    for _ in range(ctx.int(1, 4)):
        terms = [t for t in scope.terms if t.typ in ('num', 'bool')]
        texts, v = [], 0
        for t in (ctx.pick(terms) for _ in range(ctx.int(2, 6))):
            w = ctx.pick([1, 2, -1, 0.5])
            texts.append(f'{w} * {t.text}' if ctx.chance(0.5) else f'{t.text} * {w}')
            v = v + w * t.value
        exprs.append((' + '.join(texts), np.broadcast_to(v, (scope.n, scope.c)).astype(float)))
        ctx.count('expressions')
    run(ctx, m, tree, scope, exprs, 8)


def increments(ctx):
    """Adding an expression adds its value, and nothing else; the order of the expressions doesn't matter"""
    tree = gen_any_tree(ctx, 0.5, max_depth=2)
    m, units, scope, gen = setup(ctx, tree, ctx.pick([1, 4]), ctx.int(2, 5))
    exprs = grow(ctx, scope, gen, tree, 4, limit=10)
    U = np.zeros((scope.n, scope.c))
    ctx.note(f'tree={tree.describe()}')
    precision = 4 if single(scope) else 8
    for text, v in exprs:
        ctx.note('append', text)
        m.expressions.append(text)
        U = U + v
        check_utilities(ctx, m, tree, U, f'utilities after `{text}`', precision)
    m.expressions.clear()
    for i in ctx.rng.permutation(len(exprs)):
        m.expressions.append(exprs[i][0])
    check_utilities(ctx, m, tree, U, 'utilities with the expressions in another order', precision)
    m.expressions.clear()
    m.expressions = [t for t, _ in exprs[:2]]
    check_utilities(ctx, m, tree, exprs[0][1] + exprs[1][1], 'utilities after clearing the expressions', precision)
    ctx.sig(tree.describe(), [t for t, _ in exprs])


SCENARIOS = [
    Scenario('random_model', random_model, 2400, 40000),
    Scenario('wide', wide, 80, 1000),
    Scenario('attributes', attributes, 200, 2000),
    Scenario('increments', increments, 160, 2000),
]
