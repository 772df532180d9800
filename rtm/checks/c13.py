"""Expressions that are not supported, or use symbols inconsistently, are rejected without leaving a trace"""
import numpy as np
import pandas as pd

from rtm.checks.c10 import setup
from rtm.core import Scenario, Skip
from rtm.models import check_utilities
from rtm.shadow import TABLES, GROUPS

SHARDS = {'py': 8}
QUICK = 3
RULE = ('A case is a random model (which is ready to run) and a list of texts to append to its expressions, some of which are '
        'outside of the supported language: each of them has a template, filled with terms that would be fine on their own, '
        'and is embedded at a random depth of a valid expression. These have to be refused either when appending (after which '
        'the model has to be as before) or when running. Distinct by texts.')
ASSUMPTIONS = ['NumExpr decides about functions and operators which are valid Python, but which it does not support']
MINIMUM = {'refused_on_append': 1500, 'refused_on_run': 300, 'runs': 800, 'mixed_use': 200, 'reserved': 20, 'still_fine': 300}

# {0}, {1}: valid terms. Rejected by append()
ON_APPEND = ['{0} if {1} > 0 else 1', '{0}[0]', '[{0} for q in {1}]', '[{0}, {1}]', '({0}, {1})', 'no_such_function({0})', '+', '',
             '{0} +', '{0} {1}', '{0} = {1}', '({0}', 'sum({0}', '{0}; {1}', 'import os', '~{0}', '+{0}', '{{c: {0}}}',
             '{{1: 2}}', '{{**{0}}}', '__import__("os")', 'print({0})', 'eval("1")', '{0}[1:2]', '{0}[{1}]', '*{0}',
             '{{k: v for k in {0}}}', 'where({0} > 1 if {1} else 2, 0, 1)', '{0} + no_such_function({1})', 'def f(): pass',
             '{{a: "text"}}', '{{a: None}}', '{0} $ {1}', 'lookup.mean(x, int_fill=0)', 'lookup.sum({0}, 2)', 'lookup.max(x, {0})', 'lookup.deeper.count(x, x)', 'lookup.no_such_aggregation(x)',
             'lookup.eval("x")', 'lookup.x()', 'where({0}.a, 1', 'open("f")', '{0}(1)', '({0} + {1}).a', '"text".upper', '"text".upper()', '({0} + 1).count(1)', 'exp({0}).a',
             '(1).a', '{0} + (2 * {1}).sum(a)', 'x @ a @ b', '{0} @ {1} @ c']
# Only rejected once the model gets run
ON_RUN = ['(lambda y: y)', 'lambda: 1', '{{1, 2}}', 'where({0})', '{0} + "text"', '"text"', 'abs({0}, {1})', 'exp()',
          'where({0}, y=1)', '{0} << 2', '({0} in {1})', '{0} @ no_such_choice', '{0} @ ', '{{no_such_choice: 1}}', 'max({0})', '...',
          '{0} + no_such_symbol', 'no_such_table.x * {0}', '{0} @ no.such.choice', '{0} + NAN', 'None + {0}', '{0} * nan']


def terms(ctx, tw):
    out = []
    for name, s in tw.scope.items():
        if s.value is not None:
            out += [f'{name}.a', f'{name}.b'] if s.kind == 'table' else [name]
    return out or ['x']


def embed(ctx, text, t):
    """Inside of a larger expression"""
    if '@' in text or not text.strip():
        return text
    k = ctx.pick(['', '', 'sum', 'product', 'func', 'where', 'neg', 'cmp'])
    if any(text.startswith(p) for p in ('import', 'def', 'lambda')) or ';' in text or ' = ' in text:
        return text
    return {'': text, 'sum': f'{ctx.pick(t)} + {text}', 'product': f'2 * ({text})', 'func': f'abs({text})',
            'where': f'where({ctx.pick(t)} > 1, {text}, 0)', 'neg': f'-({text})', 'cmp': f'where(({text}) > 1, 1, 0)'}[k]


def rejection(text):
    """The type of error which rejects the text, before anything is evaluated"""
    import ast
    from cheval import UnsupportedSyntaxError
    if text.count('@') > 1:
        return UnsupportedSyntaxError
    try:
        tree = ast.parse(text.split('@')[0].strip(), mode='eval')
    except SyntaxError:
        return SyntaxError
    if any(isinstance(x, (ast.Invert, ast.UAdd)) for x in ast.walk(tree)):
        return Exception
    return UnsupportedSyntaxError


def state(m):
    e = m.expressions
    return (e.tolist(), sorted(map(str, e.itersimple())), sorted(map(str, e.iterchained())), [x.raw for x in e],
            sorted(map(str, m._scope)) if hasattr(m, '_scope') else None)


def refused(ctx):
    tw = setup(ctx)
    m = tw.model
    tw.check('before')
    for _ in range(ctx.int(2, 6)):
        t = terms(ctx, tw)
        template = ctx.pick(ON_APPEND)
        text = embed(ctx, template.format(ctx.pick(t), ctx.pick(t)), t)
        group = ctx.pick([None, None, 'g', 'new group'])
        before = state(m)
        ctx.note('append', repr(text), group)
        ctx.raises(rejection(text), lambda: m.expressions.append(text) if group is None else m.expressions.append(text, group=group),
                   f'append of `{text}`')
        ctx.count('refused_on_append')
        ctx.check(state(m) == before, f'the rejected expression `{text}` changed the model: {before} -> {state(m)}')
        if 'new group' not in tw.groups():
            ctx.raises(KeyError, lambda: m.run_stochastic(group='new group', clear_scope=False), 'run of a group without expressions')
        tw.check(f'after the rejected `{text}`')
        if ctx.chance(0.3):
            tw.append(group=ctx.pick([None, 'g']))
            tw.complete()
            tw.check('with another expression')
            ctx.count('still_fine')
        ctx.sig(text)
    tw.copy('copy').check('the copy')


def at_run(ctx):
    """Refused when running at the latest. Other groups still can be run"""
    tw = setup(ctx)
    m = tw.model
    t = terms(ctx, tw)
    template = ctx.pick(ON_RUN)
    text = template.format(ctx.pick(t), ctx.pick(t))
    group = ctx.pick([None, 'bad group'])
    other = tw.copy('copy')
    ctx.note('append', repr(text), group)
    try:
        m.expressions.append(text, group=group)
    except Exception:
        ctx.count('refused_on_append')
        tw.check(f'after the rejected `{text}`')
        return
    for fn in (lambda: m.run_stochastic(clear_scope=False), lambda: m.run_discrete(clear_scope=False, random_seed=1),
               lambda: m.run_stochastic(clear_scope=False, check_infeasible=False)):
        ctx.raises(Exception, fn, f'run with `{text}`')
        ctx.count('refused_on_run')
    if group is not None:
        ctx.raises(Exception, lambda: m.run_stochastic(group=group, clear_scope=False), f'run of the group of `{text}`')
        ctx.raises(Exception, lambda: m.preval(group), f'preval of the group of `{text}`')
        for g in tw.groups():
            tw.check(f'group {g!r}', group=g)
        m.expressions.drop_group(group)
        tw.complete()
        tw.check('without the bad group')
    other.check('copy from before')
    ctx.sig(text)


def mixed(ctx):
    """A symbol is either used by itself, or through its attributes, in all expressions of all groups"""
    tw = setup(ctx)
    m = tw.model
    simple = sorted({s for e in tw.exprs for s in e.uses if s not in TABLES})
    chained = sorted({s for e in tw.exprs for s in e.uses if s in TABLES})
    texts = [f'{s}{a}' for s in simple for a in ('.a', '.a.b', '.sum(a)', '.q.mean(b)')] + chained + \
            ['q + q.a', 'q.a + q', 'q.a + 2 * abs(q)', 'where(q > 1, q.b, 0)', 'q.sum(a) + q'] + \
            [f'1 + {s}.a * 2' for s in simple] + [f'2 * ({c} - 1)' for c in chained]
    for _ in range(3):
        text = ctx.pick(texts)
        group = ctx.pick([None, 'g', 'other'])
        before = state(m)
        ctx.note('append', text, group)
        ctx.raises(rejection(text), lambda: m.expressions.append(text, group=group), f'append of `{text}`')
        ctx.check(state(m) == before, f'the rejected expression `{text}` changed the model: {before} -> {state(m)}')
        ctx.count('mixed_use')
        ctx.count('refused_on_append')
    # A symbol that was only mentioned by rejected expressions can be used either way
    ctx.raises(rejection('q + q.a'), lambda: m.expressions.append('q + q.a'), 'mixed use')
    tw.check('after inconsistent expressions')
    m.declare_vector('q', 0)
    m['q'].assign(np.ones(tw.n))
    m.expressions.append('q')
    from rtm.models import check_utilities
    check_utilities(ctx, m, tw.tree, tw.utilities() + 1, 'utilities after inconsistent expressions', tw.tol)
    ctx.count('still_fine')
    ctx.sig(ctx.trace)


def reserved(ctx):
    """Names with a meaning of their own cannot be declared"""
    from cheval.parsing.constants import RESERVED_WORDS
    tw = setup(ctx)
    m = tw.model
    name = ctx.pick(sorted(set(RESERVED_WORDS) | {'NEG_INF', 'NAN'}))
    how = ctx.pick([lambda: m.declare_number(name), lambda: m.declare_vector(name, 0), lambda: m.declare_table(name, 0),
                    lambda: m.declare_matrix(name)])
    ctx.raises(SyntaxError, how, f'declaration of `{name}`')
    ctx.count('reserved')
    tw.check('after declaring a reserved name')
    ctx.sig(name, ctx.case)


def in_frames(ctx):
    """The same for expressions over the rows of a frame"""
    from cheval import LinkedDataFrame
    n = ctx.int(1, 5)
    df = LinkedDataFrame({'a': ctx.dyadic(n, 2), 'b': ctx.dyadic(n, 2)})
    keep = df.copy(deep=True)
    t = ['a', 'b']
    for _ in range(4):
        template = ctx.pick(ON_APPEND + ['{{a: 1}}', '{0} + no_such_column', 'no_such_link.x + {0}', 'where({0})', '(lambda y: y)',
                                         '{0} + {{b: 1}}', 'a.b + {0}', 'abs({0}, {1})', '{0} @ {1} @ {0}'])
        text = embed(ctx, template.format(ctx.pick(t), ctx.pick(t)), t)
        ctx.note('evaluate', repr(text))
        ctx.raises(Exception, lambda: df.evaluate(text), f'evaluation of `{text}`')
        ctx.count('refused_on_run')
        ctx.equal(df.evaluate('a * 2 + b').to_numpy(), keep['a'].to_numpy() * 2 + keep['b'].to_numpy(), 'valid expression')
        ctx.sig(text)


SCENARIOS = [
    Scenario('refused', refused, 700, 10000),
    Scenario('at_run', at_run, 300, 5000),
    Scenario('mixed', mixed, 160, 3000),
    Scenario('reserved', reserved, 40, 200),
    Scenario('in_frames', in_frames, 150, 3000),
]
