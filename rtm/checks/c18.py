"""Collections of expressions keep what was added, in order, and are independent of each other"""
import pandas as pd

from rtm.core import Scenario

SHARDS = {'py': 8}
QUICK = 5
RULE = ('A case is a history of several collections of expressions, which belong to models, are copies or were added together: '
        'expressions are appended (to groups or not), refused ones are tried, groups get dropped and collections get cleared. '
        'After each step, every collection has to contain what a reference says, in all ways in which it can be read. Distinct by history.')
ASSUMPTIONS = ['each symbol is used either with attributes or without']
MINIMUM = {'steps': 4000, 'judged': 15000, 'combined': 500, 'copied': 250, 'refused': 400, 'dropped': 120, 'cleared': 100, 'sums': 500}
GROUPS = ['g', 'other group', ('a', 1), 7, True, 'h', 0, '']


def gen(ctx):
    """(text, simple symbols, symbols with attributes)"""
    simple, chained, parts = set(), set(), []
    for _ in range(ctx.int(1, 3)):
        k = ctx.pick(['name', 'name', 'chain', 'number', 'func', 'dict', 'agg', 'neg', 'cmp'])
        v, t = f'v{ctx.int(0, 9)}', f't{ctx.int(0, 5)}'
        if k == 'name':
            parts.append(v)
            simple.add(v)
        elif k == 'chain':
            parts.append(f'{t}.x{ctx.int(0, 3)}' if ctx.chance(0.6) else f'{t}.far.x')
            chained.add(t)
        elif k == 'number':
            parts.append(str(ctx.int(0, 9)))
        elif k == 'func':
            parts.append(f'exp({v} / 2)')
            simple.add(v)
        elif k == 'dict':
            parts.append('{a: 1, b: -2.5}')
        elif k == 'agg':
            parts.append(f'{t}.sum(size > {ctx.int(0, 3)})')
            chained.add(t)
        elif k == 'neg':
            parts.append(f'-{v}')
            simple.add(v)
        elif k == 'cmp':
            parts.append(f'({v} > {t}.y)')
            simple.add(v)
            chained.add(t)
    text = f' {ctx.pick("+-*")} '.join(parts)
    if ctx.chance(0.25):
        text += f' @ {ctx.pick("abc")}'
    return text, frozenset(simple), frozenset(chained)


class Shadow:
    def __init__(self, group, name):
        self.real, self.name = group, name
        self.plain, self.groups = [], {}

    def all(self):
        return self.plain + [e for g in self.groups.values() for e in g]

    def symbols(self, i, entries):
        return set().union(*[e[i] for e in entries])

    def judge(self, ctx, what):
        real = self.real
        texts = [e[0] for e in self.plain]
        ctx.count('judged')

        def same(got, want, how):
            ctx.check(got == want, f'{what}: {how} of {self.name} is {got} instead of {want}')
        same(real.tolist(), texts, 'tolist()')
        same([e.raw for e in real.tolist(raw=False)], texts, 'tolist(raw=False)')
        same([e.raw for e in real], [e[0] for e in self.all()], 'iteration')
        same([e.raw for e in real.__iter__(groups=False)], texts, 'iteration without groups')
        same(set(real.itersimple()), self.symbols(1, self.all()), 'itersimple()')
        same(set(real.iterchained()), self.symbols(2, self.all()), 'iterchained()')
        same(set(real.itersimple(groups=False)), self.symbols(1, self.plain), 'itersimple(groups=False)')
        same(set(real.iterchained(groups=False)), self.symbols(2, self.plain), 'iterchained(groups=False)')
        for g in GROUPS:
            if g in self.groups:
                sub = real.get_group(g)
                same(sub.name, g, f'name of group {g!r}')
                same([e.raw for e in sub], [e[0] for e in self.groups[g]], f'group {g!r}')
                same(set(sub.itersimple()), self.symbols(1, self.groups[g]), f'itersimple() of group {g!r}')
                same(set(sub.iterchained()), self.symbols(2, self.groups[g]), f'iterchained() of group {g!r}')
            else:
                ctx.raises(KeyError, lambda: real.get_group(g), f'{what}: unknown group {g!r} of {self.name}')

    def add(self, entry, group):
        if group is None:
            self.plain.append(entry)
        else:
            self.groups.setdefault(group, []).append(entry)

    def plus(self, other, real, name):
        out = Shadow(real, name)
        out.plain = self.plain + other.plain
        for s in (self, other):
            for g, entries in s.groups.items():
                out.groups[g] = out.groups.get(g, []) + entries
        return out

    def copy(self, real, name):
        return self.plus(Shadow(None, ''), real, name)


def histories(ctx):
    from cheval import ChoiceModel
    models = [ChoiceModel() for _ in range(ctx.int(1, 3))]
    shadows = [Shadow(m.expressions, f'model {i}') for i, m in enumerate(models)]
    for step in range(ctx.int(5, 14)):
        i = ctx.int(0, len(shadows) - 1)
        s = shadows[i]
        k = ctx.pick(['append'] * 6 + ['several', 'drop', 'refused', 'refused', 'drop', 'clear', 'plus', 'plus', 'copy', 'subgroups'])
        ctx.count('steps')
        entry = gen(ctx)
        group = ctx.pick([None, None] + GROUPS)
        if k == 'append':
            ctx.note(s.name, 'append', entry[0], 'group', group)
            s.real.append(entry[0]) if group is None and ctx.chance(0.5) else s.real.append(entry[0], group=group)
            s.add(entry, group)
        elif k == 'several':
            j = ctx.int(0, len(models) - 1)
            entries = [entry] + [gen(ctx) for _ in range(ctx.int(0, 2))]
            ctx.note(shadows[j].name, 'expressions =', [e[0] for e in entries])
            texts = [e[0] for e in entries]
            models[j].expressions = ctx.pick([texts, tuple(texts), iter(texts)])
            for e in entries:
                shadows[j].add(e, None)
            ctx.check(models[j].expressions is shadows[j].real, 'expressions of the model got replaced')
        elif k == 'refused':
            used = s.symbols(1, s.all()), s.symbols(2, s.all())
            bad = ['v1 +', 'v1[0]', 'no_such_function(v1)', 'v11 + t11.x + t12.x[0]', 'v12 + [v13]', 'v1 @ a @ b']
            bad += [f'v14 + {v}.x' for v in sorted(used[0])[:1]] + [f'v15 + {t}' for t in sorted(used[1])[:1]]
            text = ctx.pick(bad)
            ctx.note(s.name, 'append refused', text, 'group', group)
            ctx.raises(Exception, lambda: s.real.append(text, group=group), f'append of {text!r}')
            ctx.count('refused')
        elif k == 'drop':
            if s.groups and ctx.chance(0.8):
                group = ctx.pick(list(s.groups))
            ctx.note(s.name, 'drop_group', group)
            if group in s.groups:
                s.real.drop_group(group)
                del s.groups[group]
                ctx.count('dropped')
            else:
                ctx.raises(KeyError, lambda: s.real.drop_group(group), f'drop of the unknown group {group!r}')
        elif k == 'clear':
            ctx.note(s.name, 'clear')
            s.real.clear()
            s.plain, s.groups = [], {}
            ctx.count('cleared')
        elif k == 'plus' and len(shadows) < 7:
            o = ctx.pick(shadows)
            ctx.note(s.name, '+', o.name)
            shadows.append(s.plus(o, s.real + o.real, f'sum {len(shadows)} of ({s.name}) and ({o.name})'))
            ctx.count('combined')
        elif k == 'copy' and len(shadows) < 7:
            ctx.note(s.name, 'copy')
            shadows.append(s.copy(s.real.copy(), f'copy {len(shadows)} of ({s.name})'))
            ctx.count('copied')
        elif k == 'subgroups':
            o = ctx.pick(shadows)
            both = [(a, b) for a in s.groups for b in o.groups]
            if both:
                a, b = ctx.pick(both)
                total = s.real.get_group(a) + o.real.get_group(b)
                want = s.groups[a] + o.groups[b]
                ctx.note('group', a, 'of', s.name, '+ group', b, 'of', o.name)
                got = [e.raw for e in total], set(total.itersimple()), set(total.iterchained())
                ctx.check(got == ([e[0] for e in want], s.symbols(1, want), s.symbols(2, want)), f'sum of groups: {got} instead of {want}')
                ctx.count('combined')
        for t in shadows:
            t.judge(ctx, f'after {ctx.trace[-1][:200] if ctx.trace else "nothing"}')
    ctx.sig(ctx.trace)


def sums(ctx):
    """Models with combined expressions have the sums of their utilities"""
    import numpy as np
    from cheval import ChoiceModel
    from rtm.core import Skip
    n = ctx.int(1, 5)
    units = pd.RangeIndex(n)
    data = {f'v{i}': pd.Series(ctx.dyadic(n), index=units) for i in range(3)}

    def model(expressions):
        m = ChoiceModel()
        m.add_choices(['a', 'b', 'c'])
        m.decision_units = units
        for text, group in expressions:
            m.expressions.append(text, group=group)
        for name, s in data.items():
            if name in set(m.expressions.itersimple()):
                m.declare_vector(name, 0)
                m[name].assign(s)
        return m

    def some():
        out = []
        for _ in range(ctx.int(1, 4)):
            text = ctx.pick([f'v{ctx.int(0, 2)} * {ctx.int(-2, 3)}', f'{{a: {ctx.int(0, 3)}, c: -1}}', f'v{ctx.int(0, 2)} > 0', f'{ctx.int(0, 4)} / 4'])
            out.append((text + ctx.pick(['', '', ' @ a', ' @ b']), ctx.pick([None, 'g', 'h'])))
        return out

    def differences(m):
        p, _, _ = m.run_stochastic(clear_scope=False)
        logs = np.log(p[['a', 'b', 'c']].to_numpy())
        return logs - logs[:, :1]
    one, two = some(), some()
    a, b = model(one), model(two)
    want = differences(a) + differences(b)
    total = a.expressions + b.expressions
    texts = [e.raw for e in total]
    ctx.note(one, two, texts)
    c = model([(t, None) for t in texts])
    ctx.equal(differences(c), want, f'utilities of {texts}', atol=1e-9)
    # Changes of the sum have no effect on the models
    for group in [None, 'g', 'h']:
        total.append('5 @ b', group=group)
    total.clear() if ctx.chance(0.3) else None
    ctx.equal(differences(a), want - differences(b), 'utilities of the first model', atol=1e-9)
    ctx.equal(differences(model([(e.raw, None) for e in a.expressions])), differences(a), 'the first model', atol=1e-9)
    ctx.equal(differences(model([(e.raw, None) for e in b.expressions])), differences(b), 'the second model', atol=1e-9)
    ctx.count('sums')
    ctx.sig(one, two, n)


SCENARIOS = [
    Scenario('histories', histories, 700, 9000),
    Scenario('sums', sums, 600, 6000),
]
