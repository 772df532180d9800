"""Generator of utility expressions, each of them together with its meaning (as NumPy arrays)"""
import io
import re
import tokenize

import numpy as np
import pandas as pd

SYMBOL_NAMES = ['cost', 'time', 'ivtt', 'x', 'x1', 'x10', 'xx', 'beta', 'Beta', 'asc', 'dist', 'd', 'out', 'neg', 't', 'b_1',
                'sub_x', 'dict0', 'hh', 'person', 'zone', 'inc', 'income', 'logsum', 'k', 'kk', 'y', 'zz', 'age', 'w', 'w_2',
                'household_income', 'household_size', 'household_income_2', 'travel_time_am', 'travel_time_pm', '_lead', 'Household_size']
ATTRIBUTES = ['a', 'b', 'area', 'pop', 'x', 'flag', 'kind', 'size_', 'cost', 'n1', 'name', 'count_', 'q']
TEXTS = ['a', 'bb', 'ccc', 'a b', 'B', 'long text', 'x_y', 'a ', ' a', 'bb   ', '', 'A', '.', 'a.b', 'where', '0', '_', 'nan',
         'None', 'True', '1.5', 'say "x"', 'back\\slash', 'two\nlines', 'tab\t', '%s', '{x}', '#1', 'x == 1', 'many words ' * 12,
         'q' * 130, '\\n']  # Unpaired quotation marks confuse NumExpr
INT_DTYPES = ['i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8']


def gen_column(ctx, n, kind=None, fine=False):
    """A column of data. Returns (data, values as float or str array, kind)"""
    kind = kind or ctx.pick(['int', 'int', 'float', 'float', 'float', 'bool', 'text', 'cat_text', 'cat_int', 'nullable', 'gap'])
    typ = 'num'
    if kind == 'int':
        dt = ctx.pick(INT_DTYPES)
        v = ctx.rng.integers(0 if dt[0] == 'u' else -6, 7, n).astype(dt)
        data = v
    elif kind == 'float':
        v = ctx.reals(n, 4) if fine else ctx.dyadic(n, 4).astype(ctx.pick(['f8', 'f8', 'f4']))
        data = v
    elif kind == 'bool':
        v = ctx.rng.random(n) < 0.5
        data, typ = v, 'bool'
    elif kind == 'gap':  # Numbers, some of which are missing
        v = ctx.rng.integers(-6, 7, n).astype(float)
        gone = ctx.rng.random(n) < 0.3
        how, typ = ctx.pick(['f8', 'f4', 'Int64', 'Int16', 'cat']), 'gap'
        if how[0] == 'I':
            data = pd.array([pd.NA if g else int(x) for x, g in zip(v, gone)], dtype=how)
        elif how == 'cat':
            data = pd.Categorical([None if g else int(x) for x, g in zip(v, gone)], categories=range(-6, 7))
        else:
            data = np.where(gone, np.nan, v).astype(how)
        v[gone] = np.nan
    elif kind == 'nullable':
        v = ctx.rng.integers(-6, 7, n)
        data = pd.array(v, dtype=ctx.pick(['Int64', 'Int32', 'Int8']))
    elif kind in ('text', 'cat_text'):
        vocabulary = TEXTS if ctx.chance(0.4) else [str(s) for s in ctx.rng.permutation(TEXTS)[:ctx.int(1, 3)]]
        v = np.array([ctx.pick(vocabulary) for _ in range(n)], dtype=object)
        categories = [str(s) for s in ctx.rng.permutation(vocabulary)]
        if ctx.chance(0.4):  # Many of them, in front of or after the used ones
            more = [f'k{i}' for i in range(ctx.pick([9, 50, 130, 130, 260, 1100]))]
            categories = more + categories if ctx.chance(0.5) else categories + more
        data, typ = (v if kind == 'text' else pd.Categorical(v, categories=categories)), 'text'
    elif kind == 'cat_int':
        v = ctx.rng.integers(-4, 5, n)
        data = pd.Categorical(v, categories=[int(k) for k in ctx.rng.permutation(np.arange(-4, 5))])
    else:
        raise ValueError(kind)
    values = v.astype(object) if typ == 'text' else (np.asarray(v).astype(bool) if typ == 'bool' else np.asarray(v).astype(float))
    return data, values, typ


class Sym:
    """A term which can occur in expressions: its text, and its values broadcastable to (units, choices)"""

    def __init__(self, text, value, typ, scope_name):
        self.text, self.value, self.typ, self.scope_name = text, value, typ, scope_name


NAME = re.compile(r'[A-Za-z_][\w.]*')
LITERAL = re.compile(r"""'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*\"""")


def quote(ctx, text):
    """A literal for some text"""
    out = repr(text)
    if out[0] == "'" and '"' not in out and '\\' not in out and ctx.chance(0.5):
        out = f'"{text}"'
    return out


def layout(ctx, text):
    """The same expression with other whitespace, in parentheses"""
    out, end, lines = [], 0, ctx.chance(0.5)

    def space():
        return ctx.pick(['', '', '', ' ', '  ', '\t'] + (['\n', '\n    '] if lines else []))

    for tok in tokenize.generate_tokens(io.StringIO(f'({text})').readline):
        if tok.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            break
        gap = ' ' * (tok.start[1] > end)
        if tok.type == tokenize.OP and tok.string not in '.(){},:':
            out.append(f'{space()}{gap}{tok.string}{space()}')
        else:
            out.append(gap + tok.string)
        end = tok.end[1]
    return ''.join(out)


class Node:
    __slots__ = ('text', 'value', 'prec', 'uses')

    def __init__(self, text, value, prec, uses=frozenset()):
        self.text, self.value, self.prec, self.uses = text, value, prec, uses


class Scope:
    """Declares and assigns random symbols for a model, and remembers what they mean"""

    def __init__(self, ctx, model, tree, units, names=None):
        self.ctx, self.model, self.tree, self.units = ctx, model, tree, units
        self.n, self.c = len(units), tree.n
        self.names = [str(s) for s in ctx.rng.permutation(names or SYMBOL_NAMES)]
        self.terms = []
        self.assigned = {}  # Data by name of the symbol
        self.deferred = []  # Assignments which are left for later
        self.meta = {}
        self.fine = ctx.chance(0.3)  # Numbers which need double precision. Comparisons of these are exact all the same

    def fresh(self):
        return self.names.pop()

    def declare(self, kind=None, assign=True):
        ctx = self.ctx
        kind = kind or ctx.pick(['number', 'number', 'vector', 'vector', 'table', 'table', 'matrix', 'matrix'])
        name = self.fresh()
        first = len(self.terms)
        getattr(self, '_' + kind)(name)
        self.meta[name] = (kind, self.terms[first:])
        if assign:
            self.assign(name)
        return name

    def assign(self, name):
        self.model[name].assign(self.assigned[name])

    def _number(self, name):
        ctx = self.ctx
        self.model.declare_number(name)
        v = ctx.pick([2, -1, 0, 0.5, -1.25, 3.0, True, np.float32(0.5), np.int64(3), ctx.dyadic(None, 3)])
        if self.fine and ctx.chance(0.7):
            v = float(ctx.reals(None, 3))
        self.assigned[name] = v
        self.terms.append(Sym(name, np.full((1, 1), float(v)), 'num', name))

    def _vector(self, name):
        ctx = self.ctx
        o = ctx.pick([0, 0, 1])
        if ctx.chance(0.5):
            self.model.declare_vector(name, o)
        else:
            self.model.declare_vector(name, orientation=o)
        labels = self.model.choices if o else self.units
        data, values, typ = gen_column(ctx, len(labels), fine=self.fine)
        if not isinstance(data, np.ndarray) or typ == 'text' or ctx.chance(0.6):
            data = pd.Series(data, index=labels)
        self.assigned[name] = data
        self.terms.append(Sym(name, values[None, :] if o else values[:, None], typ, name))

    def _table(self, name):
        ctx = self.ctx
        o = ctx.pick([0, 0, 1])
        labels = self.model.choices if o else self.units
        cols = {}
        attrs = [str(s) for s in ctx.rng.permutation(ATTRIBUTES)[:ctx.int(1, 4)]]
        for a in attrs:
            data, values, typ = gen_column(ctx, len(labels), fine=self.fine)
            cols[a] = data
            self.terms.append(Sym(f'{name}.{a}', values[None, :] if o else values[:, None], typ, name))
        kw = {}
        if ctx.chance(0.3):
            kw['mandatory_attributes'] = set(attrs[:ctx.int(1, len(attrs))])
        if ctx.chance(0.2):
            kw['allow_links'] = False
        self.model.declare_table(name, o, **kw)
        frame = pd.DataFrame(cols, index=labels)
        if ctx.chance(0.3) and kw.get('allow_links', True):
            from cheval import LinkedDataFrame
            frame = LinkedDataFrame(frame)
        self.assigned[name] = frame

    def _matrix(self, name, part=None):
        ctx = self.ctx
        n, c = self.n, self.c
        o = ctx.pick([0, 0, 1])
        fill = ctx.pick([0, 0, 2, -1, 0.5])
        kind = ctx.pick(['float', 'float', 'int', 'bool'])
        if kind == 'float':
            values = ctx.reals((n, c), 4) if self.fine else ctx.dyadic((n, c), 4).astype(ctx.pick(['f8', 'f8', 'f4']))
        elif kind == 'int':
            values = ctx.rng.integers(-5, 6, (n, c)).astype(ctx.pick(['i2', 'i4', 'i8']))
            fill = int(fill)
        else:
            values, fill = ctx.rng.random((n, c)) < 0.5, False
        part = part or ctx.pick(['full', 'full', 'full', 'rows', 'cols', 'both', 'shuffled'])
        if not self.units.is_unique and part != 'cols':
            part = 'full'
        rows, cols = np.arange(n), np.arange(c)
        if part in ('rows', 'both', 'shuffled'):
            rows = ctx.rng.permutation(n)[:n if part == 'shuffled' else ctx.int(1, n)]
        if part in ('cols', 'both', 'shuffled'):
            cols = ctx.rng.permutation(c)[:c if part == 'shuffled' else ctx.int(1, c)]
        frame = pd.DataFrame(values, index=self.units, columns=self.model.choices)
        whole = np.full((n, c), fill, dtype=values.dtype)
        whole[np.ix_(rows, cols)] = values[np.ix_(rows, cols)]
        if part == 'full':
            whole = values
        else:
            frame = frame.iloc[rows, cols]
        kw = dict(fill_value=fill) if fill != 0 or ctx.chance(0.3) else {}
        if o or ctx.chance(0.3):
            kw['orientation'] = o
        self.model.declare_matrix(name, **kw)
        self.assigned[name] = frame.T if o else frame
        typ = 'bool' if kind == 'bool' else 'num'
        self.terms.append(Sym(name, whole if typ == 'bool' else whole.astype(float), typ, name))

    def of(self, typ):
        return [t for t in self.terms if t.typ == typ]


class Gen:
    """Grows expressions over the terms of a scope"""

    def __init__(self, ctx, terms, dict_keys=None, neg_inf=False, chained=True):
        """dict_keys: {text of the key: column positions it stands for}, if dict literals are allowed"""
        self.ctx, self.dict_keys, self.neg_inf = ctx, dict_keys, neg_inf
        self.nums = [t for t in terms if t.typ == 'num']
        self.bools = [t for t in terms if t.typ == 'bool']
        self.texts = [t for t in terms if t.typ == 'text']
        self.gaps = [t for t in terms if t.typ == 'gap']
        self.n_choices = None

    def wrap(self, node, need):
        if node.prec < need or self.ctx.chance(0.06):
            return f'({node.text})'
        return node.text

    def const(self, lo=-3, hi=3, decimal=False):
        ctx = self.ctx
        k = ctx.int(0, 4)
        if k == 0:
            v = ctx.int(0, hi)
            return Node(str(v), np.full((1, 1), float(v)), 13)
        if k == 1:
            v = ctx.pick([0.5, 0.25, 1.5, 2.0, 0.125])
            if decimal and ctx.chance(0.5):  # Needs double precision
                v = ctx.pick([1 / 3, 0.1, 0.045, 1e-3, 2.718281828, float(ctx.reals(None, 2))])
                return Node(f'{v!r}' if v >= 0 else f'({v!r})', np.full((1, 1), v), 13)
            return Node(ctx.pick([repr(v), f'{v:.3f}', f'{v:e}']), np.full((1, 1), v), 13)
        if k == 2:
            v = ctx.int(1, -lo)
            return Node(f'-{v}', np.full((1, 1), -float(v)), 11)
        v = ctx.pick([0.5, 1.5, 2.25])
        return Node(f'-{v}', np.full((1, 1), -v), 11)

    def leaf(self, terms):
        t = self.ctx.pick(terms)
        return Node(t.text, t.value, 13, frozenset([t.scope_name]))

    def dict_literal(self):
        ctx = self.ctx
        keys = [str(k) for k in ctx.rng.permutation(list(self.dict_keys))[:ctx.int(1, min(4, len(self.dict_keys)))]]
        value = np.zeros((1, self.n_choices))
        items = []
        for k in keys:
            v = ctx.pick([1, 2, -1, 0.5, -0.25, 3.75, -2.5, 0, 10])
            # A key which is not a name can be written as a string
            quoted = f"'{k}'" if '.' not in k and ctx.chance(0.3) else k
            items.append(f'{quoted}: {v}')
            value[0, self.dict_keys[k]] = v
        return Node('{' + ', '.join(items) + '}', value, 13)

    def num(self, depth):
        ctx = self.ctx
        if depth <= 0 or ctx.chance(0.12):
            k = ctx.rng.random()
            if self.dict_keys and k < 0.15:
                return self.dict_literal()
            if self.nums and k < 0.8:
                return self.leaf(self.nums)
            return self.const(decimal=True)
        k = ctx.pick(['+', '-', '*', '+', '-', '*', '/', 'neg', 'pow', 'where', 'where', 'func', 'func', 'bool*', 'chain'] + (['gap'] if self.gaps else []))
        a = self.num(depth - 1)
        if k in '+-':
            b = self.num(depth - 1)
            sp = ctx.pick(['', ' ', ' '])
            return Node(f'{self.wrap(a, 9)}{sp}{k}{sp}{self.wrap(b, 10)}',
                        a.value + b.value if k == '+' else a.value - b.value, 9, a.uses | b.uses)
        if k == '*':
            b = self.num(depth - 1)
            if np.abs(a.value).max() * np.abs(b.value).max() > 1e5:
                return a
            return Node(f'{self.wrap(a, 10)} * {self.wrap(b, 11)}', a.value * b.value, 10, a.uses | b.uses)
        if k == '/':
            if ctx.chance(0.5):
                v = ctx.pick([2, 4, 0.5, 8, 3, 7])
                return Node(f'{self.wrap(a, 10)} / {v}', a.value / v, 10, a.uses)
            b = self.num(depth - 1)
            return Node(f'{self.wrap(a, 10)} / (abs({b.text}) + 1)', a.value / (np.abs(b.value) + 1), 10, a.uses | b.uses)
        if k == 'neg':
            return Node(f'-{self.wrap(a, 11)}', -a.value, 11, a.uses)
        if k == 'pow':
            e = ctx.pick([2, 2, 3])
            if np.abs(a.value).max() > 40:
                return a
            return Node(f'{self.wrap(a, 13)} ** {e}', a.value ** e, 12, a.uses)
        if k == 'where':
            b, c = self.boolean(depth - 1), self.num(depth - 1)
            return Node(f'where({b.text}, {a.text}, {c.text})', np.where(b.value, a.value, c.value), 13,
                        a.uses | b.uses | c.uses)
        if k == 'gap':
            g = self.leaf(self.gaps)
            test = ctx.pick([f'isnan({g.text})', f'not ({g.text} == {g.text})', f'{g.text} != {g.text}'])
            return Node(f'where({test}, {a.text}, {g.text})', np.where(np.isnan(g.value), a.value, g.value), 13, a.uses | g.uses)
        if k == 'func' and ctx.chance(0.4):
            f = ctx.pick(['maximum', 'minimum', 'hypot', 'ceil', 'trunc', 'cos', 'tanh', 'arctan', 'expm1', 'log10', 'copysign', 'sinh'])
            if f in ('maximum', 'minimum'):
                b = self.num(depth - 1)
                return Node(f'{f}({a.text} * 1.0, {b.text} * 1.0)' if a.prec >= 10 and b.prec >= 10 else f'{f}(({a.text}) * 1.0, ({b.text}) * 1.0)',
                            getattr(np, f)(a.value, b.value), 13, a.uses | b.uses)
            if f in ('hypot', 'copysign'):
                b = self.leaf(self.nums) if self.nums and f == 'hypot' else Node('2.5', np.full((1, 1), 2.5), 13)
                if f == 'copysign':
                    return Node(f'copysign({self.wrap(a, 10)} * 1.0, 2.5)', np.abs(a.value), 13, a.uses)
                return Node(f'hypot({self.wrap(a, 10)} * 1.0, {b.text} * 1.0)', np.hypot(a.value, b.value), 13, a.uses | b.uses)
            if f in ('ceil', 'trunc'):
                a = self.exact(1)
                return Node(f'{f}({self.wrap(a, 10)} / 2.0)', getattr(np, f)(a.value / 2.0), 13, a.uses)
            if f == 'log10':
                return Node(f'log10(abs({a.text}) + 1)', np.log10(np.abs(a.value) + 1), 13, a.uses)
            if f in ('expm1', 'sinh'):
                return Node(f'{f}(tanh({a.text}))', getattr(np, f)(np.tanh(a.value)), 13, a.uses)
            return Node(f'{f}({a.text})', getattr(np, f)(a.value), 13, a.uses)
        if k == 'func':
            f = ctx.pick(['abs', 'log', 'sqrt', 'exp', 'log1p', 'sin', 'floor', 'arctan2'])
            if f == 'abs':
                return Node(f'abs({a.text})', np.abs(a.value), 13, a.uses)
            if f == 'log':
                return Node(f'log(abs({a.text}) + 1)', np.log(np.abs(a.value) + 1), 13, a.uses)
            if f == 'sqrt':
                return Node(f'sqrt(abs({a.text}))', np.sqrt(np.abs(a.value)), 13, a.uses)
            if f == 'log1p':
                return Node(f'log1p(abs({a.text}))', np.log1p(np.abs(a.value)), 13, a.uses)
            if f == 'exp':
                return Node(f'exp(-abs({a.text}))', np.exp(-np.abs(a.value)), 13, a.uses)
            if f == 'sin':
                return Node(f'sin({a.text})', np.sin(a.value), 13, a.uses)
            if f == 'floor':
                a = self.exact(1)
                return Node(f'floor({self.wrap(a, 10)} / 2.0)', np.floor(a.value / 2.0), 13, a.uses)
            b = self.num(depth - 1)
            return Node(f'arctan2({a.text}, abs({b.text}) + 1)', np.arctan2(a.value, np.abs(b.value) + 1), 13,
                        a.uses | b.uses)
        if k == 'bool*':
            b = self.boolean(depth - 1)
            if ctx.chance(0.5):
                return Node(f'{self.wrap(b, 13)} * {self.wrap(a, 11)}', b.value * a.value, 10, a.uses | b.uses)
            return Node(f'{self.wrap(a, 10)} * {self.wrap(b, 13)}', a.value * b.value, 10, a.uses | b.uses)
        # Sums of several products, the typical form of a utility
        parts, value, uses = [], 0, frozenset()
        for _ in range(ctx.int(2, 3)):
            p, q = self.num(0), self.num(0)
            parts.append(f'{self.wrap(p, 10)} * {self.wrap(q, 11)}')
            value, uses = value + p.value * q.value, uses | p.uses | q.uses
        return Node(' + '.join(parts), value, 9, uses)

    def boolean(self, depth):
        ctx = self.ctx
        options = ['cmp', 'cmp', 'cmp3'] + (['sym'] if self.bools else []) + (['text', 'text'] if self.texts else [])
        if depth > 0:
            options += ['and', 'or', 'not', 'and3', '&']
        k = ctx.pick(options)
        ops = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal, '==': np.equal, '!=': np.not_equal}
        if k == 'sym':
            return self.leaf(self.bools)
        if k == 'text':
            t, op = self.leaf(self.texts), ctx.pick(['==', '!='])
            if len(self.texts) > 1 and ctx.chance(0.2):
                u = self.leaf(self.texts)
                return Node(f'{t.text} {op} {u.text}', ops[op](t.value, u.value).astype(bool), 4, t.uses | u.uses)
            lit = ctx.pick(TEXTS + ['absent'])
            if ctx.chance(0.4):  # One which occurs in the data
                lit = str(ctx.pick(list(np.ravel(t.value)[:50])))
            quoted = quote(ctx, lit)
            if lit and ctx.chance(0.15):
                found = np.frompyfunc(lambda x: lit in x, 1, 1)(t.value).astype(bool)
                return Node(f'contains({t.text}, {quoted})', found, 13, t.uses)
            text = f'{t.text} {op} {quoted}' if ctx.chance(0.8) else f'{quoted} {op} {t.text}'
            return Node(text, ops[op](t.value, lit).astype(bool), 4, t.uses)
        if k == 'cmp':
            a, b, op = self.exact(depth - 1), self.anchor(), ctx.pick(list(ops))
            if ctx.chance(0.5):
                a, b = b, a
            return Node(f'{self.wrap(a, 5)} {op} {self.wrap(b, 5)}', ops[op](a.value, b.value), 4, a.uses | b.uses)
        if k == 'cmp3':
            a, b, c = self.exact(0), self.anchor(), self.exact(depth - 1)
            o1, o2 = ctx.pick(['<', '<=', '>', '==']), ctx.pick(['<', '<=', '>', '!='])
            text = f'{self.wrap(a, 5)} {o1} {self.wrap(b, 5)} {o2} {self.wrap(c, 5)}'
            value = ops[o1](a.value, b.value) & ops[o2](b.value, c.value)
            uses = a.uses | b.uses | c.uses
            if ctx.chance(0.3):
                d, o3 = self.anchor(), ctx.pick(['<', '>='])
                text += f' {o3} {self.wrap(d, 5)}'
                value, uses = value & ops[o3](c.value, d.value), uses | d.uses
            return Node(text, value, 4, uses)
        if k == 'not':
            a = self.boolean(depth - 1)
            return Node(f'not {self.wrap(a, 3)}', ~a.value, 3, a.uses)
        if k == '&':
            a, b, op = self.boolean(depth - 1), self.boolean(depth - 1), ctx.pick('&|')
            return Node(f'({a.text}) {op} ({b.text})', a.value & b.value if op == '&' else a.value | b.value, 5,
                        a.uses | b.uses)
        n = 3 if k == 'and3' else 2
        items = [self.boolean(depth - 1) for _ in range(n)]
        value, uses = items[0].value, items[0].uses
        for i in items[1:]:
            value, uses = (value | i.value if k == 'or' else value & i.value), uses | i.uses
        word, prec = ('or', 1) if k == 'or' else ('and', 2)
        return Node(f' {word} '.join(self.wrap(i, prec + 1) for i in items), value, prec, uses)

    def anchor(self):
        """A number which is not constant. NumExpr cannot negate comparisons of constants"""
        return self.leaf(self.nums)

    def exact(self, depth):
        """A number whose value has no rounding errors, so that comparisons are well-defined"""
        ctx = self.ctx
        if depth <= 0 or ctx.chance(0.4):
            return self.leaf(self.nums) if self.nums and ctx.chance(0.75) else self.const()
        a, b = self.exact(depth - 1), self.exact(0)
        k = ctx.pick('+-*')
        value = a.value + b.value if k == '+' else (a.value - b.value if k == '-' else a.value * b.value)
        p = 10 if k == '*' else 9
        return Node(f'{self.wrap(a, p)} {k} {self.wrap(b, p + 1)}', value, p, a.uses | b.uses)

    def utility(self, n, c, depth=None, limit=20.0):
        """An expression whose values are moderate. Returns (text, values [n x c], names of used symbols)"""
        ctx = self.ctx
        self.n_choices = c
        while True:
            d = ctx.pick([0, 1, 1, 2, 2, 3]) if depth is None else depth
            e = self.boolean(d) if ctx.chance(0.06) else self.num(d)  # Truth counts as 1
            if self.neg_inf and ctx.chance(0.25):
                b = self.boolean(1)
                e = Node(f'where({b.text}, NEG_INF, {e.text})', np.where(b.value, -np.inf, e.value), 13, e.uses | b.uses)
            if len(NAME.findall(LITERAL.sub('', e.text))) > 28:  # The number of operands of NumExpr is limited
                continue
            v = np.broadcast_to(e.value, (n, c)).astype(float)
            finite = v[np.isfinite(v)]
            if not np.isnan(v).any() and (finite.size == 0 or np.abs(finite).max() <= limit):
                return e.text, v, e.uses
