"""A choice model along with a reference of its state. Every operation gets applied to both of them, which allows to judge the
real model after arbitrary histories of operations. Values are exact in single precision, as are their sums,
except for the double precision data of some of the models"""
import numpy as np
import pandas as pd

from rtm.models import check_utilities, gen_units

SIMPLE = {'number': ['b0', 'b1', 'x_b', '_b'], 'vector': ['x', 'x1', 'v', 'vv', '_v'], 'matrix': ['m', 'mm', 'x_m', '__m', 'M']}
TABLES = ['t', 'tt', 'hh', '_t', 'T2']
ATTRS = ['a', 'b', 'x', 'm']
GROUPS = ['g', 'h', 3, ('k', 1), 0, '']


class Sym:
    def __init__(self, kind, o, fill=0):
        self.kind, self.o, self.fill = kind, o, fill
        self.value = None  # number: float; vector/matrix: array which broadcasts; table: {attribute: array}
        self.unsure = False  # Whether the symbol is still assigned is not specified

    def copy(self, assigned=True, mask=None):
        new = Sym(self.kind, self.o, self.fill)
        if assigned:
            new.value, new.unsure = self.value, self.unsure
            if mask is not None and self.value is not None and self.kind != 'number':
                if self.kind == 'table':
                    if self.o == 0:
                        new.value = {k: v[mask] for k, v in self.value.items()}
                elif self.kind == 'matrix' or self.o == 0:
                    new.value = self.value[mask]
        return new


class Expr:
    def __init__(self, text, fn, uses, group=None):
        self.text, self.fn, self.uses, self.group = text, fn, frozenset(uses), group


class Twin:
    def __init__(self, ctx, tree, model=None, precision=None, name='m'):
        from cheval import ChoiceModel
        self.ctx, self.tree, self.name = ctx, tree, name
        self.precision = precision or ctx.pick([8, 8, 4])
        self.fine, self.rough = ctx.chance(0.5), self.precision == 4
        self.units = None
        self.scope = {}
        self.exprs = []
        self.partial, self.partial_units = None, None
        self.shared_tree = False
        self.inputs = []  # Everything which was passed to the model, with deep copies of it
        if model is None:
            model = ChoiceModel(precision=self.precision)
            tree.build(model, ctx.rng)
        self.model = model

    # region Reference

    @property
    def n(self):
        return len(self.units)

    @property
    def c(self):
        return self.tree.n

    @property
    def tol(self):
        """The precision which can be expected of results"""
        return 4 if self.precision == 4 or self.fine and self.rough else 8

    def groups(self):
        out = []
        for e in self.exprs:
            if e.group is not None and e.group not in out:
                out.append(e.group)
        return out

    def selected(self, group=None):
        """In the order of evaluation"""
        if group is not None:
            return [e for e in self.exprs if e.group == group]
        return [e for e in self.exprs if e.group is None] + [e for g in self.groups() for e in self.exprs if e.group == g]

    def tree_ready(self):
        return sum(nd.parent < 0 for nd in self.tree.nodes) >= 2 and all(len(nd.children) != 1 for nd in self.tree.nodes)

    def missing(self, group=None):
        """Names of the symbols which aren't declared or assigned. None if it isn't specified"""
        out, unsure = [], False
        for e in self.selected(group):
            for s in e.uses:
                if s not in self.scope or (self.scope[s].value is None and not self.scope[s].unsure):
                    out.append(s)
                elif self.scope[s].unsure:
                    unsure = True
        return out if out or not unsure else None

    def ready(self, group=None):
        """True, False, or None"""
        if self.units is None or not self.tree_ready():
            return False
        missing = self.missing(group)
        return None if missing is None else not missing

    def utilities(self, group=None, upto=None):
        U = np.zeros((self.n, self.c)) if self.partial is None else self.partial.copy()
        for e in self.selected(group)[:upto]:
            U = U + e.fn(self)
        return U

    # endregion
    # region Operations

    def take(self, obj):
        """Remembers what was passed to the model"""
        self.inputs.append((obj, obj.copy(deep=True) if hasattr(obj, 'iloc') else obj.copy()))
        return obj

    def note(self, *what):
        self.ctx.note(f'{self.name}:', *what)

    def dyadic(self, size=None, dt='f8'):
        if self.fine and dt == 'f8':
            return self.ctx.reals(size, 2)
        return (self.ctx.rng.integers(-8, 9, size) * 0.25).astype(dt) if size is not None else self.ctx.int(-8, 8) * 0.25

    def set_units(self, units=None, n=None):
        ctx = self.ctx
        if units is None:
            units = gen_units(ctx, n or (self.c if ctx.chance(0.12) and 1 < self.c < 9 else ctx.int(1, 6)), unique=ctx.chance(0.85))
            ctx.count('repeated_units', not units.is_unique)
        given = ctx.pick([units, units, list(units), pd.Series(units)]) if not isinstance(units, pd.MultiIndex) else units
        self.note('decision_units =', str(list(units))[:200])
        self.model.decision_units = given
        if not isinstance(given, pd.Index):
            units = pd.Index(given)
        for s in self.scope.values():
            if s.kind == 'number':
                continue
            if s.kind != 'matrix' and s.o == 1:
                s.unsure = s.unsure or s.value is not None  # These don't depend on the decision units
            s.value = None
        if self.partial is not None and not self.partial_units.equals(units):
            self.partial = self.partial_units = None
        self.units = units

    def declare(self, name=None, kind=None):
        ctx = self.ctx
        if name is None:
            kind = kind or ctx.pick(['number', 'vector', 'vector', 'matrix', 'matrix', 'table', 'table'])
            name = ctx.pick(TABLES if kind == 'table' else SIMPLE[kind])
        elif kind is None:
            kind = 'table' if name in TABLES else next(k for k, v in SIMPLE.items() if name in v)
        o = ctx.pick([0, 0, 1])
        m = self.model
        fill = 0
        self.note('declare', name, kind, o)
        if kind == 'number':
            m.declare_number(name)
        elif kind == 'vector':
            m.declare_vector(name, o)
        elif kind == 'table':
            m.declare_table(name, o, mandatory_attributes=set(ATTRS[:ctx.int(0, 2)]) or None)
        else:
            fill = ctx.pick([0, 0, 0.5, -1])
            m.declare_matrix(name, o, fill_value=fill)
        self.scope[name] = Sym(kind, o, fill)
        return name

    def assign(self, name):
        ctx, s, m = self.ctx, self.scope[name], self.model
        self.note('assign', name)
        s.unsure = False
        if s.kind == 'number':
            s.value = float(self.dyadic())
            m[name].assign(s.value)
            return
        labels = m.choices if s.o else self.units
        k = len(labels)
        dt = ctx.pick(['f8', 'f8', 'f4'])
        if s.kind == 'vector':
            v = self.dyadic(k, dt)
            m[name].assign(self.take(v.copy() if ctx.chance(0.4) else pd.Series(v, index=labels)))
            s.value = (v[None, :] if s.o else v[:, None]).astype(float)
        elif s.kind == 'table':
            v = {a: self.dyadic(k, ctx.pick(['f8', 'f4'])) for a in ATTRS}
            frame = pd.DataFrame({a: v[a] for a in ctx.rng.permutation(ATTRS)}, index=labels)
            if ctx.chance(0.3):
                frame = pd.DataFrame(np.stack([v[a] for a in ATTRS], axis=1), index=labels, columns=ATTRS)  # One block
            m[name].assign(self.take(frame))
            s.value = {a: (w[None, :] if s.o else w[:, None]).astype(float) for a, w in v.items()}
        else:
            rows, cols = np.arange(self.n), np.arange(self.c)
            if ctx.chance(0.4) and self.units.is_unique:
                rows = ctx.rng.permutation(self.n)[:ctx.int(1, self.n)]
            if ctx.chance(0.4):
                cols = ctx.rng.permutation(self.c)[:ctx.int(1, self.c)]
            v = self.dyadic((len(rows), len(cols)), dt)
            frame = pd.DataFrame(v, index=self.units[rows], columns=m.choices[cols])
            m[name].assign(self.take(frame.T if s.o else frame))
            whole = np.full((self.n, self.c), float(s.fill))
            whole[np.ix_(rows, cols)] = v
            s.value = whole

    def expression(self, kinds=None, names=None):
        """Grows an expression, whose symbols do not need to be declared yet"""
        ctx = self.ctx

        def factor():
            k = ctx.pick(kinds or ['number', 'vector', 'vector', 'matrix', 'matrix', 'table', 'table', 'literal', 'const'])
            if k == 'literal':
                idx = ctx.rng.permutation(self.c)[:ctx.int(1, min(3, self.c))]
                vals = {int(i): ctx.pick([1, 2, -1, 0.5, -2]) for i in idx}
                arr = np.zeros((1, self.c))
                for i, v in vals.items():
                    arr[0, i] = v
                return '{' + ', '.join(f'{self.tree.dotted(i)}: {v}' for i, v in vals.items()) + '}', \
                    (lambda tw, arr=arr: arr), ()
            if k == 'const':
                v = ctx.pick([1, 2, 0.5])
                return str(v), (lambda tw, v=v: np.full((1, 1), float(v))), ()
            pool = TABLES if k == 'table' else SIMPLE[k]
            if names is not None:
                pool = [p for p in pool if p in names] or pool
            name = ctx.pick(pool)
            if k == 'table':
                a = ctx.pick(ATTRS)
                return f'{name}.{a}', (lambda tw: tw.scope[name].value[a]), (name,)
            return name, (lambda tw: np.asarray(tw.scope[name].value, dtype=float)), (name,)

        parts, fns, uses = [], [], set()
        for _ in range(ctx.int(1, 3)):
            t1, f1, u1 = factor()
            uses.update(u1)
            how = ctx.pick(['one', 'coef', 'two', 'two', 'where', 'inf'] if not parts else ['one', 'coef', 'two', 'where'])
            if how == 'one':
                parts.append(t1)
                fns.append(f1)
            elif how == 'coef':
                v = ctx.pick([2, 0.5, 1])
                parts.append(f'{v} * {t1}')
                fns.append(lambda tw, v=v, f=f1: v * f(tw))
            else:
                if how == 'two':
                    t2, f2, u2 = factor()
                    uses.update(u2)
                    parts.append(f'{t1} * {t2}')
                    fns.append(lambda tw, f=f1, g=f2: f(tw) * g(tw))
                else:
                    t3 = ctx.pick(['x', 'm', 'b0'])
                    uses.add(t3)
                    alt, val = ('NEG_INF', -np.inf) if how == 'inf' and ctx.chance(0.3) else ('1', 1.0)
                    parts.append(f'where({t3} > 1, {alt}, {t1})')
                    fns.append(lambda tw, t=t3, f=f1, val=val: np.where(tw.scope[t].value > np.float64(1), val, f(tw)))
        text = ' + '.join(parts)

        j = ctx.int(0, self.c - 1) if ctx.chance(0.2) else None
        if j is not None:
            text += f' @ {self.tree.dotted(j)}'

        def fn(tw):
            total = np.zeros((tw.n, tw.c))
            for f in fns:
                total = total + f(tw)
            if j is not None:
                out = np.zeros_like(total)
                out[:, j] = total[:, j]
                return out
            return total

        return Expr(text, fn, uses)

    def append(self, expr=None, group=None):
        expr = expr or self.expression()
        self.note('append', expr.text, '' if group is None else f'group={group!r}')
        if group is None and self.ctx.chance(0.2):
            self.model.expressions = [expr.text]
        elif group is None:
            self.model.expressions.append(expr.text)
        else:
            self.model.expressions.append(expr.text, group=group)
        self.exprs.append(Expr(expr.text, expr.fn, expr.uses, group))

    def complete(self, group=None, only=None):
        """Declares and assigns everything that is used by the expressions"""
        if self.units is None:
            self.set_units()
        for e in self.selected(group):
            for s in sorted(e.uses):
                if s not in self.scope:
                    self.declare(s)
                if self.scope[s].value is None:
                    self.assign(s)

    def add_partial(self):
        ctx = self.ctx
        rows, cols = np.arange(self.n), np.arange(self.c)
        if ctx.chance(0.5) and self.units.is_unique:
            rows = ctx.rng.permutation(self.n)[:ctx.int(1, self.n)]
        if ctx.chance(0.5):
            cols = ctx.rng.permutation(self.c)[:ctx.int(1, self.c)]
        v = self.dyadic((len(rows), len(cols)), ctx.pick(['f8', 'f4']))
        frame = pd.DataFrame(v, index=self.units[rows], columns=self.model.choices[cols])
        self.note('add_partial_utilities', rows, cols)
        self.model.add_partial_utilities(self.take(frame), reindex_rows=True)
        if self.partial is None:
            self.partial, self.partial_units = np.zeros((self.n, self.c)), self.units
        else:
            self.partial = self.partial.copy()
        self.partial[np.ix_(rows, cols)] += v

    def set_precision(self, p=None):
        self.precision = p or self.ctx.pick([4, 8])
        self.rough |= self.precision == 4
        self.note('precision =', self.precision)
        self.model.precision = self.precision

    def clear_scope(self):
        self.note('clear_scope')
        self.model.clear_scope()
        self.scope = {}

    def drop_group(self, group):
        self.note('drop_group', repr(group))
        self.model.expressions.drop_group(group)
        self.exprs = [e for e in self.exprs if e.group != group]

    def preval(self, group, drop_group=True, cleanup_scope=True, n_threads=None, logger=None):
        """For a group that is ready"""
        self.note('preval', repr(group), 'drop_group', drop_group, 'cleanup_scope', cleanup_scope)
        U = self.utilities(group)
        kw = dict(n_threads=n_threads) if n_threads else {}
        if logger is not None:
            kw['logger'] = logger
        if not drop_group:
            kw['drop_group'] = False
        if not cleanup_scope:
            kw['cleanup_scope'] = False
        self.model.preval(group, **kw)
        self.partial, self.partial_units = U, self.units
        mine = {s for e in self.exprs if e.group == group for s in e.uses}
        others = {s for e in self.exprs if e.group != group for s in e.uses}
        if cleanup_scope:
            for s in mine - others:
                del self.scope[s]
        if drop_group:
            self.exprs = [e for e in self.exprs if e.group != group]

    def add_choice(self, parent=-1, theta=1.0):
        name = f'new{self.tree.n}'
        self.note('add_choice', name, 'below', parent)
        if parent < 0:
            self.tree.handles[self.tree.n] = self.model.add_choice(name, theta)
        else:
            self.tree.handles[self.tree.n] = self.tree.handles[parent].add_choice(name, theta)
        return self.tree.add(name, theta, parent)

    def _clone(self, model, name):
        new = Twin.__new__(Twin)
        new.ctx, new.tree, new.name, new.model = self.ctx, self.tree, name, model
        new.precision, new.units, new.exprs = self.precision, self.units, list(self.exprs)
        new.partial, new.partial_units = self.partial, self.partial_units
        new.shared_tree = self.shared_tree = True
        new.inputs = self.inputs
        new.fine, new.rough = self.fine, self.rough
        return new

    def copy(self, name, **kw):
        self.note('copy to', name, kw)
        new = self._clone(self.model.copy(**kw), name)
        assigned = kw.get('scope_assigned', True)
        new.scope = {}
        if kw.get('scope_declared', True) or assigned:
            new.scope = {k: s.copy(assigned) for k, s in self.scope.items()}
        if not (kw.get('decision_units', True) or assigned):
            new.units = None
        if not kw.get('expressions', True):
            new.exprs = []
        if not kw.get('utilities', True):
            new.partial = new.partial_units = None
        return new

    def copy_subset(self, name, mask=None):
        ctx = self.ctx
        if mask is None:
            mask = ctx.rng.random(self.n) < ctx.pick([0.3, 0.6, 0.9])
            mask[ctx.int(0, self.n - 1)] = True
        self.note('copy_subset to', name, mask.astype(int))
        new = self._clone(self.model.copy_subset(pd.Series(mask, index=self.units)), name)
        new.units = self.units[mask]
        new.scope = {k: s.copy(True, mask) for k, s in self.scope.items()}
        if self.partial is not None:
            new.partial, new.partial_units = self.partial[mask], new.units
        return new

    # endregion
    # region Judgements

    def check(self, what='', group=None, **kw):
        """The model is either ready, and its utilities are the expected ones, or it says that it isn't ready"""
        from cheval.exceptions import ModelNotReadyError
        ctx = self.ctx
        ctx.check(self.model.precision == self.precision, f'{self.name} {what}: precision is {self.model.precision} instead of {self.precision}')
        ready = self.ready(group)
        gk = {} if group is None else {'group': group}
        if ready is None:
            ctx.count('unspecified')
            return None
        if not ready:
            ctx.raises(ModelNotReadyError, lambda: self.model.run_stochastic(clear_scope=False, **gk),
                       f'{self.name} {what}: run of a model which is not ready')
            ctx.count('not_ready')
            return False
        check_utilities(ctx, self.model, self.tree, self.utilities(group), f'{self.name} {what}: utilities',
                        self.tol, **gk, **kw)
        ctx.count('runs')
        return True

    def check_inputs(self):
        from rtm.core import same_frame
        for obj, before in self.inputs:
            self.ctx.count('inputs_compared')
            same_frame(self.ctx, obj, before, 'data passed by the caller')
    # endregion
