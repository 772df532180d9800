"""Data which is not needed any more is released, and runs leave nothing behind"""
import gc
import tracemalloc
import weakref

import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import gen_any_tree, gen_units

SHARDS = {'py': 8, 'jit': 1}
QUICK = 1
RULE = ('A case is a random model or a set of linked tables. Weak references to everything that was assigned (and to the memory it '
        'is in) tell what survives its release; after some repetitions, further ones of the same operation (runs, refused runs '
        'and expressions, copies, lookups, aggregations, slices, ...) must not add to the memory and objects in use; and the allocator '
        'of the compiled code must have got back all it has given out. Distinct by model and operation.')
ASSUMPTIONS = ['garbage is collected before references are judged', 'caches of NumExpr and pandas are warm, and belong to them',
               'what becomes of the memory of data while it is still assigned is not specified',
               'slices may keep the frame that they come from, and copies the model that they come from']
MINIMUM = {'released': 3000, 'releases': 500, 'repetitions': 2500, 'allocations': 500, 'refused_runs': 100}


frozen = []


def settle():
    """What is there before the first case doesn't need to be looked at each time"""
    if not frozen:
        from rtm import exprs, frames, shadow  # noqa: F401
        import cheval  # noqa: F401
        clean()
        gc.freeze()
        frozen.append(True)


def clean():
    # NumExpr remembers the output of its last evaluation (belongs to NumExpr, not to the package)
    import numexpr as ne
    one = np.ones(2)
    ne.evaluate('one + 1', local_dict={'one': one})
    del one
    for _ in range(2):
        gc.collect()


class Watch:
    """Weak references by name of the symbol"""

    def __init__(self):
        self.refs = {}

    def add(self, name, *objects):
        self.refs.setdefault(name, []).extend((type(o).__name__, weakref.ref(o)) for o in objects)
        return objects[0]

    def alive(self, names):
        return [f'{what} assigned to {n}' for n in names for what, r in self.refs.get(n, []) if r() is not None]

    def forget(self, names):
        return sum(len(self.refs.pop(n, [])) for n in names)


def assign(ctx, m, name, watch, rows, cols):
    """Assigns new data. The kind of the symbol is the first letter of its name"""
    from cheval import LinkedDataFrame
    o = int(name[-1])
    idx = cols if o else rows
    n, k = len(idx), name[0]
    if k == 'n':
        m[name].assign(1.5)
    elif k == 'v':
        how = ctx.pick(['array', 'series', 'text', 'cat'])
        if how in ('array', 'series'):
            arr = np.ones(n, dtype=ctx.pick(['f8', 'f4', 'i8']))
            data = arr if how == 'array' else pd.Series(arr, index=idx, copy=False)
            watch.add(name, data, *([arr] if how == 'series' else []))
        else:
            data = watch.add(name, pd.Series(['some', 'text'] * n, dtype='category' if how == 'cat' else object)[:n])
            data.index = idx
        m[name].assign(data)
    elif k == 't':
        arr = np.ones((n, 2))
        data = pd.DataFrame(arr, index=idx, columns=['a', 'b'], copy=False)
        if ctx.chance(0.5):
            data = LinkedDataFrame(data)
            other = LinkedDataFrame({'x': np.ones(3)}) if ctx.chance(0.5) else pd.DataFrame({'x': np.ones(3)})
            data['key'] = 1
            data.link_to(other, 'far', on_self='key', precompute=ctx.chance(0.5))
            data.far.x
            watch.add(name, other)
        watch.add(name, data, arr)
        m[name].assign(data)
    else:
        shape = (len(rows), len(cols)) if not o else (len(cols), len(rows))
        arr = np.ones(shape)
        data = pd.DataFrame(arr, index=cols if o else rows, columns=rows if o else cols, copy=False)
        if ctx.chance(0.4):
            data = data.iloc[:, ::-1]
        watch.add(name, data, arr)
        m[name].assign(data)


def declare(ctx, m, name):
    o = int(name[-1])
    if name[0] == 'n':
        m.declare_number(name)
    elif name[0] == 'v':
        m.declare_vector(name, o)
    elif name[0] == 't':
        m.declare_table(name, o)
    else:
        m.declare_matrix(name, o)


def term(name):
    if name[0] == 't':
        return f'{name}.a'
    return f'where({name} == 0, 1, 2)' if name[0] == 'v' else name


def make(ctx, n=None):
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx)
    m = ChoiceModel(precision=ctx.pick([4, 8]))
    tree.build(m, ctx.rng)
    del tree.handles  # Nodes have references to their model
    units = gen_units(ctx, n or ctx.pick([1, 3, 8]))
    m.decision_units = units
    return m, tree


def guarded(fn):
    """Without the references that exceptions have"""
    try:
        fn()
        return True
    except Exception:
        return False


def scope(ctx):
    settle()
    m, tree = make(ctx)
    watch = Watch()
    names = [f'{k}_{i}_{ctx.int(0, 1)}' for i, k in enumerate(ctx.pick([['n', 'v', 'v', 't', 'm'], ['v', 't'], ['m', 't', 'v'], ['t', 'v', 'm', 'm']]))]
    shared = ctx.pick(names)
    for name in names:
        declare(ctx, m, name)
        group = None if ctx.chance(0.5) else 'g'
        text = term(name)
        if name[0] == 'v':
            text = '1'  # Could be text
        m.expressions.append(f'0.5 * {text}', group=group)
        if name == shared:
            m.expressions.append(f'0.25 * {text}', group='h')
    rows, cols = m.decision_units, m.choices
    kept = []
    for _ in range(ctx.int(1, 3)):
        for name in names:
            if ctx.chance(0.7) or not m[name].filled:
                before = watch.refs.pop(name, [])
                assign(ctx, m, name, watch, rows, cols)
                watch.refs[f'{name} before'] = before
        for _ in range(ctx.int(0, 3)):
            op = ctx.pick(['stochastic', 'discrete', 'group', 'copy', 'subset', 'kept copy', 'validate', 'refused data', 'precision'])
            ctx.note(op)
            if op == 'stochastic':
                m.run_stochastic(clear_scope=False, check_infeasible=False)
            elif op == 'discrete':
                m.run_discrete(clear_scope=False, n_draws=ctx.pick([1, 3]))
            elif op == 'group':
                guarded(lambda: m.run_stochastic(group='h', clear_scope=False))
            elif op == 'copy':
                c = m.copy(scope_assigned=ctx.chance(0.7))
                guarded(lambda: c.run_stochastic())
                del c
            elif op == 'subset':
                m.copy_subset(pd.Series(np.arange(len(rows)) % 2 == 0, index=rows)).run_stochastic()
            elif op == 'kept copy':
                c = m.copy()
                c.clear_scope()
                kept.append(c)
                del c
            elif op == 'validate':
                m.validate()
            elif op == 'precision':
                m.precision = ctx.pick([4, 8])
            else:
                bad = watch.add('refused', np.ones((len(rows) + 7, 2, 2)))
                guarded(lambda: m[ctx.pick(names)].assign(bad) if names[0][0] != 'n' else None)
                del bad
        old = [k for k in watch.refs if k.endswith(' before') or k == 'refused']
        clean()
        left = watch.alive(old)
        ctx.check(not left, f'still referenced, although other data was assigned or it was refused: {left}')
        ctx.count('released', watch.forget(old))
    how = ctx.pick(['run', 'discrete', 'group run', 'clear', 'units', 'declare', 'preval', 'preval all', 'delete'])
    ctx.note('release:', how)
    gone = list(names)
    if how == 'run':
        m.run_stochastic(check_infeasible=False)
    elif how == 'discrete':
        m.run_discrete(n_draws=ctx.pick([1, 2]))
    elif how == 'group run':
        m.run_stochastic(group='h')
    elif how == 'clear':
        m.clear_scope()
    elif how == 'units':
        m.decision_units = pd.Index(range(100, 100 + len(rows)))
    elif how == 'declare':
        for name in names:
            declare(ctx, m, name)
    elif how in ('preval', 'preval all'):
        uses = {}
        for g in ([None] + list('gh')):
            exprs = m.expressions.tolist(raw=True) if g is None else [e.raw for e in m.expressions.get_group(g)] if g != 'g' or \
                guarded(lambda: m.expressions.get_group('g')) else []
            uses[g] = {n for n in names if any(n in e for e in exprs)}
        m.preval('h')
        gone = [n for n in names if n in uses['h'] and n not in uses[None] | uses['g']]
        if how == 'preval all' and uses['g']:
            m.preval('g')
            gone += [n for n in names if n in uses['g'] and n not in uses[None] and n not in gone]
    elif how == 'delete':
        del m, kept
    clean()
    left = watch.alive(gone)
    ctx.check(not left, f'still referenced after {how}: {left}')
    ctx.count('released', watch.forget(gone))
    ctx.count('releases')
    ctx.sig(tree.describe(), names, how, ctx.trace)


def measure(ctx, what, op, size, reps=5, warm=4):
    """After `warm` repetitions, further ones don't need more memory or objects. size: bytes of the smallest thing that matters.
    What grows once (caches) or by less doesn't count: three windows of repetitions in a row have to show it"""
    for _ in range(warm):
        op()
    seen = []
    for _ in range(3):
        clean()
        objects = len(gc.get_objects())
        before = tracemalloc.get_traced_memory()[0]
        for _ in range(reps):
            op()
            ctx.count('repetitions')
        clean()
        grown = tracemalloc.get_traced_memory()[0] - before
        more = len(gc.get_objects()) - objects
        ctx.count('assertions', 2)
        seen.append((grown, more))
        if grown <= reps * size and more < reps:
            return
    ctx.check(not all(g > reps * size for g, _ in seen), f'{reps} repetitions of `{what}` leave memory behind: {[g for g, _ in seen]} bytes')
    ctx.check(not all(o >= reps for _, o in seen), f'{reps} repetitions of `{what}` leave objects behind: {[o for _, o in seen]}')


def growth(ctx):
    settle()
    n = 2000 if ctx.mode == 'jit' else 600
    m, tree = make(ctx, n)
    watch = Watch()
    rows, cols = m.decision_units, m.choices
    for name in ('v_0', 't_0', 'm_0', 'v_1'):
        declare(ctx, m, name)
        m.expressions.append('0.5 * ' + ('1' if name[0] == 'v' else term(name)))
        assign(ctx, m, name, watch, rows, cols)
    m.expressions.append('0.25 * m_0', group='g')
    bad = m.copy()
    bad.declare_number('huge')
    bad['huge'].assign(1e9)
    bad.expressions.append('huge')
    debug = m.copy()
    if rows.is_unique and rows[1]:
        debug.debug_id = rows[1]
    mask = pd.Series(np.arange(n) % 3 == 0, index=rows)
    partial = pd.DataFrame(np.ones((n, len(cols)), dtype=f'f{m.precision}'), index=rows, columns=cols)
    arr = np.ones(n)

    def fail():
        ctx.check(not guarded(lambda: bad.run_stochastic(clear_scope=False)), 'infinite probabilities were accepted')
        ctx.check(not guarded(lambda: bad.run_discrete(clear_scope=False)), 'infinite probabilities were accepted')
        ctx.count('refused_runs', 2)

    ops = {
        'run_stochastic': lambda: m.run_stochastic(clear_scope=False),
        'run_discrete': lambda: m.run_discrete(clear_scope=False, n_draws=ctx.pick([1, 3])),
        'run_discrete(index)': lambda: m.run_discrete(clear_scope=False, astype='index', random_seed=3),
        'run of a group': lambda: m.run_stochastic(clear_scope=False, group='g'),
        'run of a copy': lambda: m.copy().run_stochastic(),
        'run of a subset': lambda: m.copy_subset(mask).run_stochastic(),
        'preval of a copy': lambda: m.copy().preval('g'),
        'traced run': lambda: debug.run_stochastic(clear_scope=False),
        'validate': lambda: m.validate(),
        'refused run': fail,
        'refused expression': lambda: guarded(lambda: m.expressions.append('m_0.a + nothing(3)')),
        'refused data': lambda: guarded(lambda: m['v_0'].assign(arr[1:])),
        'assign': lambda: m['v_0'].assign(arr.copy()),
        'add_partial_utilities': lambda: m.add_partial_utilities(partial),
        'choices': lambda: (m.choices, m.elemental_choices),
        'decision_units': lambda: setattr(debug, 'decision_units', debug.decision_units),
        'precision': lambda: (setattr(m, 'precision', 4), setattr(m, 'precision', 8)),
        'copy of expressions': lambda: m.expressions.copy() + m.expressions,
        'declare': lambda: bad.declare_number('huge') or bad['huge'].assign(1e9),
    }
    todo = ctx.rng.permutation(sorted(ops))[:8]
    if ctx.chance(0.7):
        m.run_stochastic(clear_scope=False)
    tracemalloc.start()
    try:
        for what in map(str, todo):
            if what == 'decision_units' and debug.debug_id is None:
                continue
            ctx.note(what)
            measure(ctx, what, ops[what], 4 * n)
            if what == 'decision_units':  # Its data is gone now
                debug = m.copy()
    finally:
        tracemalloc.stop()
    ctx.sig(tree.describe(), list(todo))


def tables(ctx):
    from cheval import LinkedDataFrame
    settle()
    n = 2000
    zones = LinkedDataFrame({'zone': np.arange(50), 'area': ctx.rng.random(50), 'kind': ['a', 'b'] * 25})
    hh = LinkedDataFrame({'hh': np.arange(400), 'zone': ctx.rng.integers(0, 60, 400), 'cars': ctx.rng.integers(0, 4, 400)})
    persons = LinkedDataFrame({'hh': ctx.rng.integers(0, 420, n), 'age': ctx.rng.integers(0, 90, n), 'w': ctx.rng.random(n)})
    pre = ctx.chance(0.5)
    persons.link_to(hh, 'household', on='hh', precompute=pre)
    hh.link_to(zones, 'zone_', on='zone', precompute=pre)
    hh.link_to(persons, 'members', on='hh', precompute=pre)
    zones.link_to(hh, 'households', on='zone', precompute=pre)
    mask = (persons['age'] > 30).to_numpy()
    out = pd.Series(np.zeros(n))

    def temporary():
        with hh.temporary_fill_defaults(INT_NAME=-1):
            persons.household.cars

    ops = {
        'lookup': lambda: persons.household.zone_.area,
        'text lookup': lambda: persons['household']['zone_']['kind'],
        'aggregation': lambda: hh.members.sum('age * 2'),
        'count': lambda: persons.household.members.count('w'),
        'evaluate': lambda: persons.evaluate('age * household.zone_.area + household.members.sum(w)'),
        'evaluate with output': lambda: persons.evaluate('w * 2', out=out),
        'refused expression': lambda: guarded(lambda: persons.evaluate('nothing + household.nothing')),
        'refused link': lambda: guarded(lambda: persons.link_to(hh, 'bad', on='nothing')),
        'mask': lambda: persons[mask].household.cars,
        'loc': lambda: persons.loc[mask].household.zone_.area,
        'iloc': lambda: persons.iloc[5:900].household.cars,
        'head': lambda: persons.head(100).household.cars,
        'copy': lambda: persons.copy().household.cars,
        'sort_values': lambda: guarded(lambda: persons.sort_values('age').household.cars),
        'groupby': lambda: [g.household.cars for _, g in persons.groupby(persons['age'] // 30)],
        'link_to': lambda: persons.link_to(hh, 'household', on='hh', precompute=pre),
        'compute_indexers': lambda: persons.compute_indexers(),
        'link_summary': lambda: persons.link_summary(),
        'dir': lambda: dir(persons),
        'pivot_table': lambda: persons.pivot_table(values='w', index='household.cars', columns='age', aggfunc='sum'),
        'column': lambda: persons.__setitem__('more', np.ones(n)),
        'fills': lambda: (hh.set_column_fill('cars', -1), hh.set_fill_defaults(INT_NAME=0), hh.reset_fill_defaults()),
        'temporary fills': temporary,
    }
    todo = ctx.rng.permutation(sorted(ops))[:8]
    tracemalloc.start()
    try:
        for what in map(str, todo):
            ctx.note(what)
            measure(ctx, what, ops[what], 8000)
    finally:
        tracemalloc.stop()
    ctx.sig(list(todo), pre)


def links(ctx):
    """Tables which aren't linked any more"""
    from cheval import LinkedDataFrame
    settle()
    n = ctx.pick([3, 10])
    watch = Watch()

    def table(name, linked):
        arr = np.arange(float(n))
        data = (LinkedDataFrame if linked else pd.DataFrame)({'key': np.arange(n) // ctx.pick([1, 1, 2]), 'x': arr})
        watch.add(name, data)
        return data

    frame = table('the frame', True)
    frame['id'] = np.arange(n)
    sliced = []
    for i in range(ctx.int(2, 5)):
        linked = ctx.chance(0.5)
        other = table(f'target {i}', linked)
        if linked and ctx.chance(0.5):
            far = table(f'target {i}', False)
            other.link_to(far, 'far', on_self='x', on_other='key')
            del far
        frame.link_to(other, 'link', on_self='id', on_other='key', precompute=ctx.chance(0.5))
        del other
        for _ in range(ctx.int(0, 4)):
            op = ctx.pick(['use', 'slice', 'summary', 'expression', 'dir', 'copy', 'refresh', 'failing'])
            ctx.note(op)
            if op == 'use':
                guarded(lambda: frame.link.x)
                guarded(lambda: frame.link.sum('x'))
            elif op == 'slice':
                guarded(lambda: frame[frame['x'] > 1].link.x)
            elif op == 'summary':
                frame.link_summary()
            elif op == 'expression':
                guarded(lambda: frame.evaluate('x + link.x'))
                guarded(lambda: frame.evaluate('x + link.max(x)'))
            elif op == 'dir':
                dir(frame)
            elif op == 'copy':
                guarded(lambda: frame.copy().link.x)
            elif op == 'refresh':
                frame.compute_indexers()
            else:
                guarded(lambda: frame.link_to(frame, 'link', on='nothing'))
        old = [f'target {k}' for k in range(i)]
        clean()
        left = watch.alive(old)
        ctx.check(not left, f'still referenced, although the link goes elsewhere now: {left}')
        ctx.count('released', watch.forget(old))
    del frame
    clean()
    left = watch.alive(list(watch.refs))
    ctx.check(not left, f'still referenced, although the linked frame does not exist any more: {left}')
    ctx.count('released', watch.forget(list(watch.refs)))
    ctx.count('releases')
    ctx.sig(ctx.trace, n)


def compiled(ctx):
    """The allocator of compiled code"""
    from numba.core.runtime import rtsys
    settle()
    m, tree = make(ctx, ctx.pick([1, 7, 300]))
    n = len(m.decision_units)
    m.declare_vector('v_0', 0)
    v = ctx.dyadic(n)
    how = ctx.pick(['fine', 'fine', 'huge', 'infeasible', 'nan'])
    i = ctx.int(0, n - 1)
    if how == 'huge':
        v[i] = 1e6
    elif how == 'infeasible':
        v[i] = -np.inf
    elif how == 'nan':
        v[i] = np.nan
    m['v_0'].assign(v)
    m.expressions.append('v_0')
    partial = pd.DataFrame(np.ones((n, len(m.choices)), dtype=f'f{m.precision}'), index=m.decision_units, columns=m.choices)
    ops = [lambda: m.run_stochastic(clear_scope=False, n_threads=ctx.pick([1, 4])),
           lambda: m.run_stochastic(clear_scope=False, check_infeasible=False),
           lambda: m.run_discrete(clear_scope=False, n_threads=ctx.pick([1, 4])),
           lambda: m.run_discrete(clear_scope=False, n_draws=ctx.int(2, 9)),
           lambda: m.copy().add_partial_utilities(partial[partial.columns[::-1]]),
           lambda: m.copy().add_partial_utilities(partial.iloc[::-1], reindex_rows=True),
           lambda: m.copy().add_partial_utilities(partial.iloc[::-1, ::-1], reindex_rows=True),
           lambda: m.copy().add_partial_utilities(partial)]
    for k in ctx.rng.permutation(len(ops)):
        for _ in range(3):  # Something that is kept from the first call doesn't count
            clean()
            before = rtsys.get_allocation_stats()
            fine = guarded(ops[k])
            clean()
            after = rtsys.get_allocation_stats()
            ctx.count('allocations', after.alloc - before.alloc)
            ctx.count('refused_runs', not fine)
            left = (after.alloc - before.alloc) - (after.free - before.free)
            arrays = (after.mi_alloc - before.mi_alloc) - (after.mi_free - before.mi_free)
            if left <= 0 and arrays <= 0:
                break
        ctx.check(left <= 0 and arrays <= 0, f'operation {k} with {how} utilities left {left} blocks ({arrays} arrays) of compiled code behind')
    ctx.note(how, n, tree.describe())
    ctx.sig(tree.describe(), how, n)


SCENARIOS = [
    Scenario('scope', scope, 700, 12000),
    Scenario('growth', growth, {'py': 40, 'jit': 10}, {'py': 600, 'jit': 60}, modes=('py', 'jit')),
    Scenario('tables', tables, 48, 800),
    Scenario('links', links, 300, 5000),
    Scenario('compiled', compiled, {'jit': 60}, {'jit': 800}, modes=('jit',)),
]
