"""Runs are reproducible: the outcome only depends on the model, its data and the seed"""
import hashlib

import numpy as np
import pandas as pd

from rtm.core import Scenario
from rtm.models import Tree, gen_any_tree, gen_mnl, gen_tree, gen_units, logit_reference, supply

SHARDS = {'py': 4, 'jit': 4}
RULE = ('A case is a random model with its data, which is run repeatedly with the same seed while everything else is varied '
        'that must not matter: number of threads, order in which expressions and data were given, runs of other models in '
        'between, copies, state of the global random number generators, order of the iterations of parallel loops, hash '
        'seed and process. Choices are compared exactly, probabilities up to 1e-12. Non-trivial cases are distinguished by model, seed and draws.')
ASSUMPTIONS = ['runs in different processes are compared within the same mode of execution (compiled, or interpreted)',
               'different seeds are expected to differ for a sample of at least 40 nats']
MINIMUM = {'pairs_compared': 1500, 'thread_counts': 300, 'process_records': 40, 'seeds_distinguished': 60}


def make(ctx, n=None, how=None):
    from cheval import ChoiceModel
    tree = gen_any_tree(ctx, 0.6)
    n = n or (ctx.pick([1, 3, 10, 40]) if ctx.mode == 'py' else ctx.pick([1, 7, 64, 1000]))
    units = gen_units(ctx, n)
    U = ctx.dyadic((n, tree.n), ctx.pick([1, 3]))
    precision = ctx.pick([8, 8, 4])
    m = ChoiceModel(precision=precision)
    tree.build(m, ctx.rng)
    m.decision_units = units
    via = supply(ctx, m, tree, units, U)
    return m, tree, units, U, precision, via


def same(ctx, a, b, what):
    """Comparison of the outcomes of two runs"""
    ctx.count('pairs_compared')
    ctx.count('assertions')
    for x, y in zip(a, b):
        ctx.check(type(x) is type(y) and x.index.equals(y.index), f'{what}: different types or indexes')
        u, v = np.asarray(x.to_numpy()), np.asarray(y.to_numpy())
        if u.shape == v.shape and u.dtype.kind == 'f':  # Sums may be associated differently, but for the last bits only
            differ = ~((u == v) | (np.abs(u - v) <= 1e-12 * np.abs(v)))
        else:
            differ = u != v
        if u.shape != v.shape or np.any(differ):
            bad = np.argwhere(differ)
            ctx.fail(f'{what}: {len(bad)} of {u.size} values differ, the first one at {bad[0].tolist()}: '
                     f'{u[tuple(bad[0])]!r} and {v[tuple(bad[0])]!r}')


def distraction(ctx):
    """Something that must not have an influence"""
    from cheval import ChoiceModel
    what = ctx.pick(['np_seed', 'np_draw', 'other_model', 'other_model', 'py_random', 'nothing'])
    if what == 'np_seed':
        np.random.seed(ctx.int(0, 1000))
    elif what == 'np_draw':
        np.random.uniform(size=ctx.int(1, 50))
    elif what == 'py_random':
        import random
        random.seed(3)
    elif what == 'other_model':
        m = ChoiceModel()
        t = gen_any_tree(ctx, 0.5, max_depth=2)
        t.build(m)
        m.decision_units = pd.RangeIndex(ctx.int(1, 20))
        m.expressions.append('1')
        if ctx.chance(0.3):
            m.run_stochastic(n_threads=ctx.int(1, 8))
        else:
            m.run_discrete(random_seed=ctx.int(1, 100), n_draws=ctx.pick([1, 4]), n_threads=ctx.int(1, 8))
    return what


def repeat(ctx):
    m, tree, units, U, precision, via = make(ctx)
    seed = ctx.pick([0, 1, 12345, 2 ** 31 - 1, ctx.int(0, 2 ** 31 - 1)])
    n_draws = ctx.pick([1, 1, 2, 6])
    astype = ctx.pick(['index', 'category'])
    scale = ctx.chance(0.8)
    ctx.note(f'tree={tree.describe()} n={len(units)} via={via} seed={seed} draws={n_draws} astype={astype}')
    ctx.sig(tree.describe(), U.tobytes()[:300], seed, n_draws)

    def run(model, threads, s=seed):
        return model.run_discrete(random_seed=s, n_draws=n_draws, astype=astype, n_threads=threads, clear_scope=False,
                                  squeeze=False, scale_utilities=scale)

    def stochastic(model, threads):
        return model.run_stochastic(n_threads=threads, clear_scope=False, scale_utilities=scale)

    first, first_s = run(m, 1), stochastic(m, 1)
    for threads in ctx.rng.permutation([1, 2, 3, 4, 8])[:3]:
        threads = int(threads)
        what = distraction(ctx)
        ctx.count('thread_counts')
        same(ctx, first, run(m, threads), f'{threads} threads, after {what}')
        same(ctx, first_s, stochastic(m, threads), f'probabilities with {threads} threads, after {what}')
    for s in (np.int64(seed), np.int32(seed), float(seed) if ctx.chance(0.3) else np.int64(seed)):
        same(ctx, first, run(m, 1, s), f'seed given as {type(s).__name__}')
    same(ctx, first, run(m.copy(), 2), 'copy of the model')

    # The same model, built in another way
    from cheval import ChoiceModel
    other = ChoiceModel(precision=precision)
    other.decision_units = units
    tree.build(other, ctx.rng)
    via2 = supply(ctx, other, tree, units, U, 'xyz')
    same(ctx, first, run(other, 4), f'same model with the utilities via {via2} instead of {via}')
    same(ctx, first_s, stochastic(other, 4), f'probabilities with the utilities via {via2} instead of {via}')


def states(ctx):
    """RandomState objects, and runs without a seed"""
    m, tree, units, U, precision, via = make(ctx, 300 if ctx.mode == 'py' else 3000)
    n_draws = ctx.pick([1, 3])
    k = ctx.int(0, 10 ** 6)
    P, _, _ = logit_reference(tree, U)
    nats = -np.log((P ** 2).sum(axis=1)).sum() * n_draws
    ctx.note(f'tree={tree.describe()} state={k} draws={n_draws} nats={nats:.0f}')
    ctx.sig(tree.describe(), k, n_draws)

    def run(s, **kw):
        return m.run_discrete(random_seed=s, n_draws=n_draws, astype='index', squeeze=False, clear_scope=False, **kw)

    a, b = np.random.RandomState(k), np.random.RandomState(k)
    run_a, run_b = [run(a) for _ in range(3)], [run(b, n_threads=3) for _ in range(3)]
    for i, (x, y) in enumerate(zip(run_a, run_b)):
        same(ctx, x, y, f'run {i} with a RandomState of the same seed')
    if nats < 40:
        return

    def differ(runs, what):
        ctx.count('seeds_distinguished')
        ctx.count('assertions')
        if all((runs[0][0].to_numpy() == r[0].to_numpy()).all() for r in runs[1:]):
            ctx.fail(f'{what}: all of {len(runs)} runs sampled exactly the same choices')

    differ(run_a, 'successive runs with the same RandomState')
    differ([run(None) for _ in range(4)], 'runs without a seed')
    differ([run(k), run(k + 1)], 'different seeds')
    differ([run(k), run(k + 2 ** 16)], 'different seeds')


def global_state(ctx):
    """The random state of the caller's process isn't touched"""
    m, tree, units, U, precision, via = make(ctx)
    import random
    np.random.seed(ctx.int(0, 10 ** 6))
    random.seed(5)
    before, before_py = np.random.get_state(), random.getstate()
    ctx.note(f'tree={tree.describe()} via={via}')
    ctx.sig(tree.describe(), U.tobytes()[:200])
    for n_draws in (1, 3):
        m.run_discrete(random_seed=ctx.int(1, 99), n_draws=n_draws, clear_scope=False, n_threads=ctx.pick([1, 4]))
    m.run_discrete(clear_scope=False)
    m.run_stochastic(clear_scope=False)
    after = np.random.get_state()
    ctx.check(before[0] == after[0] and (before[1] == after[1]).all() and before[2:] == after[2:],
              "a run changed the state of NumPy's global random number generator")
    ctx.check(before_py == random.getstate(), "a run changed the state of Python's random number generator")


def schedules(ctx):
    """Iterations of the parallel loops, in other orders"""
    from cheval import core
    m, tree, units, U, precision, via = make(ctx, ctx.pick([2, 5, 17]))
    if not hasattr(core, 'prange'):
        return
    seed, n_draws = ctx.int(0, 10 ** 6), ctx.pick([1, 1, 3])
    ctx.note(f'tree={tree.describe()} seed={seed} draws={n_draws}')
    ctx.sig(tree.describe(), U.tobytes()[:200], n_draws)

    def everything():
        a = m.run_discrete(random_seed=seed, n_draws=n_draws, astype='index', squeeze=False, clear_scope=False)
        b = m.run_stochastic(clear_scope=False)
        c = m.copy(utilities=False)
        c.add_partial_utilities(pd.DataFrame(U, index=units, columns=c.choices))
        c.add_partial_utilities(pd.DataFrame(U[:, ::-1], index=units, columns=c.choices[::-1]))
        c.add_partial_utilities(pd.DataFrame(U[::-1], index=units[::-1], columns=c.choices), reindex_rows=True)
        return list(a) + list(b) + list(c.run_stochastic(clear_scope=False))

    want = everything()
    original, n_loops = core.prange, [0]

    def shuffled(*args):
        n_loops[0] += 1
        order = list(range(*args))
        how = ctx.int(0, 2)
        return order[::-1] if how == 0 else [order[i] for i in ctx.rng.permutation(len(order))]

    core.prange = shuffled
    try:
        for _ in range(3):
            got = everything()
            same(ctx, got, want, 'parallel loops in another order')
    finally:
        core.prange = original
    ctx.count('loops_reordered', n_loops[0])


def processes(ctx):
    """Always the same few models, regardless of the shard: compared over all processes in the end"""
    for k in range(6):
        rng, ctx.rng = ctx.rng, np.random.default_rng(1000 + k)
        try:
            m, tree, units, U, precision, via = make(ctx, 25)
            a = m.run_discrete(random_seed=k, n_draws=1 + 2 * (k % 2), astype='index', clear_scope=False, squeeze=False,
                               n_threads=1 + k)
            b = m.run_stochastic(clear_scope=False, n_threads=6 - k)
        finally:
            ctx.rng = rng
        h = hashlib.sha1()
        for x in list(a) + list(b):
            h.update(np.ascontiguousarray(x.to_numpy()).tobytes())
            h.update(repr(list(x.index[:5])).encode())
        ctx.count('process_records')
        ctx.record(k, h.hexdigest())
    ctx.note('hash seed', ctx.shard)
    ctx.sig('processes', ctx.shard)


def finish(merged):
    seen, out = {}, []
    for key, value, mode, scenario, case, shard in merged['records']:
        first = seen.setdefault((mode, key), (value, shard))
        if first[0] != value:
            out.append(dict(scenario=scenario, case=case, mode=mode, shard=shard, key=None, detail='',
                            message=f'model {key} has different outcomes in the processes {first[1]} and {shard}'))
    return out


SCENARIOS = [
    Scenario('repeat', repeat, {'py': 60, 'jit': 80}, {'py': 2000, 'jit': 3000}, modes=('py', 'jit')),
    Scenario('states', states, {'py': 12, 'jit': 24}, {'py': 200, 'jit': 300}, modes=('py', 'jit')),
    Scenario('global_state', global_state, {'jit': 24}, {'jit': 400}, modes=('jit',)),
    Scenario('schedules', schedules, {'py': 60}, {'py': 3000}),
    Scenario('processes', processes, {'py': 4, 'jit': 4}, modes=('py', 'jit')),
]
