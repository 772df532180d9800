"""Rows keep their links when they are sliced, filtered or reordered"""
import math

import numpy as np
import pandas as pd

from rtm.checks.l02 import Term, expected
from rtm.core import Scenario, Skip, is_missing, same_frame
from rtm.frames import Tab, establish, follow, relate, same_list

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a frame with random links (lookups, aggregations and chains of both; computed at once or not, with keys in columns '
        'or in the index), to which a random sequence of slicing, filtering and reordering operations is applied, with some '
        'lookups and new links in between. Each row has an identifier, by which everything that is looked up is compared with a '
        'reference of the relations. The operations which are documented to keep links have to keep them. Distinct by relations and operations.')
ASSUMPTIONS = ['operations which give the rows other labels are only judged for links which do not depend on the labels',
               'rows that were added by reindexing are not judged for links by labels, or to tables with missing keys']
MINIMUM = {'frames_judged': 2500, 'lookups': 6000, 'aggregations': 1500, 'ops_documented': 1000, 'ops_other': 700, 'lazy_links': 800, 'ops_in_place': 400,
           'nested_operations': 700, 'kept_optional': 500}


def mask_of(ctx, n):
    m = ctx.rng.random(n) < ctx.pick([0.2, 0.5, 0.8])
    if n and not m.any() and ctx.chance(0.7):
        m[ctx.int(0, n - 1)] = True
    return m


def bounds(ctx, n):
    lo, hi = sorted((ctx.int(0, n), ctx.int(0, n)))
    return lo, hi


def documented(ctx, frame):
    """Operations which keep links: (description, function)"""
    n, ix = len(frame), frame.index
    out = []
    m = mask_of(ctx, n)
    forms = [m] + ([list(map(bool, m))] if n else []) + ([pd.Series(m, index=ix)] if ix.is_unique else [])
    which = ctx.pick(forms)
    out.append((f'loc[mask {m.astype(int)} as {type(which).__name__}]', lambda f: f.loc[which]))
    out.append((f'[mask {m.astype(int)}]', lambda f: f[which]))
    out.append((f'loc[mask {m.astype(int)}, :]', lambda f: f.loc[which, :]))
    lo, hi = bounds(ctx, n)
    step = ctx.pick([None, None, 1, 2, -1])
    sl = slice(lo, hi, step) if step != -1 else slice(hi - 1 if hi else None, lo - 1 if lo else None, -1)
    out.append((f'iloc[{sl}]', lambda f: f.iloc[sl]))
    if not isinstance(ix, pd.MultiIndex) and ix.is_unique:
        picks = ctx.rng.integers(0, n, ctx.int(1, n + 2)) if ctx.chance(0.5) and n else ctx.rng.permutation(n)[:ctx.int(0, n)]
        labels = [ix[int(i)] for i in picks]
        if labels:
            out.append((f'loc[{labels}]', lambda f: f.loc[labels]))
            out.append((f'loc[Index {labels}]', lambda f: f.loc[pd.Index(labels)]))
    if isinstance(ix, pd.MultiIndex) and ix.is_unique and n:
        labels = [ix[int(i)] for i in ctx.rng.permutation(n)[:ctx.int(1, n)]]
        out.append((f'loc[{labels}]', lambda f: f.loc[labels]))
    if ix.is_unique and n and not isinstance(ix, pd.MultiIndex) and (ix.is_monotonic_increasing or ix.is_monotonic_decreasing or ctx.chance(0.5)):
        a, b = ix[min(lo, n - 1)], ix[min(n - 1, max(lo, hi - 1)) if hi else 0]
        out.append((f'loc[{a!r}:{b!r}]', lambda f: f.loc[a:b]))
    k = ctx.int(-2, n + 1)
    out.append((f'head({k})', lambda f: f.head(k)))
    out.append((f'tail({k})', lambda f: f.tail(k)))
    out.append(('head()', lambda f: f.head()))
    if n:
        by = ctx.pick(['part', 'part', 'part2'])
        pos = ctx.int(0, 20)

        def group(f, how=ctx.pick(['iterate', 'get_group'])):
            g = f.groupby(by)
            names = list(g.groups)
            if not names:  # Rows without any value
                return f.head(0)
            name = names[pos % len(names)]
            return g.get_group(name) if how == 'get_group' else dict(iter(g))[name]
        out.append((f'groupby({by!r}) group {pos}', group))
    return out


def others(ctx, frame, relabel, columns):
    """Operations which may drop links. `relabel`: whether the labels of the rows can be changed"""
    n, ix = len(frame), frame.index
    seed, k = ctx.int(0, 999), ctx.int(0, n)
    perm = ctx.rng.permutation(n)
    picks = ctx.rng.integers(0, n, ctx.int(1, n + 2)) if n else np.array([], dtype=int)
    up = ctx.chance(0.5)
    out = [(f'sample({k}, random_state={seed})', lambda f: f.sample(k, random_state=seed)),
           ('sample with replacement', lambda f: f.sample(n, replace=True, random_state=seed) if n else f.head(0)),
           (f"sort_values('order', ascending={up})", lambda f: f.sort_values('order', ascending=up)),
           ("sort_values(['part', 'order'])", lambda f: f.sort_values(['part', 'order'])),
           (f'iloc[{perm.tolist()}]', lambda f: f.iloc[perm]), (f'iloc[{picks.tolist()}]', lambda f: f.iloc[picks]),
           (f'take({picks.tolist()})', lambda f: f.take(picks)), (f'iloc[list {perm[:k].tolist()}]', lambda f: f.iloc[perm[:k].tolist()]),
           (f'iloc[list {(picks - n).tolist()}]', lambda f: f.iloc[(picks - n).tolist()]), (f'take({(picks - n).tolist()})', lambda f: f.take(picks - n)), ('iloc[::-1]', lambda f: f.iloc[::-1]),
           ("query('part > 0')", lambda f: f.query('part > 0')), ("nlargest(3, 'order')", lambda f: f.nlargest(3, 'order')),
           ("nsmallest(3, 'order')", lambda f: f.nsmallest(3, 'order')),
           ("drop_duplicates('part')", lambda f: f.drop_duplicates('part')), ('copy()', lambda f: f.copy()),
           ('copy(deep=True)', lambda f: f.copy(deep=True)), ('assign', lambda f: f.assign(extra=1)),
           (f'truncate by iloc {k}', lambda f: f.iloc[k:]), ("dropna(subset=['gap'])", lambda f: f.dropna(subset=['gap'])),
           ("[f['part'] == 0]", lambda f: f[f['part'] == 0]), ("loc[f.order > 3]", lambda f: f.loc[f['order'] > 3]),
           ("filter(columns)", lambda f: f.filter(columns)), (f'[{columns}]', lambda f: f[columns]),
           (f'loc[:, {columns}]', lambda f: f.loc[:, columns]), (f'loc[mask, {columns}]', lambda f: f.loc[f['part'].to_numpy() > 0, columns]),
           ('rename(columns)', lambda f: f.rename(columns={'gap': 'gap'})), ("drop(columns='extra')", lambda f: f.drop(columns='extra', errors='ignore')),
           ("groupby('part').head(1)", lambda f: f.groupby('part').head(1)), ("groupby('part').tail(2)", lambda f: f.groupby('part').tail(2)),
           ("isin", lambda f: f[f['order'].isin([1, 2, 5, 7])]), ('infer_objects', lambda f: f.infer_objects()),
           ("eval('e = order + 1')", lambda f: f.eval('extra = order + 1')), ('fillna', lambda f: f.fillna({'gap': 0.5})),
           ("insert", inserted), ("join", lambda f: f.drop(columns='extra', errors='ignore').assign(extra=2)),
           ('iloc[[-1]]', lambda f: f.iloc[[-1]] if len(f) else f.head(0)), ("groupby('part').nth(0)", lambda f: f.iloc[np.sort(np.unique(f['part'].to_numpy(), return_index=True)[1])])]
    if not isinstance(ix, pd.MultiIndex) or ctx.chance(0.5):
        out.append(('sort_index()', lambda f: f.sort_index(ascending=up)))
    if ix.is_unique and n:
        gone = [ix[int(i)] for i in perm[:k]]
        out.append((f'drop({gone})', lambda f: f.drop(gone) if gone else f.head(n)))
        labels = ix[perm]
        out.append((f'reindex({list(labels)})', lambda f: f.reindex(labels)))
        out.append(('reindex_like', lambda f: f.reindex_like(f.iloc[perm])))
        if not isinstance(ix, pd.MultiIndex) and ix.dtype.kind == 'i':
            more = [int(v) for v in labels[:k]] + [int(ix.max()) + 1, int(ix.max()) + 2]
            out.append((f'reindex({more})', lambda f: f.reindex(more)))
    if relabel:
        out += [('reset_index(drop=True)', lambda f: f.reset_index(drop=True)), ("set_index('order')", lambda f: f.set_index('order', drop=False).rename_axis(None)),
                ('sort_values(ignore_index)', lambda f: f.sort_values('order', ignore_index=True)),
                ('set_axis', lambda f: f.set_axis(np.arange(len(f)) + 5, axis=0)),
                ('append', lambda f: pd.concat([f, f.iloc[:1]])),
                ('explode', lambda f: f.iloc[::-1].reset_index(drop=True))]
    return out


def in_place(ctx, frame, relabel):
    """Operations which change the rows of the frame itself"""
    n, ix = len(frame), frame.index
    up, k = ctx.chance(0.5), ctx.int(0, n)
    perm = ctx.rng.permutation(n)
    out = [(f"sort_values('order', ascending={up}, inplace=True)", lambda f: f.sort_values('order', ascending=up, inplace=True)),
           ("sort_values(['part', 'order'], inplace=True)", lambda f: f.sort_values(['part', 'order'], inplace=True)),
           ("query('part > 0', inplace=True)", lambda f: f.query('part > 0', inplace=True)),
           ("dropna(subset=['gap'], inplace=True)", lambda f: f.dropna(subset=['gap'], inplace=True)),
           ("drop_duplicates('part', inplace=True)", lambda f: f.drop_duplicates('part', inplace=True)),
           ("fillna(inplace=True)", lambda f: f.fillna({'gap': 0.5}, inplace=True)),
           ("eval(inplace=True)", lambda f: f.eval('extra = order + 1', inplace=True)),
           ("drop(columns, inplace=True)", lambda f: f.drop(columns='extra', errors='ignore', inplace=True)),
           ("rename(columns, inplace=True)", lambda f: f.rename(columns={'extra': 'extra2'}, inplace=True)),
           ("replace(inplace=True)", lambda f: f.replace({'gap': {1.0: 2.0}}, inplace=True)),
           ("['extra'] = ", lambda f: f.__setitem__('extra', 7)), ("pop('extra')", lambda f: f.pop('extra') if 'extra' in f else None)]
    if not isinstance(ix, pd.MultiIndex) or ctx.chance(0.5):
        out.append((f'sort_index(ascending={up}, inplace=True)', lambda f: f.sort_index(ascending=up, inplace=True)))
    if ix.is_unique and n:
        gone = [ix[int(i)] for i in perm[:k]]
        out.append((f'drop({gone}, inplace=True)', lambda f: f.drop(gone, inplace=True) if gone else None))
    if relabel:
        out += [('reset_index(drop=True, inplace=True)', lambda f: f.reset_index(drop=True, inplace=True)),
                ('sort_values(ignore_index=True, inplace=True)', lambda f: f.sort_values('order', ignore_index=True, inplace=True)),
                ('drop_duplicates(ignore_index=True, inplace=True)', lambda f: f.drop_duplicates('part2', ignore_index=True, inplace=True)),
                ('rename(index, inplace=True)', lambda f: f.rename(index={ix[0]: ix[-1]} if n else {}, inplace=True)),
                ('set_axis(inplace=True)', lambda f: f.set_axis(np.arange(len(f)) + 5, axis=0, inplace=True)),
                ('index = ', lambda f: setattr(f, 'index', np.arange(len(f)) + 50))]
    return out


def inserted(f):
    g = f.copy()
    g['extra'] = 5
    return g


class Base:
    """The frame and its relations. Rows are identified by `rid`"""

    def __init__(self, ctx, lazy=None):
        self.ctx = ctx
        n = ctx.pick([1, 3, 6, 10, 15])
        self.src = Tab(ctx, 'S', n)
        self.tabs = [self.src]
        self.lookups = []
        self.chains = []  # Lists of links for lookups
        self.aggs = []  # (lookups, link)
        at_columns = {'self': 'columns'} if ctx.chance(0.5) else None
        for i in range(ctx.int(1, 2)):
            self.add_lookup(f'look{i}', at_columns)
        if ctx.chance(0.6):
            self.add_agg('many', at_columns)
        for t in self.tabs:
            t.add_columns(['int', 'float'] if t is not self.src and ctx.chance(0.5) else None,
                          names=['area', 'pop', 'y', 'kind', 'flag', 'when', 'cost', 'n_cars', 'label', 'size_', 'value'])
        self.src.keys.update(order=ctx.rng.permutation(n), part=ctx.rng.integers(0, 3, n), part2=ctx.rng.integers(0, 2, n).astype(bool),
                             gap=np.where(ctx.rng.random(n) < 0.3, np.nan, 1.0))
        for t in self.tabs:
            t.make()
        self.lazy = lazy
        self.links = {}
        for l in self.all_links():
            kw, _ = l.how
            kw['precompute'] = ctx.chance(0.5) if lazy is None else not lazy
            if not kw['precompute']:
                ctx.count('lazy_links')
            establish(ctx, l)
        self.by_labels = {l.name for l in self.src.links.values() if self.uses_index(l)}

    def uses_index(self, link):
        return not ({'on', 'on_self'} & set(link.how[0]))

    def computable(self, frame):
        """Names of the links for which a frame has the keys"""
        def columns(link):
            labels = link.how[0].get('on', link.how[0].get('on_self', []))
            return {labels} if isinstance(labels, str) else set(labels)
        return {l.name for l in self.src.links.values() if columns(l) <= set(frame.columns)}

    def all_links(self):
        return [l for t in self.tabs for l in t.links.values()]

    def add_lookup(self, name, side):
        ctx = self.ctx
        dst = Tab(ctx, f'D_{name}', ctx.pick([1, 3, 6, 9]), linked=ctx.chance(0.7))
        self.tabs.append(dst)
        link = relate(ctx, name, self.src, dst, side=side)
        self.chains.append([link])
        if dst.linked and ctx.chance(0.4):
            far = Tab(ctx, f'F_{name}', ctx.pick([2, 5]), linked=ctx.chance(0.5))
            self.tabs.append(far)
            self.chains.append([link, relate(ctx, 'far', dst, far)])
        if dst.linked and ctx.chance(0.3):
            low = Tab(ctx, f'L_{name}', ctx.pick([3, 8]))
            self.tabs.append(low)
            below = relate(ctx, 'below', dst, low, agg=True)
            if below.agg:
                self.aggs.append(([link], below))
            else:
                self.chains.append([link, below])

    def add_agg(self, name, side):
        ctx = self.ctx
        dst = Tab(ctx, f'A_{name}', ctx.pick([4, 9, 14]), linked=ctx.chance(0.5))
        self.tabs.append(dst)
        link = relate(ctx, name, self.src, dst, agg=True, side=side)
        if link.agg:
            self.aggs.append(([], link))
        else:
            self.chains.append([link])

    def kept(self, frame):
        return set(frame.link_summary().index)

    def judge(self, frame, must, what, limit=4):
        """`must`: names of links which have to be there"""
        from cheval import LinkedDataFrame
        ctx = self.ctx
        ctx.check(isinstance(frame, LinkedDataFrame), f'{what}: is a {type(frame).__name__}')
        have = self.kept(frame)
        ctx.check(must <= have, f'{what}: lost the links {sorted(must - have)}, has {sorted(have)}')
        ctx.count('kept_optional', len(have - must))
        if 'rid' not in frame.columns:
            return have
        raw = pd.DataFrame(frame)['rid']
        rows = [None if is_missing(r) else int(r) for r in raw]
        jobs = [(c, None) for c in self.chains if c[0].name in have] + [(c, l) for c, l in self.aggs if (c or [l])[0].name in have]
        for j in ctx.rng.permutation(len(jobs))[:limit]:
            chain, agg = jobs[int(j)]
            first = (chain or [agg])[0]
            skip = {i for i, r in enumerate(rows) if r is None} if first.name in self.by_labels or first.other_gap else set()
            self.one(frame, chain, agg, rows, skip, what)
        ctx.count('frames_judged')
        return have

    def one(self, frame, chain, agg, rows, skip, what):
        ctx = self.ctx
        node = frame
        for l in chain + ([agg] if agg else []):
            node = getattr(node, l.name) if ctx.chance(0.5) else node[l.name]
        if agg:
            at = follow(chain, rows) if chain else rows
            nums = [a for a, c in agg.dst.columns.items() if c.kind in ('int', 'float') and c.dtype != 'f4']
            attr, func = ctx.pick(nums + ['rid']), ctx.pick(['sum', 'max', 'count', 'first', 'mean'])
            col = agg.dst.columns.get(attr)
            term = Term(attr, col.values if col else list(range(agg.dst.n)), col.kind if col else 'int')
            want, _ = expected(term, func, agg, at, -1, 0.5, 1)
            path = '.'.join(l.name for l in chain + [agg]) + f'.{func}({attr})'
            got = getattr(node, func)(attr)
            ctx.count('aggregations')
        else:
            dst = chain[-1].dst
            attr = ctx.pick(list(dst.columns) + ['rid'])
            at = follow(chain, rows)
            if attr == 'rid':
                want = [0 if r is None else r for r in at]
            else:
                want = [dst.fill_of(attr) if r is None else dst.columns[attr].values[r] for r in at]
            path = '.'.join([l.name for l in chain] + [attr])
            got = node[attr]
            ctx.count('lookups')
        ctx.check(got.index.equals(frame.index), f'{what}: {path} has the index {got.index[:6]} instead of {frame.index[:6]}')
        got = list(got)
        if skip:
            got, want = [g for i, g in enumerate(got) if i not in skip], [w for i, w in enumerate(want) if i not in skip]
        same_list(ctx, got, want, f'{what}: `{path}` of rows {rows[:12]}')


def apply(ctx, base, frame, name, fn, what):
    """Applies an operation to a frame, and to a plain frame, which have to have the same rows"""
    plain = fn(pd.DataFrame(frame))
    ctx.note(what, name)
    out = fn(frame)
    if 'rid' in plain.columns:
        same_list(ctx, pd.DataFrame(out)['rid'], plain['rid'], f'rows of {name}')
        ctx.check(list(out.columns) == list(plain.columns) and out.index.equals(plain.index), f'{name}: labels differ from those of a plain frame')
    return out


def has_keys(frame, link):
    kw = link.how[0]
    columns, levels = kw.get('on', kw.get('on_self', [])), kw.get('levels', kw.get('self_levels', []))
    columns, levels = [columns] if isinstance(columns, str) else columns, [levels] if not isinstance(levels, list) else levels
    return all(c in frame.columns for c in columns) and all(l in frame.index.names for l in levels if isinstance(l, str))


def sequences(ctx):
    base = Base(ctx)
    ctx.note('links', {l.name: l.how for l in base.src.links.values()}, 'n', base.src.n, 'index', base.src.frame.index[:8].tolist())
    frame = base.src.frame
    must = base.judge(frame, set(base.src.links), 'the frame itself', 2) if ctx.chance(0.4) else set(base.src.links)
    frames = [(frame, must, 'the frame itself')]
    relabelled = False
    n_ops = ctx.int(1, 4)
    for i in range(n_ops):
        frame, must, _ = frames[-1]
        if 'rid' not in frame.columns:
            break
        if ctx.chance(0.55):
            if not {'part', 'part2'} <= set(frame.columns):
                break
            name, fn = ctx.pick(documented(ctx, frame))
            ctx.count('ops_documented')
            optional = False
        else:
            if not {'part', 'order', 'gap'} <= set(frame.columns):
                break
            cols = [c for c in frame.columns if c == 'rid' or ctx.chance(0.7)]
            name, fn = ctx.pick(others(ctx, frame, not base.by_labels, cols))
            ctx.count('ops_other')
            optional = True
        out = apply(ctx, base, frame, name, fn, f'step {i}:')
        what = f'after {" -> ".join(t.split(": ", 1)[-1] for t in ctx.trace if t.startswith("step"))}'
        now = set() if optional else must
        if 'groupby' in name and not frame.index.is_unique:
            # Groups are taken from a frame by the labels of the rows, if these are unique, and otherwise by the keys
            now = {l for l in now if has_keys(frame, base.src.links[l])}
        if ctx.chance(0.7) or i == n_ops - 1:
            now = base.judge(out, now, what, 3) & (must | now)
        elif optional:
            now = base.kept(out) & must
        frames.append((out, now, what))
        ctx.count('nested_operations', i > 0)
    for frame, must, what in frames[:-1]:  # Operations have no effect on the frame they were applied to
        if ctx.chance(0.5):
            base.judge(frame, must, f'{what}, afterwards', 2)
    ctx.sig(ctx.trace)


def relinked(ctx):
    """Links which get added to, or computed for a frame that was sliced, are those of its own rows"""
    base = Base(ctx)
    src = base.src
    frame = src.frame
    name, fn = ctx.pick(documented(ctx, frame) + others(ctx, frame, False, [c for c in frame.columns]))
    part = apply(ctx, base, frame, name, fn, 'step:')
    rid = pd.DataFrame(part)['rid']
    if rid.isna().any():
        return
    rows = [int(r) for r in rid]
    far = Tab(ctx, 'New', ctx.pick([2, 5]), linked=ctx.chance(0.5))
    far.add_columns()
    far.make()
    far.frame['new_id'] = np.arange(far.n)
    keys = {r: ctx.int(0, far.n) for r in rows}
    part = part.copy() if ctx.chance(0.5) else part
    before = base.kept(frame)
    part['new_key'] = [keys[r] for r in rows]
    part.link_to(far.frame, 'new', on_self='new_key', on_other='new_id', precompute=ctx.chance(0.5))
    sub = part
    for _ in range(ctx.int(0, 2)):
        if not {'part', 'part2'} <= set(sub.columns):
            break
        op, f2 = ctx.pick(documented(ctx, sub))
        sub = apply(ctx, base, sub, op, f2, 'step:')
    if ctx.chance(0.5):
        refresh = ctx.chance(0.5)
        ctx.note(f'compute_indexers(refresh={refresh})')
        sub.compute_indexers(refresh=refresh)
    ctx.check('new' in base.kept(sub), 'the new link got lost')
    attr = ctx.pick(list(far.columns))
    want = [far.columns[attr].values[keys[int(r)]] if keys[int(r)] < far.n else far.fill_of(attr) for r in pd.DataFrame(sub)['rid']]
    same_list(ctx, sub.new[attr], want, f'new.{attr}')
    ctx.count('lookups')
    base.judge(sub, set(), 'with a new link', 2)
    base.judge(frame, set(src.links), 'the original frame', 2)
    ctx.check(base.kept(frame) == before, f'links of the original frame: {base.kept(frame)} instead of {before}')
    ctx.sig(ctx.trace)


def changed(ctx):
    """Rows of a frame that get sorted or removed in place take their links along, and leave those of other frames alone"""
    base = Base(ctx)
    links = set(base.src.links)
    ctx.note('links', {l.name: l.how for l in base.src.links.values()}, 'n', base.src.n)
    frames = [(base.src.frame, links, 'the frame itself')]
    for i in range(ctx.int(2, 5)):
        j = ctx.int(0, len(frames) - 1)
        frame, must, name = frames[j]
        if not {'rid', 'part', 'part2', 'order', 'gap'} <= set(frame.columns):
            continue
        if ctx.chance(0.4):
            base.judge(frame, must, name, 1)
        if ctx.chance(0.4):
            op, fn = ctx.pick(documented(ctx, frame) + 4 * [('copy()', lambda f: f.copy())] +
                              others(ctx, frame, not base.by_labels, [c for c in frame.columns if c == 'rid' or ctx.chance(0.7)])[:40])
            out = apply(ctx, base, frame, op, fn, f'step {i}, {j}:')
            frames.append((out, base.kept(out) & must, f'result of step {i}'))
        else:
            op, fn = ctx.pick(in_place(ctx, frame, not base.by_labels))
            plain = pd.DataFrame(frame).copy()
            ctx.note(f'step {i}, {j}:', op)
            fn(plain)
            fn(frame)
            must = must & base.computable(frame)
            frames[j] = frame, must, name
            ctx.count('ops_in_place')
            same_list(ctx, pd.DataFrame(frame)['rid'], plain['rid'], f'rows after {op}')
            ctx.check(list(frame.columns) == list(plain.columns) and frame.index.equals(plain.index), f'{op}: labels differ from those of a plain frame')
            if ctx.chance(0.5):
                base.judge(frame, must, f'{name} after {op} of step {i}', 2)
    for frame, must, name in frames:
        base.judge(frame, must, f'{name} in the end', 2)
    ctx.sig(ctx.trace)


def evaluated(ctx):
    """Expressions over a part of the rows"""
    base = Base(ctx)
    frame = base.src.frame
    for i in range(ctx.int(1, 2)):
        if len(frame) == 0:
            return
        name, fn = ctx.pick(documented(ctx, frame))
        frame = apply(ctx, base, frame, name, fn, 'step:')
    rows = [int(r) for r in pd.DataFrame(frame)['rid']]
    if not rows:
        return
    for chain in base.chains:
        attrs = [a for a, c in chain[-1].dst.columns.items() if c.kind == 'int']
        if not attrs:
            continue
        attr = ctx.pick(attrs)
        at = follow(chain, rows)
        want = [r * 2.0 + (0 if t is None else chain[-1].dst.columns[attr].values[t]) for r, t in zip(rows, at)]
        text = 'rid * 2.0 + ' + '.'.join([l.name for l in chain] + [attr])
        same_list(ctx, frame.evaluate(text), want, f'`{text}`')
        ctx.count('lookups')
    base.judge(frame, set(base.src.links), 'sliced', 3)
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('sequences', sequences, 1100, 20000),
    Scenario('relinked', relinked, 300, 5000),
    Scenario('changed', changed, 500, 8000),
    Scenario('evaluated', evaluated, 200, 3000),
]
