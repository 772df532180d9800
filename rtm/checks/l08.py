"""When links are computed does not matter"""
import math

import numpy as np
import pandas as pd

from rtm.core import Scenario, is_missing
from rtm.frames import Tab, establish, relate, same_list

SHARDS = {'py': 8}
QUICK = 2
RULE = ('A case is a random history of tables whose links (lookups and aggregations, also in chains) are computed when they are created, '
        'on first use, or on request, in between of changes of keys on either side, of changes of values, and of slices and copies. The '
        'monitor reads the current keys of both sides whenever links get computed, and compares everything that is looked up later on '
        'with the relation of these in plain Python. Distinct by history.')
ASSUMPTIONS = ['tables keep their number of rows', 'changed keys need aggregation if the previous ones did', 'links which were not computed yet are '
               'used right after slicing (but at any time after copying)']
MINIMUM = {'lookups': 4000, 'aggregations': 1500, 'refreshed': 500, 'first_uses': 800, 'key_changes': 1200, 'stale_uses': 500, 'slices': 500,
           'chained': 800, 'refreshed_slices': 60, 'first_uses_of_copies': 30, 'value_changes': 400}


def value_of(x):
    if is_missing(x):
        return None
    if isinstance(x, pd.Timestamp):
        return x.value
    return x


class Side:
    def __init__(self, labels, from_index):
        self.labels, self.from_index = labels, from_index

    def components(self, frame):
        if self.labels is None:
            return [frame.index.get_level_values(i) for i in range(frame.index.nlevels)]
        if self.from_index:
            return [frame.index.get_level_values(l) for l in self.labels]
        return [pd.DataFrame(frame)[l] for l in self.labels]

    def keys(self, frame):
        parts = [[value_of(x) for x in c] for c in self.components(frame)]
        return [None if any(v is None for v in key) else key for key in zip(*parts)]

    def assign(self, ctx, frame, rows):
        """Replaces the keys by the given ones (lists of the values of all components)"""
        arrays = [stored([r[i] for r in rows]) for i in range(len(rows[0]))]
        if self.from_index:
            names = list(frame.index.names)
            levels = [frame.index.get_level_values(i) for i in range(len(names))]
            labels = range(len(names)) if self.labels is None else self.labels
            for l, a in zip(labels, arrays):
                levels[l if isinstance(l, int) else names.index(l)] = a
            frame.index = pd.Index(levels[0], name=names[0]) if len(levels) == 1 else pd.MultiIndex.from_arrays(levels, names=names)
        else:
            for l, a in zip(self.labels, arrays):
                frame[l] = a


def stored(values):
    some = [v for v in values if not is_missing(v)]
    if some and isinstance(some[0], str):
        out = np.empty(len(values), dtype=object)
        out[:] = [None if is_missing(v) else v for v in values]
        return out
    if some and isinstance(some[0], pd.Timestamp):
        return pd.to_datetime(pd.Series([pd.NaT if is_missing(v) else v for v in values], dtype='datetime64[ns]')).to_numpy()
    if len(some) < len(values):
        return np.array([math.nan if is_missing(v) else v for v in values], dtype='f8')
    return np.array(values)


def fresh(ctx, v, k):
    if isinstance(v, str):
        return f'new {k}'
    if isinstance(v, pd.Timestamp):
        return v + pd.Timedelta(days=1000 + k)
    return v + 1000 + k


def sides_of(kw):
    out = []
    for which in ('self', 'other'):
        if 'on' in kw or f'on_{which}' in kw:
            labels, from_index = kw.get('on', kw.get(f'on_{which}')), False
        elif 'levels' in kw or f'{which}_levels' in kw:
            labels, from_index = kw.get('levels', kw.get(f'{which}_levels')), True
        else:
            labels, from_index = None, True
        out.append(Side([labels] if isinstance(labels, (str, int)) else labels, from_index))
    return out


class Relation:
    """A link of some table, as it was specified"""

    def __init__(self, link):
        self.link, self.name, self.dst = link, link.name, link.dst
        self.near, self.far = sides_of(link.how[0])

    def compute(self, frame, near=None):
        """`near`: keys of the rows, if these are not the current ones"""
        rows = {}
        for r, key in enumerate(self.far.keys(self.dst.frame)):
            if key is not None:
                rows.setdefault(key, []).append(r)
        return [rows.get(key, []) if key is not None else [] for key in (self.near.keys(frame) if near is None else near)]


class Handle:
    """A frame (a table, or part of one), along with what its links are known to relate"""

    def __init__(self, name, frame, relations, state=None):
        self.name, self.frame, self.relations = name, frame, relations
        self.state = state or {}  # Name of link -> matches by row, once it was computed
        self.near = {}  # Name of link -> keys of the rows, when the frame was copied before the link was computed

    def matches(self, ctx, rel):
        if rel.name not in self.state:
            self.state[rel.name] = rel.compute(self.frame, self.near.get(rel.name))
            ctx.count('first_uses')
            ctx.count('first_uses_of_copies', rel.name in self.near)
        return self.state[rel.name]


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        names = ['S', 'D', 'F', 'M']
        self.tabs = tabs = {n: Tab(ctx, n, ctx.pick([2, 3, 5, 8])) for n in names}
        tabs['F'].linked = ctx.chance(0.5)
        specs = [('to', 'S', 'D', False), ('on_from', 'D', 'F', ctx.chance(0.3)), ('many', 'S', 'M', True), ('back', 'D', 'M', ctx.chance(0.5))]
        self.links = [relate(ctx, name, tabs[a], tabs[b], agg=agg) for name, a, b, agg in specs]
        for t in tabs.values():
            for kind, name in (('int', 'val'), ('float', 'w'), ('text', 'label')):
                t.add_columns([kind], names=[name])
            t.make()
        self.handles = {n: Handle(n, t.frame, {}) for n, t in tabs.items()}
        for l in self.links:
            self.connect(l)
        self.slices = []
        self.changed = False

    def connect(self, link):
        ctx = self.ctx
        kw = link.how[0]
        kw.pop('precompute', None)
        k = ctx.pick(['eager', 'lazy', 'lazy', 'default'])
        if k != 'default':
            kw['precompute'] = k == 'eager'
        flag = establish(ctx, link)
        ctx.check(bool(flag) == link.agg, f'link {link.name}: aggregation is {flag}')
        h = self.handles[link.src.name]
        rel = Relation(link)
        h.relations[link.name] = rel
        h.state.pop(link.name, None)
        done = bool(h.frame.link_summary().loc[link.name, 'preindexed'])
        ctx.check(done == (k != 'lazy'), f'link {link.name}, created with {kw}: preindexed is {done}')
        if k != 'lazy':
            h.state[link.name] = rel.compute(h.frame)

    def all_handles(self):
        return [h for h in self.handles.values() if h.relations] + self.slices

    def step(self):
        ctx = self.ctx
        k = ctx.pick(['use', 'use', 'use', 'use', 'keys', 'keys', 'keys', 'compute', 'compute', 'refresh', 'values', 'slice', 'connect', 'column'])
        h = ctx.pick(self.all_handles())
        if k == 'use':
            self.use(h)
        elif k == 'keys':
            self.change_keys()
        elif k in ('compute', 'refresh'):
            refresh = k == 'refresh'
            ctx.note(h.name, f'compute_indexers(refresh={refresh})')
            if refresh and ctx.chance(0.3):
                h.frame.compute_indexers()
            else:
                h.frame.compute_indexers(refresh=refresh) if ctx.chance(0.7) else h.frame.compute_indexers(refresh)
            for rel in h.relations.values():
                if refresh:
                    h.state[rel.name] = rel.compute(h.frame)
                else:
                    h.matches(ctx, rel)
            ctx.check(bool(h.frame.link_summary()['preindexed'].all()), f'{h.name}: some links are not computed after compute_indexers({refresh})')
            ctx.count('refreshed', refresh)
            ctx.count('refreshed_slices', refresh and h in self.slices)
        elif k == 'values':
            t = ctx.pick(list(self.tabs.values()))
            n = t.n
            if ctx.chance(0.5):
                t.frame['rid'] = ctx.rng.integers(0, 50, n)
            else:
                t.frame['w'] = ctx.dyadic(n)
            ctx.note('values of', t.name)
            ctx.count('value_changes')
        elif k == 'column':
            t = ctx.pick(list(self.tabs.values()))
            t.frame['extra'] = ctx.rng.integers(0, 50, t.n)
            ctx.note('new column of', t.name)
        elif k == 'slice':
            self.slice()
        elif k == 'connect':
            link = ctx.pick(self.links)
            keys = Relation(link)
            far = [x for x in keys.far.keys(link.dst.frame)]
            near = [x for x in keys.near.keys(link.src.frame)]
            if None in far or None in near:
                return  # Whether these are repeated isn't specified
            link.agg = len(set(far)) < len(far)
            if link.agg and len(set(near)) < len(near):
                return
            self.connect(link)

    def change_keys(self):
        """Gives one side of a link other keys of the same kind"""
        ctx = self.ctx
        link = ctx.pick(self.links)
        rel = self.handles[link.src.name].relations[link.name]
        which = ctx.pick(['self', 'other'])
        side, tab = (rel.near, link.src) if which == 'self' else (rel.far, link.dst)
        other, their = (rel.far, link.dst) if which == 'self' else (rel.near, link.src)
        frame = tab.frame
        unique = link.agg if which == 'self' else not link.agg
        rows = list(zip(*[list(c) for c in side.components(frame)]))
        theirs = [r for r in zip(*[list(c) for c in other.components(their.frame)]) if not any(is_missing(v) for v in r)]
        mine = [r for r in rows if not any(is_missing(v) for v in r)]
        if unique:
            new = [rows[int(i)] for i in ctx.rng.permutation(len(rows))]
            for i in range(len(new)):
                if ctx.chance(0.3):
                    source = [r for r in theirs if r not in new]
                    if source and ctx.chance(0.5):
                        new[i] = ctx.pick(source)
                    elif not any(is_missing(v) for v in new[i]):
                        new[i] = tuple(fresh(ctx, v, i + 20 * ctx.int(0, 9)) for v in new[i])
            plain = [tuple(value_of(v) for v in r) for r in new]
            if len(set(plain)) < len(plain):
                return
        else:
            pool = mine + theirs
            if not pool:
                return
            new = [ctx.pick(pool) for _ in rows]
            if link.agg and len(new) > 1:
                new[1] = new[0]
            if link.agg and len(new) < 2:
                return
        side.assign(ctx, frame, new)
        ctx.note(f'keys of {tab.name} ({which}) for {link.name}:', new)
        ctx.count('key_changes')

    def slice(self):
        ctx = self.ctx
        h = ctx.pick(self.all_handles())
        f, n = h.frame, len(h.frame)
        if n < 1 or len(self.slices) > 3:
            return
        pos = np.arange(n)
        k = ctx.pick(['mask', 'iloc', 'head', 'tail', 'copy', 'deep', 'deep', 'deep', 'mask2'])
        lo, hi = sorted((ctx.int(0, n), ctx.int(0, n)))
        m = ctx.rng.random(n) < 0.6
        if k in ('mask', 'mask2'):
            frame, rows = (f.loc[m] if k == 'mask' else f[m]), pos[m]
        elif k == 'iloc':
            frame, rows = f.iloc[lo:hi], pos[lo:hi]
        elif k in ('head', 'tail'):
            c = ctx.int(1, n)
            frame, rows = (f.head(c), pos[:c]) if k == 'head' else (f.tail(c), pos[n - c:])
        else:
            frame, rows = f.copy(deep=True), pos
        if k != 'deep':
            frame = frame.copy(deep=True) if ctx.chance(0.7) else frame
        ctx.note('slice', h.name, k, rows)
        s = Handle(f'{h.name}[{k} {rows.tolist()}]', frame, dict(h.relations), {name: [m[r] for r in rows] for name, m in h.state.items()})
        self.slices.append(s)
        ctx.count('slices')
        if k == 'deep' and ctx.chance(0.7):  # Has the rows of the original at this time, whatever happens to these
            s.near = {name: h.near.get(name) or rel.near.keys(h.frame) for name, rel in h.relations.items() if name not in h.state}
            return
        for rel in h.relations.values():  # As it is not specified whether these are computed
            if rel.name not in h.state:
                for who in ([s, h] if ctx.chance(0.5) else [h, s]):
                    self.use(who, rel)

    def use(self, h, rel=None):
        ctx = self.ctx
        rel = rel or ctx.pick(list(h.relations.values()))
        path, first, n = [rel], True, len(h.frame)
        at = [[r] for r in range(n)]
        node, names, where = h.frame, [], h
        while True:
            stale = rel.name in where.state and where.state[rel.name] != rel.compute(where.frame)
            ctx.count('stale_uses', stale)
            node = node[rel.name] if ctx.chance(0.5) else getattr(node, rel.name)
            names.append(rel.name)
            # Which rows of the target are linked to each of the rows
            if rel.link.agg:
                break
            dst = self.handles[rel.dst.name]
            if not dst.relations or ctx.chance(0.6):
                break
            match = where.matches(ctx, rel)
            at = [[m for r in rs for m in match[r]] for rs in at]
            where, rel = dst, ctx.pick(list(dst.relations.values()))
        ctx.count('chained', len(names) > 1)
        what = f'{h.name}.{".".join(names)} after {self.last()}'
        target = pd.DataFrame(rel.dst.frame)
        if rel.link.agg:
            func, term = ctx.pick([('sum', 'rid'), ('count', 'rid'), ('max', 'rid'), ('sum', 'rid * 2 + 1'), ('first', 'label')])
            ctx.note('use', h.name, names, func, term)
            got = getattr(node, func)(term)
            match = where.matches(ctx, rel)
            rid, label = [int(v) for v in target['rid']], target['label'].tolist() if 'label' in target else None
            want = []
            for rs in at:
                group = [m for r in rs for m in match[r]]
                if term == 'label':
                    present = [label[g] for g in group if not is_missing(label[g])]
                    want.append(present[0] if present else math.nan)
                elif not group:
                    want.append(-1)
                else:
                    want.append({'sum': sum(rid[g] if term == 'rid' else rid[g] * 2 + 1 for g in group), 'count': len(group),
                                 'max': max(rid[g] for g in group)}[func])
            same_list(ctx, got, want, what + f' .{func}({term})')
            ctx.count('aggregations')
        else:
            attrs = [a for a in ('rid', 'val', 'w', 'label', 'extra') if a in target]
            attr = ctx.pick(attrs)
            ctx.note('use', h.name, names, attr)
            got = node[attr]
            match = where.matches(ctx, rel)
            col = target[attr]
            fill = 0 if col.dtype.kind == 'i' else '' if col.dtype == object else math.nan
            values = col.tolist()
            want = [values[match[rs[0]][0]] if rs and match[rs[0]] else fill for rs in at]
            same_list(ctx, got, want, what + f' .{attr}')
            ctx.count('lookups')
        ctx.check(got.index.equals(h.frame.index), f'{what}: not aligned with the frame')

    def last(self):
        return [t[:70] for t in self.ctx.trace[-3:]]


def histories(ctx):
    w = World(ctx)
    for _ in range(ctx.int(8, 20)):
        w.step()
    for h in w.all_handles():
        for rel in h.relations.values():
            w.use(h, rel)
    ctx.sig(ctx.trace)


def twins(ctx):
    """The same relations with links which are computed at different times"""
    results = []
    times = [str(s) for s in ctx.rng.permutation(['eager', 'lazy', 'requested', 'twice'])[:3]]
    sub = ctx.rng.integers(1 << 30)
    for when in times:
        ctx.rng = np.random.default_rng(sub)
        src, dst, far = Tab(ctx, 'S', 6), Tab(ctx, 'D', 5), Tab(ctx, 'F', 7, linked=ctx.chance(0.5))
        links = [relate(ctx, 'one', src, dst), relate(ctx, 'more', dst, far, agg=ctx.chance(0.5)), relate(ctx, 'direct', src, far, agg=ctx.chance(0.5))]
        for t in (src, dst, far):
            t.add_columns(['int', 'float', 'text', 'bool', 'cat'])
            t.make()
        for l in links:
            l.how[0]['precompute'] = when in ('eager', 'twice')
            establish(ctx, l)
        if when in ('requested', 'twice'):
            for t in (src, dst):
                t.frame.compute_indexers(refresh=when == 'twice')
        ctx.note(when)
        out = []
        for f in (src.frame, src.frame.iloc[1:5], src.frame.loc[[True, False, True] * 2]):
            for l in links[2:]:
                out.append(f.direct.sum('rid') if l.agg else f.direct.rid)
            out += [f.one[a] for a in dst.columns]
            out += [f.one.more.max('rid'), f.one.more.count()] if links[1].agg else [f.one.more[a] for a in far.columns]
        results.append(out)
        ctx.count('lookups', len(out))
    for when, out in zip(times[1:], results[1:]):
        for a, b in zip(results[0], out):
            same_list(ctx, b.tolist(), a.tolist(), f'computed {when} compared to {times[0]}')
            ctx.check(a.dtype == b.dtype and a.index.equals(b.index), f'computed {when} compared to {times[0]}: {b.dtype} instead of {a.dtype}')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('histories', histories, 1300, 20000),
    Scenario('twins', twins, 120, 2000),
]
