"""Links are classified by their keys, and invalid ones are refused"""
import numpy as np
import pandas as pd

from rtm.core import Scenario, same_frame
from rtm.frames import same_list

SHARDS = {'py': 8}
QUICK = 3
RULE = ('A case is a set of tables with a number of possible keys each (of one to three components; columns, indexes or some of '
        'their levels; unique ones, repeated ones, and ones that are unique in combination only; with values that are close to each '
        'other), and a random sequence of links between these, some of which are flawed or replace other ones. The returned flag, the '
        'summary, the targets and what can be accessed are compared with a count of the keys in plain Python after each of them. '
        'Distinct by sequence.')
ASSUMPTIONS = ['there are no missing keys', 'links between repeated keys on both sides are refused by any of RuntimeError or LinkageSpecificationError']
MINIMUM = {'links_one': 900, 'links_many': 450, 'refused_many_to_many': 350, 'refused_flawed': 900, 'replaced': 400, 'lookups': 2500,
           'aggregations': 1500, 'unchanged_links': 1800, 'combined_keys': 500}
DOMAINS = {'i': [0, 1, -1, 2, 10, 2 ** 53, 2 ** 53 + 1, 3, 7, -20, 100, 12],
           't': ['a', 'A', 'a ', 'ab', 'b', 'c', 'bc', '', ' a', 'abc', 'B', 'a_b'],
           'f': [0.5, float(np.nextafter(0.5, 1)), 0.0, 1.0, -1.0, 0.25, 1e-300, 7.0, 1e300, 2.5, -0.5, 100.0],
           'd': [pd.Timestamp('2020-02-29') + pd.Timedelta(k) for k in [0, 1, 2, 10 ** 3, 10 ** 9, 10 ** 12, 86400 * 10 ** 9, 86400 * 10 ** 9 + 1,
                                                                       3, 4, 5, 6]]}


def array(ctx, typ, codes, column=True):
    v = [DOMAINS[typ][c] for c in codes]
    if typ == 't':
        if column and ctx.chance(0.2):
            return pd.Categorical(v, categories=[str(s) for s in ctx.rng.permutation(DOMAINS['t'])])
        out = np.empty(len(v), dtype=object)
        out[:] = v
        return out
    if typ == 'd':
        return np.array([x.value for x in v], dtype='i8').view('M8[ns]')
    return np.array(v, dtype={'i': 'i8', 'f': 'f8'}[typ])


class Table:
    def __init__(self, ctx, name, linked):
        from cheval import LinkedDataFrame
        self.name, self.linked = name, linked
        self.n = n = ctx.pick([0, 1, 2, 3, 5, 8, 12])
        self.specs = []  # (types, values by row, arguments by side)
        columns = {}
        for typ in DOMAINS:
            for k, codes in enumerate([ctx.rng.permutation(12)[:n], ctx.rng.integers(0, 12, n), ctx.rng.integers(0, ctx.int(1, 3), n)]):
                columns[f'{typ}{k}'] = (typ, codes)
        if n > 3:  # Only the last row is not unique
            codes = ctx.rng.permutation(12)[:n]
            codes[-1] = codes[ctx.int(0, n - 2)]
            columns['i3'] = ('i', codes)
        levels = []
        depth = ctx.pick([1, 1, 2, 3])
        for _ in range(depth):
            typ = ctx.pick(list(DOMAINS))
            levels.append((typ, ctx.rng.permutation(12)[:n] if ctx.chance(0.4) else ctx.rng.integers(0, ctx.pick([2, 4, 12]), n)))
        self.columns = columns
        names = [f'{t}_level{i}' for i, (t, _) in enumerate(levels)]
        arrays = [array(ctx, t, c, False) for t, c in levels]
        if depth > 1:
            index = pd.MultiIndex.from_arrays(arrays, names=names)
        else:
            index = pd.Index(arrays[0], name=ctx.pick([names[0], None]))
        data = {k: array(ctx, *columns[k]) for k in ctx.rng.permutation(list(columns))}
        data['rid'] = np.arange(n) + 1
        self.frame = (LinkedDataFrame if linked else pd.DataFrame)(pd.DataFrame(data, index=index))
        self.levels, self.level_names = levels, list(index.names)
        self.links = {}
        self.kept = pd.DataFrame(self.frame).copy(deep=True)

    def spec(self, ctx, types=None):
        """Some key: (types, keys by row, labels, whether from the index, whether by number)"""
        def result(parts, labels, from_index):
            typ = ''.join(t for t, _ in parts)
            if types is not None and typ != types:
                return None
            keys = list(zip(*[[DOMAINS[t][c] for c in codes] for t, codes in parts])) if self.n else []
            return typ, keys, labels, from_index
        for _ in range(200):
            k = ctx.pick(['columns', 'columns', 'all', 'levels'])
            if k == 'all':
                out = result(self.levels, None, True)
            elif k == 'levels':
                order = [int(i) for i in ctx.rng.permutation(len(self.levels))[:ctx.int(1, len(self.levels))]]
                by_number = None in self.level_names or ctx.chance(0.4)
                out = result([self.levels[i] for i in order], order if by_number else [self.level_names[i] for i in order], True)
            else:
                want = types or [ctx.pick(list(DOMAINS)) for _ in range(ctx.pick([1, 1, 2, 3]))]
                names = [ctx.pick([c for c, (t, _) in self.columns.items() if t == w]) for w in want]
                out = result([self.columns[c] for c in names], names, False)
            if out is not None and (out[2] is None or len(set(out[2])) == len(out[2])):
                return out
        return None


def arguments(ctx, s, o):
    def single(labels):
        return labels[0] if len(labels) == 1 and ctx.chance(0.6) else list(labels)
    kw = {}
    if s[2] is not None and s[2:] == o[2:] and ctx.chance(0.6):
        kw['levels' if s[3] else 'on'] = single(s[2])
    else:
        for spec, side in ((s, 'self'), (o, 'other')):
            if spec[2] is not None:
                kw[f'{side}_levels' if spec[3] else f'on_{side}'] = single(spec[2])
    if ctx.chance(0.5):
        kw['precompute'] = ctx.chance(0.5)
    return kw


class Made:
    def __init__(self, dst, s, o, kw):
        self.dst, self.kw = dst, kw
        rows = {}
        for r, key in enumerate(o[1]):
            rows.setdefault(key, []).append(r)
        self.match = [rows.get(key, []) for key in s[1]]
        self.agg = any(len(v) > 1 for v in rows.values())
        self.self_unique = len(set(s[1])) == len(s[1])
        self.valid = self.self_unique or not self.agg


def check_link(ctx, src, name, link, what):
    frame = src.frame
    ctx.check(frame.get_link_target(name) is link.dst.frame, f'{what}: the target of {name} is another table')
    node = frame[name] if ctx.chance(0.5) or not name.isidentifier() else getattr(frame, name)
    listed = set(dir(node))  # Used for completion
    if link.agg:
        names = {'max', 'min', 'mean', 'median', 'prod', 'std', 'sum', 'var', 'quantile', 'count', 'first', 'last', 'nth'}
    else:
        names = {str(c) for c in link.dst.frame.columns} | set(link.dst.links)
    ctx.check(names == {x for x in listed if not x.startswith('_')}, f'{what}: dir() of {name} lists {sorted(listed)} instead of {sorted(names)}')
    ctx.count('listed_names', len(names))
    if link.agg:
        want = [len(m) if m else -1 for m in link.match]
        same_list(ctx, node.count(), want, f'{what}: {name}.count()')
        same_list(ctx, node.sum('rid'), [sum(r + 1 for r in m) if m else -1 for m in link.match], f'{what}: {name}.sum(rid)')
        ctx.raises(Exception, lambda: node['rid'], f'{what}: lookup of {name}.rid, although there are many rows')
        ctx.count('aggregations', 2)
    else:
        same_list(ctx, node['rid'], [m[0] + 1 if m else 0 for m in link.match], f'{what}: {name}.rid')
        ctx.raises(Exception, lambda: node.sum('rid'), f'{what}: aggregation {name}.sum(rid), although there is a single row')
        ctx.count('lookups')


def check_all(ctx, src, what, accessed=True):
    frame = src.frame
    summary = frame.link_summary()
    ctx.check(sorted(summary.index) == sorted(src.links), f'{what}: summary has links {list(summary.index)} instead of {list(src.links)}')
    listed = set(dir(frame))
    for name, link in src.links.items():
        row = summary.loc[name]
        ctx.check(bool(row['aggregation']) == link.agg, f'{what}: summary has aggregation={row["aggregation"]} for {name}')
        ctx.check(bool(row['chained']) == link.dst.linked, f'{what}: summary has chained={row["chained"]} for {name}')
        ctx.check(str(row['target_shape']) == str(link.dst.frame.shape), f'{what}: summary has shape {row["target_shape"]} for {name}')
        ctx.check(name in listed, f'{what}: {name} is not listed as attribute')
        if link.kw.get('precompute', True):
            ctx.check(bool(row['preindexed']), f'{what}: {name} is not computed, although this was requested')
    for name in ctx.rng.permutation(list(src.links))[:2] if accessed else []:
        check_link(ctx, src, str(name), src.links[str(name)], what)


def flaw(ctx, src, dst):
    """A specification which must be refused: (arguments, exceptions, description)"""
    from cheval.ldf.constants import LinkageSpecificationError
    wrong = (LinkageSpecificationError, KeyError)
    s = src.spec(ctx)
    o = dst.spec(ctx, s[0])
    k = ctx.pick(['both', 'both_self', 'both_other', 'number', 'column', 'level', 'level_number', 'too_many'])
    a, b = ctx.pick(list(src.columns)), ctx.pick(list(dst.columns))
    if k == 'both':
        return dict(on=a, levels=0), LinkageSpecificationError, k
    if k == 'both_self':
        return dict(on_self=a, self_levels=0, on_other=b), LinkageSpecificationError, k
    if k == 'both_other':
        return dict(on_self=a, on_other=b, other_levels=0), LinkageSpecificationError, k
    if k == 'number':
        few, many = [['i0'], ['i0', 't0', 'f0'][:ctx.int(2, 3)]] if ctx.chance(0.5) else [['i0', 'd0'], ['i0', 'd0', 't1']]
        ctx.count('combined_keys')
        return (dict(on_self=few, on_other=many) if ctx.chance(0.5) else dict(on_self=many, on_other=few)), LinkageSpecificationError, k
    if k == 'column':
        name = ctx.pick(['nothing', 'i9', 'I0', '', 'rid '])
        return ctx.pick([dict(on_self=name, on_other=b), dict(on_self=a, on_other=name), dict(on=[a, name]),
                         dict(on_self=['i0', name], on_other=['i0', 't0'])]), wrong, k
    if k == 'level':
        name = ctx.pick(['nothing', 'i0', 'rid', 'level'])
        return ctx.pick([dict(self_levels=name, on_other=b), dict(on_self=a, other_levels=name), dict(levels=name)]), wrong, k
    if k == 'level_number':
        num = ctx.pick([5, 3, 17])
        return ctx.pick([dict(self_levels=num, on_other=b), dict(on_self=a, other_levels=num), dict(levels=[num])]), wrong + (IndexError,), k
    return ctx.pick([dict(self_levels=[0, 0, 0, 0], on_other=['i0', 'i1', 'i2', 't0']), dict(on_self=['i0', 'i1', 'i2', 't0'], other_levels=[0, 0, 0, 0])]), \
        wrong, k


def sequences(ctx):
    from cheval.ldf.constants import LinkAggregationRequired, LinkageSpecificationError
    src = Table(ctx, 'S', True)
    tables = [src] + [Table(ctx, f'T{i}', ctx.chance(0.5)) for i in range(ctx.int(1, 3))]
    frame = src.frame
    for _ in range(ctx.int(4, 9)):
        dst = ctx.pick(tables)
        name = ctx.pick(list(src.links)) if src.links and ctx.chance(0.4) else ctx.pick(['hh', 'zone', 'a_link', 'to', 'x1'])
        what = f'link {name}'
        if ctx.chance(0.3):
            kw, errors, k = flaw(ctx, src, dst)
            if dst is src and k in ('column', 'level', 'level_number') and ctx.chance(0.3):
                kw['precompute'] = False
            ctx.note('flawed', name, dst.name, kw)
            ctx.raises(errors, lambda: frame.link_to(dst.frame, name, **kw), f'flawed ({k}) link {name} {kw}')
            ctx.count('refused_flawed')
            ctx.count('unchanged_links', len(src.links))
            if name not in src.links:
                ctx.raises(KeyError, lambda: frame.get_link_target(name), f'target of the refused link {name}')
                ctx.raises(KeyError, lambda: frame[name], f'the refused link {name}')
                ctx.raises(AttributeError, lambda: getattr(frame, name), f'the refused link {name}')
                ctx.check(name not in dir(frame), f'the refused link {name} is listed as attribute')
            check_all(ctx, src, f'after refusing the flawed ({k}) link {name}')
            continue
        s = src.spec(ctx)
        o = dst.spec(ctx, s[0])
        if o is None:
            continue
        kw = arguments(ctx, s, o)
        link = Made(dst, s, o, kw)
        ctx.note('link', name, dst.name, kw, s[0], 'many' if link.agg else 'one', 'valid' if link.valid else 'invalid')
        ctx.count('combined_keys', len(s[0]) > 1)
        if not link.valid:
            ctx.raises((RuntimeError, LinkageSpecificationError), lambda: frame.link_to(dst.frame, name, **kw), f'link {name} between repeated keys {kw}')
            ctx.count('refused_many_to_many')
            ctx.count('unchanged_links', len(src.links))
            if name not in src.links:
                ctx.raises(KeyError, lambda: frame.get_link_target(name), f'target of the refused link {name}')
            check_all(ctx, src, f'after refusing the link {name} between repeated keys')
            continue
        flag = frame.link_to(dst.frame, name, **kw)
        ctx.check(flag is (LinkAggregationRequired.YES if link.agg else LinkAggregationRequired.NO),
                  f'{what} {kw}: returned {flag}, although the keys of the target are {"repeated" if link.agg else "unique"}')
        ctx.count('replaced', name in src.links)
        ctx.count('links_many' if link.agg else 'links_one')
        if name in src.links:
            del src.links[name]
        src.links[name] = link
        check_link(ctx, src, name, link, what) if ctx.chance(0.6) else None
        check_all(ctx, src, f'after the link {name}')
    for t in tables:
        same_frame(ctx, pd.DataFrame(t.frame), t.kept, f'table {t.name}')
    ctx.sig(ctx.trace)


def combined(ctx):
    """Keys which are unique in combination only, or nearly"""
    from cheval import LinkedDataFrame
    n = ctx.pick([4, 9, 60, 400])
    k = ctx.int(2, 3)
    m = int(np.ceil(n ** (1 / k))) + 1
    space = np.stack(np.meshgrid(*[np.arange(m)] * k, indexing='ij'), axis=-1).reshape(-1, k)

    def codes(repeat):
        out = space[ctx.rng.permutation(len(space))[:n]].copy()
        if repeat:
            out[ctx.int(0, n // 2 - 1)] = out[ctx.int(n // 2, n - 1)]
        return out
    repeated = ctx.chance(0.5), ctx.chance(0.5)
    frames = []
    offset = ctx.pick([0, 0, 2 ** 40, -2 ** 62])
    types = [ctx.pick(['int', 'text', 'float']) for _ in range(k)]
    for side, rep in zip(('self', 'other'), repeated):
        c = codes(rep)
        data = {}
        for i, typ in enumerate(types):
            col = c[:, i]
            data[f'k{i}'] = col + offset if typ == 'int' else [f'{v:b}' for v in col] if typ == 'text' else col / 8
        f = LinkedDataFrame(data)
        f['rid'] = np.arange(n) + 1
        if ctx.chance(0.5):
            f = LinkedDataFrame(f.set_index([f'k{i}' for i in range(k)]))
            how = {f'{side}_levels': [f'k{i}' for i in range(k)]} if ctx.chance(0.5) else {}
        else:
            how = {f'on_{side}': [f'k{i}' for i in range(k)]}
        frames.append((f, how, [tuple(x) for x in c.tolist()]))
    (a, ka, keys_a), (b, kb, keys_b) = frames
    if ctx.chance(0.3):
        kb['precompute'] = False
    ctx.note(types, ka, kb, repeated, n)
    ctx.count('combined_keys')
    if all(repeated):
        ctx.raises((RuntimeError, ValueError), lambda: a.link_to(b, 'other', **ka, **kb), 'link between keys which are repeated once')
        ctx.count('refused_many_to_many')
    else:
        flag = a.link_to(b, 'other', **ka, **kb)
        ctx.check(bool(flag) == repeated[1], f'link returned {flag}')
        pos = {}
        for r, key in enumerate(keys_b):
            pos.setdefault(key, []).append(r + 1)
        if repeated[1]:
            same_list(ctx, a.other.sum('rid'), [sum(pos[x]) if x in pos else -1 for x in keys_a], 'sum(rid)')
            ctx.count('links_many')
            ctx.count('aggregations')
        else:
            same_list(ctx, a.other.rid, [pos[x][0] if x in pos else 0 for x in keys_a], 'rid')
            ctx.count('links_one')
            ctx.count('lookups')
    ctx.sig(ctx.trace, keys_a[:10], keys_b[:10])


def levels_of_columns(ctx):
    """Tables with several levels of columns can't be linked"""
    from cheval import LinkedDataFrame
    a = LinkedDataFrame({'k': [1, 2, 3]})
    b = LinkedDataFrame(np.arange(6).reshape(3, 2), columns=pd.MultiIndex.from_tuples([('a', 'b'), ('a', 'c')]))
    good = pd.DataFrame({'rid': [1, 2, 3]}, index=[3, 1, 2])
    existing = ctx.chance(0.5)
    if existing:
        a.link_to(good, 'link', on_self='k')
    ctx.raises(NotImplementedError, lambda: a.link_to(b, 'link', on_self='k'), 'link to a table with several levels of columns')
    ctx.count('refused_flawed')
    if existing:
        same_list(ctx, a.link.rid, [2, 3, 1], 'existing link')
        ctx.check(a.get_link_target('link') is good, 'the target of the existing link was replaced')
    else:
        ctx.raises(KeyError, lambda: a.get_link_target('link'), 'target of a refused link')
    ctx.sig(existing)


SCENARIOS = [
    Scenario('sequences', sequences, 1100, 16000),
    Scenario('combined', combined, 240, 4000),
    Scenario('levels_of_columns', levels_of_columns, 8, 8),
]
