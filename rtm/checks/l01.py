"""Looking up attributes through links gives the values of the linked rows"""
import numpy as np
import pandas as pd

from rtm.core import Scenario, same_frame
from rtm.frames import KINDS, Tab, access, establish, looked_up, relate, same_list

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random set of tables with columns of all types, related by keys of one to three components (integers, '
        'text, categories, floats and dates; in columns, in the index or in some of its levels; with keys that exist on one side '
        'only, and rows without keys). Attributes are looked up through chains of up to four links, and compared row by row with a '
        'dictionary-based reference. Distinct by relations, chain and attribute.')
ASSUMPTIONS = ['the side which is looked up has unique keys, none of which is missing']
MINIMUM = {'lookups': 6000, 'hops_2': 600, 'hops_3': 150, 'filled_rows': 4000, 'found_rows': 15000, 'multi_key': 600, 'late_columns': 150, 'kept_nodes': 600}


def chain_of_tables(ctx, hops, sizes=(1, 2, 3, 5, 8, 13), plain_end=0.5, **kw):
    if ctx.chance(0.15):
        sizes, kw = [ctx.pick(tuple(sizes) + (60,))], dict(kw, same=0.6)
    tabs = [Tab(ctx, f'T{i}', ctx.pick(sizes), linked=i < hops or ctx.chance(plain_end)) for i in range(hops + 1)]
    names = [str(s) for s in ctx.rng.permutation(['hh', 'zone', 'link1', 'owner', 'to', 'x', 'parent', 'tbl'])]
    links = []
    for i in range(hops):
        one = ctx.chance(0.2)
        links.append(relate(ctx, names[i], tabs[i], tabs[i + 1], one_to_one=one and tabs[i].n <= tabs[i + 1].n + 2, **kw))
    taken = set(names[:hops])
    for t in tabs:
        t.add_columns(names=[s for s in ['area', 'pop', 'y', 'kind', 'flag', 'when', 'cost', 'n_cars', 'label', 'size_', 'value', 'two words', '2021'] if s not in taken])
    for t in tabs:
        t.make()
    return tabs, links


def describe(ctx, tabs):
    for t in tabs:
        ctx.note(f'{t.name}: {type(t.frame).__name__} n={t.n} index={t.frame.index.names} '
                 f'{ {k: c.kind for k, c in t.columns.items()} } keys={list(t.keys)}')


def judge(ctx, frame, chain, attr, rows, what, got=None):
    got = access(ctx, frame, chain, attr) if got is None else got
    want = looked_up(chain, attr, rows)
    path = '.'.join([l.name for l in chain] + [attr])
    ctx.check(isinstance(got, pd.Series), f'{what}: `{path}` is a {type(got).__name__}')
    ctx.check(got.index.equals(frame.index), f'{what}: `{path}` is not aligned with the frame: {got.index[:10]} instead of {frame.index[:10]}')
    same_list(ctx, got, want, f'{what}: `{path}`')
    col = chain[-1].dst.frame[attr]
    ctx.check(got.dtype == col.dtype, f'{what}: `{path}` has type {got.dtype}, although the column has {col.dtype}')
    ctx.count('lookups')
    from rtm.frames import follow
    found = sum(r is not None for r in follow(chain, rows))
    ctx.count('found_rows', found)
    ctx.count('filled_rows', len(rows) - found)
    ctx.count(f'hops_{len(chain)}')


def chains(ctx):
    hops = ctx.pick([1, 1, 1, 2, 2, 3, 4])
    tabs, links = chain_of_tables(ctx, hops)
    for i in ctx.rng.permutation(hops):
        establish(ctx, links[i])
        ctx.count('multi_key', len(links[i].how[1]) > 1)
    describe(ctx, tabs)
    before = [t.frame.copy() if not t.linked else pd.DataFrame(t.frame).copy(deep=True) for t in tabs]
    for _ in range(ctx.int(2, 6)):
        start = ctx.int(0, hops - 1)
        end = ctx.int(start, hops - 1)
        chain = links[start:end + 1]
        attr = ctx.pick(list(chain[-1].dst.columns))
        judge(ctx, tabs[start].frame, chain, attr, list(range(tabs[start].n)), 'lookup')
        ctx.note('looked up', [l.name for l in chain], attr)
    ctx.sig(ctx.trace)
    for t, b in zip(tabs, before):
        same_frame(ctx, pd.DataFrame(t.frame), b, f'table {t.name} after lookups')


def star(ctx):
    """Several links of a table, to different tables or to the same one, also if it is the table itself"""
    src = Tab(ctx, 'S', ctx.pick([2, 5, 9]))
    n_links = ctx.int(2, 4)
    links, tabs = [], [src]
    for k in range(n_links):
        how = ctx.pick(['new', 'new', 'same', 'self']) if k else 'new'
        if how == 'new':
            dst = Tab(ctx, f'D{k}', ctx.pick([1, 3, 7]), linked=ctx.chance(0.5))
            tabs.append(dst)
        elif how == 'same':
            dst = ctx.pick(tabs[1:])
        else:
            dst = src
        links.append(relate(ctx, f'l{k}', src, dst))
    for t in tabs:
        t.add_columns()
        t.make()
    for i in ctx.rng.permutation(len(links)):
        establish(ctx, links[i])
        ctx.count('multi_key', len(links[i].how[1]) > 1)
    describe(ctx, tabs)
    for _ in range(5):
        link = ctx.pick(links)
        chain = [link]
        while chain[-1].dst is src and ctx.chance(0.5):
            chain.append(ctx.pick(links))
        attr = ctx.pick(list(chain[-1].dst.columns))
        judge(ctx, src.frame, chain, attr, list(range(src.n)), 'lookup')
    ctx.sig(ctx.trace)


def nodes(ctx):
    """What a link returns is kept, and used several times"""
    hops = ctx.pick([2, 2, 3, 4])
    tabs, links = chain_of_tables(ctx, hops)
    for i in range(ctx.int(0, 2)):  # More ways to go on
        k = ctx.int(0, hops)
        if tabs[k].linked:
            t = ctx.pick(tabs)
            extra = relate(ctx, f'other_{i}', tabs[k], t)
            links.append(extra)
            for tab in (tabs[k], t):
                tab.make()
    for i in ctx.rng.permutation(len(links)):
        establish(ctx, links[i])
    describe(ctx, tabs)
    held = [(tab.frame, tab, []) for tab in tabs if tab.linked]
    for _ in range(12):
        node, tab, chain = ctx.pick(held)
        last = chain[-1].dst if chain else tab
        onward = [l for l in links if l.src is last]
        if onward and len(chain) < 5 and (not chain or ctx.chance(0.5)):
            l = ctx.pick(onward)
            held.append((getattr(node, l.name) if ctx.chance(0.5) else node[l.name], tab, chain + [l]))
        elif chain:
            attr = ctx.pick(list(last.columns))
            got = node[attr] if ctx.chance(0.5) or not attr.isidentifier() else getattr(node, attr)
            ctx.note('looked up', [l.name for l in chain], attr)
            judge(ctx, tab.frame, chain, attr, list(range(tab.n)), 'lookup through a kept node', got)
            ctx.count('kept_nodes')
    ctx.sig(ctx.trace)


def late(ctx):
    """Columns (and links) which are added to the linked table later on are available through the link"""
    tabs, links = chain_of_tables(ctx, ctx.pick([1, 2]))
    for l in links:
        establish(ctx, l)
    describe(ctx, tabs)
    chain = links
    dst = links[-1].dst
    attr = ctx.pick(list(dst.columns))
    rows = list(range(tabs[0].n))
    judge(ctx, tabs[0].frame, chain, attr, rows, 'before')
    for _ in range(ctx.int(1, 3)):
        from rtm.frames import gen_values
        name = ctx.pick(['new_col', 'other_col', attr])
        col = gen_values(ctx, dst.n, ctx.pick(KINDS))
        dst.frame[name] = col.data()
        dst.columns[name] = col
        judge(ctx, tabs[0].frame, chain, name, rows, f'after assigning the column {name}')
        ctx.count('late_columns')
    if dst.linked:
        far = Tab(ctx, 'Far', 4, linked=False)
        # Keys of the table which exists already
        keys = ctx.rng.integers(0, 6, dst.n)
        dst.frame['late_key'] = keys
        far.add_columns()
        far.make()
        far.frame['far_key'] = np.arange(4)
        from rtm.frames import Link
        match = [[int(k)] if k < 4 else [] for k in keys]
        link = Link('far', dst, far, match, False, (dict(on_self='late_key', on_other='far_key'), ['int']))
        establish(ctx, link)
        attr = ctx.pick(list(far.columns))
        judge(ctx, tabs[0].frame, chain + [link], attr, rows, 'through a link which was added later')
    ctx.sig(ctx.trace)


def big(ctx):
    tabs, links = chain_of_tables(ctx, ctx.pick([1, 2]), sizes=(300, 1500, 4000))
    for l in links:
        establish(ctx, l)
        ctx.count('multi_key', len(l.how[1]) > 1)
    describe(ctx, tabs)
    for attr in list(links[-1].dst.columns)[:3]:
        judge(ctx, tabs[0].frame, links, attr, list(range(tabs[0].n)), 'lookup')
    ctx.sig(ctx.trace)


def empty(ctx):
    """Tables without rows"""
    src = Tab(ctx, 'S', ctx.pick([0, 3]))
    dst = Tab(ctx, 'D', ctx.pick([0, 0, 2]), linked=ctx.chance(0.5))
    link = relate(ctx, 'link', src, dst, keys=['int', 'text', 'float'])
    for t in (src, dst):
        t.add_columns()
        t.make()
    establish(ctx, link)
    describe(ctx, [src, dst])
    for attr in dst.columns:
        judge(ctx, src.frame, [link], attr, list(range(src.n)), 'lookup')
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('chains', chains, 1200, 20000),
    Scenario('star', star, 300, 5000),
    Scenario('nodes', nodes, 200, 4000),
    Scenario('late', late, 150, 2500),
    Scenario('big', big, 24, 300),
    Scenario('empty', empty, 80, 800),
]
