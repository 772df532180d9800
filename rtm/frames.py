"""Generator of linked tables, along with a reference (plain Python lists) of their contents and relations"""
import math

import numpy as np
import pandas as pd

from rtm.core import is_missing, same_object

KINDS = ['int', 'float', 'bool', 'text', 'cat', 'date', 'uint', 'object']
DEFAULT_FILLS = {'int': 0, 'uint': 0, 'float': math.nan, 'bool': False, 'text': '', 'cat': math.nan, 'date': pd.NaT, 'object': None}
FILL_NAMES = {'int': 'INT_NAME', 'uint': 'UINT_NAME', 'float': 'FLOAT_NAME', 'bool': 'BOOL_NAME', 'text': 'TEXT_NAME',
              'cat': 'CAT_NAME', 'date': 'TIME_NAME', 'object': 'OBJ_NAME'}
WORDS = ['a', 'bb', 'ccc', 'dd dd', 'E', 'f_f', '']


class Column:
    def __init__(self, kind, values, dtype=None):
        self.kind, self.values, self.dtype = kind, values, dtype

    def data(self):
        v = self.values
        if self.kind == 'cat':
            return pd.Categorical(v, categories=sorted({x for x in v if not is_missing(x)} | {'a', 'zz'}))
        if self.kind == 'date':
            return pd.to_datetime(pd.Series(v, dtype='datetime64[ns]')).to_numpy()
        if self.kind in ('text', 'object'):
            out = np.empty(len(v), dtype=object)
            out[:] = v
            return out
        return np.array(v, dtype=self.dtype)


def gen_values(ctx, n, kind, missing=0.0):
    if kind == 'int':
        return Column(kind, [ctx.int(-50, 50) for _ in range(n)], ctx.pick(['i8', 'i8', 'i4', 'i2', 'i1']))
    if kind == 'uint':
        return Column(kind, [ctx.int(0, 90) for _ in range(n)], ctx.pick(['u1', 'u2', 'u4', 'u8']))
    if kind == 'float':
        v = [math.nan if ctx.chance(missing) else ctx.int(-40, 40) * 0.25 for _ in range(n)]
        return Column(kind, v, ctx.pick(['f8', 'f8', 'f4']))
    if kind == 'bool':
        return Column(kind, [ctx.chance(0.5) for _ in range(n)], '?')
    if kind == 'text':
        return Column(kind, [None if ctx.chance(missing) else ctx.pick(WORDS) for _ in range(n)])
    if kind == 'cat':
        return Column(kind, [math.nan if ctx.chance(missing) else ctx.pick(WORDS) for _ in range(n)])
    if kind == 'date':
        return Column(kind, [pd.Timestamp('2021-01-01') + pd.Timedelta(days=ctx.int(0, 400)) for _ in range(n)])
    if kind == 'object' and n == 0:
        return Column('text', [])  # Indistinguishable
    if kind == 'object':
        return Column(kind, [ctx.pick([ctx.int(0, 9), ctx.int(0, 9) * 0.5]) for _ in range(n)])
    raise ValueError(kind)


class Key:
    """One component of a key: values by code, and how these are stored on either side"""

    def __init__(self, ctx, kind, size):
        self.kind = kind
        if kind == 'int':
            self.domain = [int(v) for v in ctx.rng.permutation(np.arange(-size, 3 * size))[:size]]
        elif kind == 'offset':
            self.domain = list(range(size))
        elif kind == 'text':
            self.domain = [f'k{v}' if v % 3 else f'key {v}' for v in ctx.rng.permutation(3 * size)[:size]]
        elif kind == 'float':
            self.domain = [float(v) / 4 for v in ctx.rng.permutation(3 * size)[:size]]
        elif kind == 'date':
            self.domain = [pd.Timestamp('2022-03-01') + pd.Timedelta(days=int(v)) for v in ctx.rng.permutation(3 * size)[:size]]

    def array(self, ctx, codes, vary=True):
        """Stores the values of the codes (-1: missing)"""
        v = [None if c < 0 else self.domain[c] for c in codes]
        gaps = any(c < 0 for c in codes)
        if self.kind in ('int', 'offset'):
            if gaps:
                return np.array([math.nan if x is None else x for x in v], dtype='f8')
            return np.array(v, dtype=ctx.pick(['i8', 'i8', 'i8', 'i4', 'i2', 'f8']) if vary else 'i8')
        if self.kind == 'float':
            return np.array([math.nan if x is None else x for x in v], dtype=ctx.pick(['f8', 'f8', 'f4']) if vary else 'f8')
        if self.kind == 'date':
            return pd.to_datetime(pd.Series([pd.NaT if x is None else x for x in v], dtype='datetime64[ns]')).to_numpy()
        if vary and ctx.chance(0.25):
            return pd.Categorical(v, categories=[str(s) for s in ctx.rng.permutation(self.domain)])
        out = np.empty(len(v), dtype=object)
        out[:] = v
        return out


class Tab:
    """A table which is specified first, and made later on"""

    def __init__(self, ctx, name, n, linked=True):
        self.ctx, self.name, self.n, self.linked = ctx, name, n, linked
        self.columns = {}  # Values: name -> Column
        self.keys = {}  # Key columns: name -> array
        self.index = None  # (names, arrays)
        self.links = {}
        self.frame = None
        self.fills = dict(DEFAULT_FILLS)
        self.column_fills = {}

    def add_columns(self, kinds=None, k=None, missing=0.15, names=None):
        ctx = self.ctx
        names = names or ['area', 'pop', 'x', 'y', 'kind', 'flag', 'when', 'cost', 'n_cars', 'label', 'size_', 'value', 'two words']
        names = [str(s) for s in ctx.rng.permutation(names) if s not in self.columns]
        for kind in (kinds or [ctx.pick(KINDS) for _ in range(k or ctx.int(2, 5))]):
            self.columns[names.pop()] = gen_values(ctx, self.n, kind, missing)
        return self

    def make(self):
        from cheval import LinkedDataFrame
        ctx = self.ctx
        data = {'rid': np.arange(self.n)}
        data.update(self.keys)
        data.update({k: c.data() for k, c in self.columns.items()})
        order = [str(s) for s in ctx.rng.permutation(list(data))]
        if self.index is None:
            kind = ctx.pick(['range', 'ints', 'text', 'dup', 'named'])
            if kind == 'range':
                index = pd.RangeIndex(self.n)
            elif kind == 'dup':
                index = pd.Index(ctx.rng.integers(0, max(1, self.n // 2), self.n))
            elif kind == 'text':
                index = pd.Index([f'r{v}' for v in ctx.rng.permutation(self.n)], dtype=object)
            else:
                index = pd.Index(ctx.rng.permutation(self.n * 2)[:self.n], name='the_index' if kind == 'named' else None)
        else:
            names, arrays = self.index
            index = pd.Index(arrays[0], name=names[0]) if len(arrays) == 1 else pd.MultiIndex.from_arrays(arrays, names=names)
        frame = pd.DataFrame({k: data[k] for k in order}, index=index)
        self.frame = LinkedDataFrame(frame) if self.linked else frame
        return self.frame

    def fill_of(self, attr):
        if attr in self.column_fills:
            return self.column_fills[attr]
        return self.fills[self.columns[attr].kind]


class Link:
    def __init__(self, name, src, dst, match, agg, how):
        self.name, self.src, self.dst, self.match, self.agg, self.how = name, src, dst, match, agg, how
        # match: for each row of src, the list of rows of dst


def alike(ctx, codes, unused):
    """Nearly the same keys: some of the inner rows are exchanged, or have keys that don't exist on the other side"""
    codes, n = codes.copy(), len(codes)
    if n < 3:
        return codes
    for _ in range(ctx.int(1, 2)):
        i, j = ctx.int(1, n - 2), ctx.int(1, n - 2)
        how = ctx.pick(['swap', 'replace', 'repeat', 'neighbour'])
        if how == 'neighbour':  # Still sorted, if these were
            j = i - 1
        if how == 'swap':
            codes[[i, j]] = codes[[j, i]]
        elif how == 'replace' and len(unused):
            codes[i] = unused[ctx.int(0, len(unused) - 1)]
        else:
            codes[i] = codes[j]
    return codes


def relate(ctx, name, src, dst, agg=False, n_keys=None, one_to_one=False, missing=True, keys=None, same=0.15, side=None):
    """Specifies a relation between two tables: adds keys to both of them"""
    n_keys = n_keys or ctx.pick([1, 1, 1, 2, 2, 3])
    u_side, m_side = (src, dst) if agg else (dst, src)  # Unique keys on one side
    size = max(2, int(math.ceil((u_side.n + 2) ** (1 / n_keys))) + 1)
    if n_keys == 1:
        size = u_side.n + 3
    comps = [Key(ctx, ctx.pick(keys or ['int', 'int', 'offset', 'text', 'text', 'float', 'date']), size) for _ in range(n_keys)]
    space = np.stack(np.meshgrid(*[np.arange(size)] * n_keys, indexing='ij'), axis=-1).reshape(-1, n_keys)
    order = ctx.rng.permutation(len(space))
    if ctx.chance(0.3):
        order = np.arange(len(space))
        if ctx.chance(0.4):
            comps = [Key(ctx, 'offset', size) for _ in comps]  # So that the keys are sorted
    u_codes = space[order[:u_side.n]]
    if ctx.chance(same) and m_side.n == u_side.n:
        m_codes = u_codes.copy()  # Both are the same
        if ctx.chance(0.7):
            m_codes = alike(ctx, u_codes, space[order[u_side.n:]])
    elif one_to_one:
        m_codes = space[ctx.rng.permutation(order[:max(m_side.n, min(len(order), u_side.n + 2))])[:m_side.n]]
    else:
        reach = len(order) if missing else max(1, u_side.n)
        m_codes = space[order[ctx.rng.integers(0, min(reach, len(order)), m_side.n)]]
        if missing and ctx.chance(0.25):  # Rows without a key
            m_codes = m_codes.copy()
            for r in range(m_side.n):
                if ctx.chance(0.2):
                    m_codes[r, ctx.int(0, n_keys - 1)] = -1
    gaps = (m_codes < 0).any()
    u_gap = missing and not gaps and u_side.n > 0 and ctx.chance(0.12)
    if u_gap:  # There also can be a single row without a key where these are unique
        u_codes = u_codes.copy()
        u_codes[ctx.int(0, u_side.n - 1), ctx.int(0, n_keys - 1)] = -1
    src_codes, dst_codes = (u_codes, m_codes) if agg else (m_codes, u_codes)

    rows = {}
    for r, code in enumerate(map(tuple, dst_codes)):
        rows.setdefault(code, []).append(r)
    match = [rows.get(tuple(c), []) if min(c) >= 0 else [] for c in src_codes]
    is_agg = any(len(v) > 1 for c, v in rows.items()) if agg else False

    names = [f'{name}_k{i}' for i in range(n_keys)]
    shared = src is not dst and ctx.chance(0.3)  # The labels are the same on both sides
    sides = {}
    for side_name, tab, codes in (('self', src, src_codes), ('other', dst, dst_codes)):
        labels = names if shared else [f'{x}_{side_name}' for x in names]
        arrays = [k.array(ctx, codes[:, i]) for i, k in enumerate(comps)]
        is_m = (gaps if tab is m_side else u_gap)
        use_index = tab.index is None and not is_m and ctx.chance(0.55) and src is not dst and \
            (side is None or side.get(side_name) != 'columns')
        if use_index and not any(isinstance(a, pd.Categorical) for a in arrays):
            extra = ctx.chance(0.25)
            if extra:  # Only some of the levels are used
                pos = ctx.int(0, n_keys)
                lv, la = list(labels), list(arrays)
                lv.insert(pos, f'extra_{side_name}_{name}')
                la.insert(pos, ctx.rng.integers(0, 3, tab.n))
                tab.index = (lv, la)
                by_number = ctx.chance(0.4)
                spec = [i for i in range(n_keys + 1) if i != pos] if by_number else list(labels)
                sides[side_name] = ('levels', spec, by_number)
            else:
                tab.index = (list(labels), arrays)
                k = ctx.pick(['all', 'names', 'numbers'])
                sides[side_name] = ('all', None, False) if k == 'all' else \
                    ('levels', list(labels) if k == 'names' else list(range(n_keys)), k == 'numbers')
        else:
            for lab, a in zip(labels, arrays):
                tab.keys[lab] = a
            sides[side_name] = ('columns', list(labels), False)

    def single(spec):
        return spec[0] if len(spec) == 1 and ctx.chance(0.6) else spec

    kw = {}
    (s_how, s_spec, _), (o_how, o_spec, _) = sides['self'], sides['other']
    if s_how == o_how == 'columns' and s_spec == o_spec and ctx.chance(0.7):
        kw['on'] = single(s_spec)
    elif s_how == o_how == 'levels' and s_spec == o_spec and ctx.chance(0.7):
        kw['levels'] = single(s_spec)
    else:
        if s_how != 'all':
            kw['on_self' if s_how == 'columns' else 'self_levels'] = single(s_spec)
        if o_how != 'all':
            kw['on_other' if o_how == 'columns' else 'other_levels'] = single(o_spec)
    if ctx.chance(0.4):
        kw['precompute'] = ctx.chance(0.3)
    link = Link(name, src, dst, match, is_agg, (kw, [k.kind for k in comps]))
    link.other_gap = u_gap and not agg  # Whether missing keys match each other isn't specified
    src.links[name] = link
    return link


def establish(ctx, link, frame=None):
    """Calls link_to() on the frames"""
    kw, kinds = link.how
    ctx.note(f'{link.src.name}.link_to({link.dst.name}, {link.name!r}, {kw}) keys={kinds}')
    return (link.src.frame if frame is None else frame).link_to(link.dst.frame, link.name, **kw)


def follow(link_chain, rows):
    """Rows of the final table, or None"""
    for link in link_chain:
        rows = [None if r is None or not link.match[r] else link.match[r][0] for r in rows]
    return rows


def looked_up(link_chain, attr, rows):
    dst = link_chain[-1].dst
    col, fill = dst.columns[attr], dst.fill_of(attr)
    return [fill if r is None else col.values[r] for r in follow(link_chain, rows)]


def access(ctx, frame, link_chain, attr):
    """Looks up the attribute through one of the possible styles"""
    node = frame
    for item in [l.name for l in link_chain] + [attr]:
        node = getattr(node, item) if ctx.chance(0.6) and item.isidentifier() else node[item]
    return node


def aggregate(values, func, q=0.5, n=1, ddof=1, min_count=0):
    """The aggregate of the values (rows in order, None or NaN if missing) of a single group"""
    present = [v for v in values if not is_missing(v)]
    if func == 'count':
        return len(present)
    if func == 'first':
        return present[0] if present else None
    if func == 'last':
        return present[-1] if present else None
    if func == 'nth':
        k = n if n >= 0 else len(values) + n
        return values[k] if 0 <= k < len(values) else Ellipsis  # Nothing, as for rows without a group
    if func in ('sum', 'prod') and len(present) < min_count:
        return math.nan
    if func == 'sum':
        return sum(present)
    if func == 'prod':
        return math.prod(present)
    if not present:
        return math.nan
    if func == 'max':
        return max(present)
    if func == 'min':
        return min(present)
    mean = sum(present) / len(present)
    if func == 'mean':
        return mean
    if func in ('var', 'std'):
        if len(present) <= ddof:
            return math.nan
        var = sum((v - mean) ** 2 for v in present) / (len(present) - ddof)
        return var if func == 'var' else math.sqrt(var)
    p = sorted(present)
    if func == 'median':
        q = 0.5
    pos = q * (len(p) - 1)
    lo = math.floor(pos)
    hi = min(lo + 1, len(p) - 1)
    return p[lo] + (p[hi] - p[lo]) * (pos - lo)


def same_list(ctx, got, want, what, tol=1e-9):
    got, want = list(got), list(want)
    ctx.count('assertions')
    ctx.count('values_compared', len(want))
    if len(got) != len(want):
        ctx.fail(f'{what}: {len(got)} values instead of {len(want)}')
    for i, (g, w) in enumerate(zip(got, want)):
        if same_object(g, w):
            continue
        try:
            if not isinstance(w, (bool, str)) and not isinstance(g, (bool, str)) and abs(g - w) <= tol * max(1, abs(w)):
                continue
        except TypeError:
            pass
        ctx.fail(f'{what}: row {i} is {g!r} instead of {w!r} (got {got[:12]}, expected {want[:12]})')
