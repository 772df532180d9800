"""Fill values: column before instance before class, and restorable"""
import json
import math
import os
import traceback

import numpy as np
import pandas as pd

from rtm.checks.l01 import judge
from rtm.core import Scenario, Violation
from rtm.frames import DEFAULT_FILLS, FILL_NAMES, KINDS, Tab, establish, relate

SHARDS = {'py': 8}
QUICK = 4
RULE = ('A case is a random history of settings of fill values (of columns, of frames and of the class; permanent, temporary, '
        'nested, ended by exceptions, and reset) of several linked tables with columns of all types, some of which are made in '
        'between. After each setting, lookups with rows that are linked to nothing are compared with a reference of the settings. '
        'Distinct by history.')
ASSUMPTIONS = ['fill values fit the type of the column', 'tables without links of their own use the settings of the class']
MINIMUM = {'lookups': 6000, 'filled_rows': 6000, 'settings': 2500, 'temporary': 500, 'failed_blocks': 150, 'resets': 200, 'columns_set': 400,
           'class_settings': 500, 'fresh_histories': 100}


def gen_fill(ctx, kind):
    return {'int': lambda: ctx.int(-120, 120), 'uint': lambda: ctx.int(0, 200), 'float': lambda: ctx.pick([0.0, -1.5, 99.25, math.nan]),
            'bool': lambda: ctx.chance(0.5), 'text': lambda: ctx.pick(['none', '', 'a', 'n/a']), 'cat': lambda: ctx.pick(['a', 'zz', math.nan]),
            'date': lambda: ctx.pick([pd.Timestamp('1999-01-01'), np.datetime64('2001-02-03'), np.datetime64('NaT')]),
            'object': lambda: ctx.pick([-1, 0.5, None])}[kind]()


class History:
    def __init__(self, ctx):
        from cheval import LinkedDataFrame
        self.ctx, self.cls = ctx, LinkedDataFrame
        self.defaults = dict(DEFAULT_FILLS)  # Of the class
        self.worlds = []  # (source, chain)

    def new_tables(self):
        """A source that is linked to a target, which can be linked to another one"""
        ctx = self.ctx
        hops = ctx.pick([1, 1, 1, 2])
        tabs = [Tab(ctx, f'T{len(self.worlds)}{i}', ctx.pick([2, 4, 7]), linked=i < hops or ctx.chance(0.6)) for i in range(hops + 1)]
        links = [relate(ctx, ['link', 'far'][i], tabs[i], tabs[i + 1]) for i in range(hops)]
        for t in tabs:
            t.add_columns([str(k) for k in ctx.rng.permutation(KINDS)[:ctx.int(3, 6)]])
            t.make()
            t.fills = dict(self.defaults) if t.linked else self.defaults
        for l in links:
            establish(ctx, l)
        self.worlds.append((tabs[0], links))
        ctx.note('new tables', tabs[-1].name, 'linked' if tabs[-1].linked else 'plain', {k: c.kind for k, c in tabs[-1].columns.items()})

    def targets(self):
        return [l.dst for _, links in self.worlds for l in links if l.dst.linked]

    def step(self, depth=0):
        ctx = self.ctx
        k = ctx.pick(['frame', 'frame', 'column', 'class', 'temp_frame', 'temp_class', 'reset_frame', 'reset_class', 'new', 'bad'])
        targets = self.targets()
        if k in ('frame', 'column', 'temp_frame', 'reset_frame') and not targets:
            k = 'class'
        t = ctx.pick(targets) if targets else None
        frame = self.handle(t) if t is not None else None
        kinds = [str(s) for s in ctx.rng.permutation(KINDS)[:ctx.int(1, 3)]]
        values = {kind: gen_fill(ctx, kind) for kind in kinds}
        kw = {FILL_NAMES[kind]: v for kind, v in values.items()}
        ctx.count('settings')
        if k == 'frame':
            ctx.note(t.name, 'set_fill_defaults', kw)
            frame.set_fill_defaults(**kw)
            t.fills.update(values)
        elif k == 'class':
            ctx.note('class set_fill_defaults', kw)
            self.cls.set_fill_defaults(**kw)
            self.defaults.update(values)
            ctx.count('class_settings')
        elif k == 'column':
            attr = ctx.pick(list(t.columns))
            v = gen_fill(ctx, t.columns[attr].kind)
            ctx.note(t.name, 'set_column_fill', attr, repr(v))
            frame.set_column_fill(attr, v)
            t.column_fills[attr] = v
            ctx.count('columns_set')
        elif k == 'reset_frame':
            ctx.note(t.name, 'reset_fill_defaults')
            frame.reset_fill_defaults()
            t.fills.update(DEFAULT_FILLS)
            ctx.count('resets')
        elif k == 'reset_class':
            ctx.note('class reset_fill_defaults')
            self.cls.reset_fill_defaults()
            self.defaults.update(DEFAULT_FILLS)
            ctx.count('resets')
        elif k == 'new':
            if len(self.worlds) < 4:
                self.new_tables()
        elif k == 'bad':
            if t is not None:
                ctx.raises(KeyError, lambda: frame.set_column_fill('no_such_column', 1), 'fill value of a column that does not exist')
            on = ctx.pick([self.cls] + ([frame] if t is not None else []))
            ctx.raises(Exception, lambda: on.set_fill_defaults(NO_SUCH_TYPE=1), 'fill value of an unknown type')

            def block():
                with on.temporary_fill_defaults(**kw, NO_SUCH_TYPE=1):
                    pass
            ctx.raises(Exception, block, 'temporary fill value of an unknown type')
        elif depth < 3:
            fills, on, who = (t.fills, frame, t.name) if k == 'temp_frame' else (self.defaults, self.cls, 'class')
            fails = ctx.chance(0.35)
            ctx.note('begin', who, 'temporary', kw)
            previous = {kind: fills[kind] for kind in kinds}
            try:
                with on.temporary_fill_defaults(**kw):
                    fills.update(values)
                    self.judge()
                    for _ in range(ctx.int(0, 2)):
                        self.step(depth + 1)
                    if fails:
                        ctx.count('failed_blocks')
                        raise ZeroDivisionError
            except ZeroDivisionError:
                pass
            fills.update(previous)
            ctx.note('end', who, 'temporary', 'by an exception' if fails else '')
            ctx.count('temporary')
            ctx.count('class_settings', who == 'class')
        self.judge()

    def handle(self, t):
        """The frame itself, or as it is reached from another frame"""
        if self.ctx.chance(0.3):
            for src, links in self.worlds:
                for l in links:
                    if l.dst is t:
                        target = l.src.frame.get_link_target(l.name)
                        self.ctx.check(target is t.frame, f'get_link_target({l.name!r}) is not the linked frame')
                        return target
        return t.frame

    def judge(self, limit=2):
        ctx = self.ctx
        for i in ctx.rng.permutation(len(self.worlds))[:limit]:
            src, links = self.worlds[int(i)]
            hops = ctx.int(1, len(links))
            attr = ctx.pick(list(links[hops - 1].dst.columns))
            judge(ctx, src.frame, links[:hops], attr, list(range(src.n)), f'{links[hops - 1].dst.name} after {ctx.trace[-1][:100]}')


def reset():
    from cheval import LinkedDataFrame
    LinkedDataFrame.reset_fill_defaults()


def histories(ctx):
    reset()
    try:
        h = History(ctx)
        h.new_tables()
        h.judge()
        for _ in range(ctx.int(3, 9)):
            h.step()
        ctx.sig(ctx.trace)
    finally:
        reset()


def precedence(ctx):
    """All levels at once, for each of the columns"""
    reset()
    try:
        h = History(ctx)
        first = {kind: gen_fill(ctx, kind) for kind in KINDS}
        h.cls.set_fill_defaults(**{FILL_NAMES[k]: v for k, v in first.items()})
        h.defaults.update(first)
        for _ in range(3):
            h.new_tables()
        second = {kind: gen_fill(ctx, kind) for kind in KINDS}  # Without any effect on frames which exist
        h.cls.set_fill_defaults(**{FILL_NAMES[k]: v for k, v in second.items()})
        h.defaults.update(second)
        ctx.count('class_settings', 2)
        for t in h.targets():
            if ctx.chance(0.6):
                own = {str(kind): gen_fill(ctx, kind) for kind in ctx.rng.permutation(KINDS)[:4]}
                t.frame.set_fill_defaults(**{FILL_NAMES[k]: v for k, v in own.items()})
                t.fills.update(own)
            for attr in list(t.columns)[::2]:
                v = gen_fill(ctx, t.columns[attr].kind)
                t.frame.set_column_fill(attr, v)
                t.column_fills[attr] = v
                ctx.count('columns_set')
        for src, links in h.worlds:
            for attr in links[-1].dst.columns:
                judge(ctx, src.frame, links, attr, list(range(src.n)), 'settings at all levels')
        ctx.note('class', first, second)
        ctx.sig(ctx.trace)
    finally:
        reset()


def in_child(ctx, fn):
    """Runs the case in a copy of this process, so that nothing it changes is seen by other cases"""
    r, w = os.pipe()
    before = dict(ctx.sink.counters)
    pid = os.fork()
    if pid == 0:
        code, result = 1, {}
        try:
            try:
                fn(ctx)
            except Violation as v:
                result.update(message=str(v), detail=v.detail)
            except Exception as e:
                result.update(message=f'unexpected {type(e).__name__}: {str(e)[:300]}', detail=traceback.format_exc())
            result.update(trace=ctx.trace, counters={k: v - before.get(k, 0) for k, v in ctx.sink.counters.items()})
            with os.fdopen(w, 'w') as f:
                json.dump(result, f, default=str)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    assert status == 0 and text, f'the process of the case ended with {status}'
    result = json.loads(text)
    ctx.trace.extend(result['trace'])
    for k, v in result['counters'].items():
        ctx.count(k, v)
    if result.get('message'):
        raise Violation(result['message'], result['detail'])


def fresh(ctx):
    """As the settings are when the package has just been imported, that is without any reset before"""
    def case(ctx):
        h = History(ctx)
        if ctx.chance(0.5):
            h.new_tables()
            h.judge()
        for _ in range(ctx.int(1, 3)):
            h.step()
        if not h.worlds:
            h.new_tables()
        if ctx.chance(0.5):
            ctx.note('class reset_fill_defaults')
            h.cls.reset_fill_defaults()
            h.defaults.update(DEFAULT_FILLS)
            ctx.count('resets')
        for t in h.targets():
            if ctx.chance(0.7):
                ctx.note(t.name, 'reset_fill_defaults')
                t.frame.reset_fill_defaults()
                t.fills.update(DEFAULT_FILLS)
                ctx.count('resets')
        h.new_tables()
        h.judge(4)
        h.judge(4)
        ctx.count('fresh_histories')
    in_child(ctx, case)
    ctx.sig(ctx.trace)


SCENARIOS = [
    Scenario('fresh', fresh, 120, 1200),  # First, as the others leave the class reset
    Scenario('histories', histories, 600, 12000),
    Scenario('precedence', precedence, 120, 2000),
]
