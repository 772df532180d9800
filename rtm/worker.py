"""Runs one shard of a check's scenarios in one mode"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
MAX_VIOLATIONS = 4


def main():
    prop, mode, shard, n_shards, tier, seed, out, progress = sys.argv[1:9]
    only = json.loads(sys.argv[9]) if len(sys.argv) > 9 else None
    shard, n_shards, seed = int(shard), int(n_shards), int(seed)
    from rtm.core import Ctx, Sink, Skip, Violation, in_product, REPO
    spec = importlib.import_module(f'rtm.checks.{prop.lower()}')
    sink = Sink()
    limit = {'quick': 600, 'thorough': 2700}[tier]
    t0 = time.time()

    with open(progress, 'w') as pf:
        pf.write('import\t0')
    try:
        import cheval
        assert os.path.realpath(cheval.__file__).startswith(os.path.realpath(REPO) + os.sep), cheval.__file__
    except Exception:
        sink.errors.append('the package cannot be imported: ' + traceback.format_exc()[-1500:])
        dump(sink, out)
        return

    for s in spec.SCENARIOS:
        if mode not in s.modes or (only and s.name != only['scenario']):
            continue
        n = s.count(tier, mode)
        if tier == 'quick' and n > 30:
            n = int(n * getattr(spec, 'QUICK', 1))  # More cases for checks which are fast
        cases = range(shard, n, n_shards) if only is None else [only['case']]
        n_bad = 0
        for case in cases:
            if time.time() - t0 > limit or n_bad >= MAX_VIOLATIONS:
                break
            with open(progress, 'w') as pf:
                pf.write(f'{s.name}\t{case}')
            ctx = Ctx(prop, s.name, case, seed, mode, tier, sink)
            ctx.shard = shard
            message, detail, key = None, None, None
            try:
                s.fn(ctx)
            except Skip:
                ctx.count('skipped')
                continue
            except Violation as v:
                message, detail, key = str(v), v.detail, v.key
            except MemoryError:
                sink.errors.append(f'{s.name}/{case}: out of memory')
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                # Raised by the code under test, or by a monitor that couldn't make sense of what it returned
                where = 'by the package' if in_product(e.__traceback__) else 'while judging its results'
                message = f'unexpected {type(e).__name__} raised {where}: {str(e)[:300]}'
                detail = traceback.format_exc()
            sink.evaluations += 1
            ctx.sign()
            k = f'{s.name}@{mode}'
            sink.per_scenario[k] = sink.per_scenario.get(k, 0) + 1
            if message is not None:
                n_bad += 1
                text = '\n'.join(ctx.trace[-60:])
                sink.violations.append(dict(scenario=s.name, case=case, mode=mode, shard=shard, message=message, key=key,
                                            detail=f'{text}\n{detail or ""}'[-6000:]))
                if only:
                    print(text)
                    print(detail)
            elif len([x for x in sink.samples if x['scenario'] == s.name]) < 2 and ctx.trace:
                sink.samples.append(dict(scenario=s.name, case=case, mode=mode, trace=[t[:300] for t in ctx.trace[:12]]))
    dump(sink, out)


def dump(sink, out):
    with open(out + '.tmp', 'w') as f:
        json.dump(dict(evaluations=sink.evaluations, counters=sink.counters, violations=sink.violations,
                       samples=sink.samples, records=sink.records, errors=sink.errors, signatures=sorted(sink.signatures),
                       per_scenario=sink.per_scenario), f, default=str)
    os.replace(out + '.tmp', out)


if __name__ == '__main__':
    main()
