"""Parent process of a check: starts the workers that drive the real code, merges what their monitors observed, writes
the evidence file and decides the exit code.

exit 0: held on everything explored; exit 1: violation (with a VIOLATION line); anything else: inconclusive or an error
of the check itself (never folded into one of the other two).
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CHEVAL_REPO', '/repo')
sys.path.insert(0, VERIF)

N_PROCS = 8
WATCHDOG_S = {'quick': 780, 'thorough': 3300}


def worker_env(mode, scratch, shard=0):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('NUMBA_', 'PYTHON', 'MALLOC_', 'OMP_', 'NUMEXPR'))}
    env.update(PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f'{REPO}:{VERIF}', PYTHONWARNINGS='ignore',
               MALLOC_PERTURB_='165',  # Make reads of uninitialised memory visible
               TMPDIR=scratch, HOME=scratch)
    if mode == 'py':
        env['NUMBA_DISABLE_JIT'] = '1'
        env['OMP_NUM_THREADS'] = '1'
    else:
        cache = os.path.join(scratch, f'numba_{mode}')
        os.makedirs(cache, exist_ok=True)
        env['NUMBA_CACHE_DIR'] = cache
        env['NUMBA_NUM_THREADS'] = '8'
        env['NUMBA_NRT_STATS'] = '1'  # Counts the allocations of compiled code
        if mode == 'bc':
            env['NUMBA_BOUNDSCHECK'] = '1'
    return env


class Worker:
    def __init__(self, prop, mode, shard, n_shards, tier, seed, scratch, only=None):
        self.mode, self.shard = mode, shard
        self.out = os.path.join(scratch, f'{mode}_{shard}.json')
        self.progress = os.path.join(scratch, f'{mode}_{shard}.progress')
        self.log = open(os.path.join(scratch, f'{mode}_{shard}.log'), 'w+')
        args = [sys.executable, '-B', '-m', 'rtm.worker', prop, mode, str(shard), str(n_shards), tier, str(seed),
                self.out, self.progress]
        if only is not None:
            args.append(json.dumps(only))
        self.args = args
        self.env = worker_env(mode, scratch, only.get('shard', 0) if only else shard)
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen(self.args, env=self.env, stdout=self.log, stderr=subprocess.STDOUT, cwd=VERIF,
                                     start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def tail(self, n=4000):
        self.log.flush()
        self.log.seek(0)
        return self.log.read()[-n:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        assert only['property'] == prop
        tier, seed = only['tier'], only['seed']

    spec = importlib.import_module(f'rtm.checks.{prop.lower()}')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'rtm_{prop}_')
    code = 3
    try:
        code = run(prop, tier, seed, spec, scratch, only, t0, a)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(prop, tier, seed, spec, scratch, only, t0, a):
    deadline = t0 + WATCHDOG_S[tier]
    modes = []
    for s in spec.SCENARIOS:
        for m in s.modes:
            if m not in modes and (only is None or only['mode'] == m):
                modes.append(m)

    # Modes which compile first need the (per-run) cache to be warm before several workers share it
    pending, running, done, warm = [], [], [], []
    for m in modes:
        if m == 'py':
            n = 1 if only else spec.SHARDS.get('py', 6 if len(modes) > 1 else 8)
            pending += [Worker(prop, m, i, n, tier, seed, scratch, only) for i in range(n)]
        else:
            p = subprocess.Popen([sys.executable, '-B', '-c', 'import cheval.core'], env=worker_env(m, scratch),
                                 stdout=subprocess.DEVNULL, stderr=open(os.path.join(scratch, f'warm_{m}.log'), 'w'),
                                 cwd=VERIF, start_new_session=True)
            warm.append((m, p))

    failed = None
    while pending or running or warm:
        for m, p in list(warm):
            rc = p.poll()
            if rc is not None:
                warm.remove((m, p))
                if rc != 0:
                    failed = f'importing the package in mode {m} failed (exit {rc}): ' + \
                             open(os.path.join(scratch, f'warm_{m}.log')).read()[-2000:]
                n = 1 if only else spec.SHARDS.get(m, 2)
                pending += [Worker(prop, m, i, n, tier, seed, scratch, only) for i in range(n)]
        while pending and len(running) + len(warm) < N_PROCS:
            w = pending.pop(0)
            w.start()
            running.append(w)
        for w in list(running):
            if w.proc.poll() is not None:
                running.remove(w)
                done.append(w)
        if time.time() > deadline:
            for w in running:
                w.kill()
            for _, p in warm:
                os.killpg(p.pid, signal.SIGKILL)
            print(f'INCONCLUSIVE property={prop}: watchdog after {WATCHDOG_S[tier]} s; running: '
                  f'{[(w.mode, w.shard) for w in running]}')
            return 4
        time.sleep(0.05)

    # Merge
    merged = {'evaluations': 0, 'counters': {}, 'violations': [], 'samples': [], 'errors': [], 'per_scenario': {}, 'records': []}
    sigs = set()
    for w in sorted(done, key=lambda w: (w.mode, w.shard)):
        rc = w.proc.returncode
        res = None
        if os.path.exists(w.out):
            res = json.load(open(w.out))
        if rc != 0 or res is None:
            at = open(w.progress).read() if os.path.exists(w.progress) else '?'
            if rc is not None and rc < 0 and rc != -signal.SIGKILL and at != '?':
                scenario, case = at.split('\t')[:2]
                merged['violations'].append(dict(
                    scenario=scenario, case=int(case), mode=w.mode, shard=w.shard,
                    message=f'the process was terminated by signal {-rc} ({signal.Signals(-rc).name})',
                    detail=w.tail()))
            else:
                merged['errors'].append(f'worker {w.mode}/{w.shard} exit {rc} at {at}: {w.tail()}')
            continue
        merged['evaluations'] += res['evaluations']
        merged['violations'] += res['violations']
        merged['samples'] += res['samples']
        merged['records'] += res['records']
        merged['errors'] += res['errors']
        sigs.update(res['signatures'])
        for k, v in res['counters'].items():
            merged['counters'][k] = merged['counters'].get(k, 0) + v
        for k, v in res['per_scenario'].items():
            merged['per_scenario'][k] = merged['per_scenario'].get(k, 0) + v
    # Statistical or cross-worker verdicts over everything that was recorded
    if hasattr(spec, 'finish') and only is None:
        merged['violations'] += spec.finish(merged) or []

    if failed:
        print(f'ERROR property={prop}: {failed}')
    minimums = {} if only else spec.MINIMUM
    short = {k: (merged['counters'].get(k, 0), v) for k, v in minimums.items() if merged['counters'].get(k, 0) < v}

    samples, seen = [], {}
    for s in merged['samples']:
        if seen.get(s['scenario'], 0) < 2 and len(samples) < 30:
            seen[s['scenario']] = seen.get(s['scenario'], 0) + 1
            samples.append(s)
    known, unlisted = split_known(prop, merged['violations'])
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - t0, 2),
                    violations=len(unlisted), assumptions=list(spec.ASSUMPTIONS),
                    coverage=dict(evaluations=merged['evaluations'], distinct_nontrivial=len(sigs), rule=spec.RULE,
                                  samples=samples, observed=dict(sorted(merged['counters'].items())),
                                  cases_per_scenario=dict(sorted(merged['per_scenario'].items())),
                                  workers=[f'{w.mode}/{w.shard}' for w in done],
                                  known_findings_seen=len(known)))
    if not only and not a.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1)

    for key, text in sorted({(k['key'], k['text']) for k, _ in known}):
        print(f'KNOWN-FINDING: property={prop} {text}')
    if unlisted:
        v = sorted(unlisted, key=lambda v: len(v.get('detail', '')))[0]
        path = os.path.join(VERIF, 'evidence', f'{prop}.replay.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, mode=v.get('mode'), shard=v.get('shard', 0), scenario=v['scenario'],
                           case=v['case'], message=v['message'], detail=v.get('detail'),
                           command=f'{VERIF}/check {prop} --replay {path}'), f, indent=1)
        shown = set()
        for u in unlisted:
            if u['scenario'] in shown or len(shown) >= 6:
                continue
            shown.add(u['scenario'])
            print(f"  [{u['scenario']} case {u['case']} mode {u.get('mode')}] {u['message'][:1500]}")
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if merged['errors'] or failed:
        for e in merged['errors'][:3]:
            print(f'ERROR property={prop}: {e}')
        return 3
    if short:
        print(f'INCONCLUSIVE property={prop}: the monitors observed too little: {short}')
        return 5
    print(f"held: property={prop} tier={tier} seed={seed} executions={merged['evaluations']} "
          f"distinct={len(sigs)} wall={evidence['wall_s']}s observed={evidence['coverage']['observed']}")
    return 0


def split_known(prop, violations):
    """Entries of known_findings.json are keyed by the mechanism (the key a monitor gives to what it saw)"""
    path = os.path.join(VERIF, 'known_findings.json')
    entries = []
    if os.path.exists(path):
        entries = [e for e in json.load(open(path))['findings'] if e['property'] == prop]
    known, unlisted = [], []
    for v in violations:
        hit = next((e for e in entries if v.get('key') is not None and e['key'] == v['key']), None)
        if hit is None:
            unlisted.append(v)
        else:
            known.append((hit, v))
    return known, unlisted


if __name__ == '__main__':
    main()
