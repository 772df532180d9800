"""Development tool: applies small mutations to a scratch copy of the package, and reports which ones no check notices.

usage: mutate.py FILE [--sample N] [--seed S] [--only LINE[-LINE]] [--log LOG] [--checks ID,ID]

Mutants which the existing tests notice are skipped. Nothing in /repo is changed.
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'cheval/core.py': 'C01 C02 C03 C06 C05 C04 C12 C10',
    'cheval/model.py': 'C10 C12 C11 C15 C14 C02 C03 C01 C17 C07 C16 C09 C05 C08 C04 C13 C18',
    'cheval/api.py': 'C09 C07 C10 C11 C15 C14 C12 C08 C13 C16 L09 C01 C18',
    'cheval/utils.py': 'C07 L04 C09 L01 L07 L02 C16 L09',
    'cheval/parsing/ast_transformer.py': 'C07 C13 L04 C08 L09 C10 L07',
    'cheval/parsing/expressions.py': 'C07 C08 C13 C10 L04 C12 C11 C17 L09 C18',
    'cheval/parsing/expr_items.py': 'C07 C13 L04 L09 C10 C11 C12 C18',
    'cheval/ldf/api.py': 'L03 L01 L02 L08 L06 L05 L04 L07 L09 C16 L10',
    'cheval/ldf/missing_data.py': 'L05 L01 L02 L03',
}
# Fails in any case, or needs compiled kernels
SKIPPED = [x for t in ('ldf.py::test_choice_model_evaluate', 'core.py::test_sample_once', 'core.py::test_sample_multi')
           for x in ('--deselect', f'testing/test_{t}')]
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.And: ast.Or, ast.Or: ast.And, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutations(source):
    """(line, column span, replaced text, description) of every mutation"""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    offsets = [0]
    for l in lines:
        offsets.append(offsets[-1] + len(l.encode()))
    raw = source.encode()

    def span(n):
        return offsets[n.lineno - 1] + n.col_offset, offsets[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, text, what):
        a, b = span(n)
        if raw[a:b].decode() != text:
            out.append((n.lineno, a, b, text, what))

    docs, notes = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n, clean=False) is not None:
            docs.add(id(n.body[0]))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args + n.args.kwonlyargs:
                notes |= {id(x) for x in ast.walk(a)}
            if n.returns:
                notes |= {id(x) for x in ast.walk(n.returns)}
            for d in n.decorator_list:
                notes |= {id(x) for x in ast.walk(d)}
        if isinstance(n, ast.AnnAssign):
            notes |= {id(x) for x in ast.walk(n.annotation)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):  # Messages don't matter
            notes |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Assert) and n.msg is not None:
            notes |= {id(x) for x in ast.walk(n.msg)}
        if isinstance(n, ast.If) and 'logger' in ast.unparse(n.test):
            notes |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in notes or id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                m = ast.parse(ast.unparse(n), mode='eval').body
                if type(op) in SWAP:
                    m.ops[i] = SWAP[type(op)]()
                    add(n, '(' + ast.unparse(m) + ')', 'comparison')
        elif isinstance(n, (ast.BinOp, ast.BoolOp)) and type(n.op) in SWAP:
            m = ast.parse(ast.unparse(n), mode='eval').body
            if isinstance(m, type(n)):
                m.op = SWAP[type(n.op)]()
                add(n, '(' + ast.unparse(m) + ')', 'operator')
            if isinstance(n, ast.BoolOp):
                for v in n.values:
                    rest = [ast.unparse(x) for x in n.values if x is not v]
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'operand dropped')
        elif isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            m = ast.parse(ast.unparse(n)).body[0]
            m.op = SWAP[type(n.op)]()
            add(n, ast.unparse(m), 'augmented operator')
            add(n, f'{ast.unparse(n.target)} = {ast.unparse(n.value)}', 'assigned only')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'constant')
            elif isinstance(v, int):
                add(n, str(v + 1), 'constant')
                add(n, f'({v - 1})', 'constant')
            elif isinstance(v, float):
                add(n, repr(v + 1.0), 'constant')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            if id(t) not in notes:
                add(t, f'(not ({seg(t)}))', 'negated condition')
                add(t, 'True', 'condition holds')
                if not isinstance(n, ast.While):
                    add(t, 'False', 'condition fails')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            add(n, '(' + seg(n.operand) + ')', 'unary operator dropped')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'continue' if isinstance(n, ast.Break) else 'break', 'jump')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    m = [ast.unparse(a) for a in n.args] + [ast.unparse(x) for x in n.keywords if x is not k]
                    add(n, f'{ast.unparse(n.func)}({", ".join(m)})', f'keyword {k.arg} dropped')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'unique', 'strip', 'sort') and not n.keywords:
                add(n, seg(n.func.value), 'call dropped')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Assert, ast.Continue)) and id(n) not in docs:
            add(n, 'pass', 'statement dropped')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value is Ellipsis:
            add(n, seg(n.value), 'view dropped')
    return sorted(set(out)), raw


def main():
    p = argparse.ArgumentParser()
    p.add_argument('file')
    p.add_argument('--sample', type=int)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--only')
    p.add_argument('--log')
    p.add_argument('--checks')
    args = p.parse_args()
    scratch = tempfile.mkdtemp(prefix='mutate_')
    repo = f'{scratch}/repo'
    log = open(args.log, 'a') if args.log else sys.stdout
    try:
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        path = f'{repo}/{args.file}'
        source = open(path).read()
        muts, raw = mutations(source)
        if args.only:
            lo, _, hi = args.only.partition('-')
            muts = [m for m in muts if int(lo) <= m[0] <= int(hi or lo)]
        if args.sample and args.sample < len(muts):
            muts = random.Random(args.seed).sample(muts, args.sample)
            muts.sort()
        checks = (args.checks or CHECKS[args.file]).replace(',', ' ').split()
        totals = {}
        for line, a, b, text, what in muts:
            with open(path, 'wb') as f:
                f.write(raw[:a] + text.encode() + raw[b:])
            verdict = judge(repo, path, checks)
            kind = verdict.split()[0]
            totals[kind] = totals.get(kind, 0) + 1
            old = raw[a:b].decode().replace('\n', ' ')
            print(f'{args.file}:{line} [{what}] `{old[:90]}` -> `{text[:90]}`: {verdict}', file=log, flush=True)
            checks.sort(key=lambda c: c != verdict.split()[-1])  # What noticed the last one is tried first
        print(args.file, totals, file=log, flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(repo, path, checks):
    try:
        compile(open(path).read(), path, 'exec')
    except SyntaxError:
        return 'invalid'
    env = dict(os.environ, NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1')
    try:
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', *SKIPPED, 'testing'], cwd=repo, env=env, capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 'tests (time)'
    if t.returncode != 0:
        return 'tests'
    env = dict(os.environ, CHEVAL_REPO=repo, VERIF_SEED='1')
    for c in checks:
        try:
            r = subprocess.run(['./check', c, 'quick', '--no-evidence'], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return f'time {c}'
        if r.returncode == 1:
            return f'caught {c}'
        if r.returncode != 0:
            return f'error {r.returncode} {c}'
    return 'SURVIVED -'


main()
