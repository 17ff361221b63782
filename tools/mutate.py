#!/usr/bin/env python3
"""Mutation testing of the checks: which small changes of the code do they not see?

    python3 tools/mutate.py FILE.py [--n N] [--seed S] [--lines A-B] [--props C01,C02] [--list]

Makes N random one-place changes in quickly/FILE.py, each in a scratch copy; drops those that the
project's tests notice; runs the quick checks of the properties on the rest, and reports the survivors.
"""
import argparse, ast, difflib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'datatypes.py': 'C22', 'duration.py': 'C10 C16 C17', 'key.py': 'C12', 'node.py': 'C07 C08 C09 C18 C05', 'numbering.py': 'C21',
    'pitch.py': 'C11 C12 C13 C14 C15', 'relative.py': 'C15 C18 C14', 'rhythm.py': 'C16 C18', 'time.py': 'C17', 'transpose.py': 'C13 C14 C18',
    'dom/base.py': 'C01 C05 C06 C24 C02 C03 C04 C20', 'dom/edit.py': 'C18 C08 C06', 'dom/element.py': 'C01 C02 C06 C09 C05 C20 C22 C08', 'dom/htm.py': 'C04 C05',
    'dom/indent.py': 'C20 C25', 'dom/lily.py': 'C01 C02 C22 C16 C17 C23 C19 C20 C14 C15 C03', 'dom/markup.py': 'C02', 'dom/read.py': 'C01 C03 C04 C05',
    'dom/scm.py': 'C03 C02 C22 C20', 'dom/scope.py': 'C19 C17', 'dom/tex.py': 'C04 C05', 'dom/util.py': 'C01 C06 C20 C05 C25',
    'lang/html.py': 'C04 C05 C24', 'lang/latex.py': 'C04 C05 C24', 'lang/lilypond.py': 'C01 C05 C02 C24 C17', 'lang/scheme.py': 'C03 C05 C01 C24',
    '__init__.py': 'C26 C19', 'lang/__init__.py': 'C26 C05',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    """Yield (start, end, new text, what)."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    raw = src.encode()
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value)); docs.add(id(n.body[0]))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield (*span(n), '(%s %s %s)' % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), 'compare')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield (*span(n), '(' + op.join('(%s)' % text(v) for v in n.values) + ')', 'and/or')
            for i in range(len(n.values)):
                vs = [text(v) for j, v in enumerate(n.values) if j != i]
                yield (*span(n), '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % v for v in vs) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield (*span(n), '(' + text(n.operand) + ')', 'not')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield (*span(n), '(' + text(n.operand) + ')', 'minus')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield (*span(n.test), '(not (%s))' % text(n.test), 'negate')
            if not isinstance(n, ast.While):
                yield (*span(n.test), '(False and (%s))' % text(n.test), 'never')
                yield (*span(n.test), '(True or (%s))' % text(n.test), 'always')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            yield (*span(n), '(%s %s %s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'operator')
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield (*span(n), str(not n.value), 'constant')
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            yield (*span(n), str(n.value + 1), 'constant')
            if n.value:
                yield (*span(n), str(n.value - 1), 'constant')
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and text(n)[0] in 'r\'"':
            t = text(n)
            if t[-3:] in ("'''", '"""'):
                continue
            yield (*span(n), repr('' if n.value.strip() == '' and n.value else n.value + 'x' if n.value else ' '), 'string')
        elif isinstance(n, ast.Expr) or isinstance(n, (ast.Continue, ast.Break, ast.AugAssign, ast.Delete)):
            yield (*span(n), 'pass', 'drop statement')
        elif isinstance(n, ast.Return) and n.value is not None:
            yield (*span(n), 'return None', 'return')
        elif isinstance(n, ast.Tuple) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)):
                v = [text(e) for j, e in enumerate(n.elts) if j != i]
                yield (*span(n), '(' + ', '.join(v) + ',)', 'drop item')
        elif isinstance(n, ast.Call):
            parts = [text(a) for a in n.args] + [text(k) for k in n.keywords]
            for i in range(len(n.args), len(parts)):
                yield (*span(n), text(n.func) + '(' + ', '.join(parts[:i] + parts[i + 1:]) + ')', 'drop keyword')
            if isinstance(n.func, ast.Name) and n.func.id == 'reversed':
                yield (*span(n), 'iter(%s)' % text(n.args[0]), 'not reversed')
        elif isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(len(n.keys)):
                yield (*span(n), '{' + ', '.join('%s: %s' % (text(k), text(v)) for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i) + '}', 'drop key')


def run_one(args, name, rel, raw, mut, props, jobs):
    a, b, new, what = mut
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    try:
        for x in ('quickly', 'tests'):
            shutil.copytree('/repo/' + x, d + '/' + x)
        out = raw[:a] + new.encode() + raw[b:]
        open(os.path.join(d, 'quickly', rel), 'wb').write(out)
        line = raw[:a].count(b'\n') + 1
        diff = ''.join(l + '\n' for l in list(difflib.unified_diff(raw.decode().splitlines(), out.decode().splitlines(), lineterm='', n=0))[3:])
        head = '%s:%d %s' % (rel, line, what)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if r.returncode:
                return 'tests', head, diff, ''
        except subprocess.TimeoutExpired:
            return 'tests', head, diff, 'timeout'
        env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '/out')
        for p in props:
            t = time.time()
            try:
                r = subprocess.run(['bash', HERE + '/check.sh', p, '--first', '--jobs', str(jobs), '--seed', '7'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                return 'timeout', head, diff, p
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return 'caught', head, diff, p
            if r.returncode:
                return 'error %d' % r.returncode, head, diff, p + r.stdout[-600:]
        return 'SURVIVED', head, diff, ''
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--lines')
    ap.add_argument('--props')
    ap.add_argument('--what')
    ap.add_argument('--par', type=int, default=4)
    a = ap.parse_args()
    raw = open('/repo/quickly/' + a.file, 'rb').read()
    muts = list(mutants(raw.decode()))
    if a.lines:
        lo, hi = map(int, a.lines.split('-'))
        muts = [m for m in muts if lo <= raw[:m[0]].count(b'\n') + 1 <= hi]
    if a.what:
        muts = [m for m in muts if m[3] in a.what.split(',')]
    random.Random(a.seed).shuffle(muts)
    print(len(muts), 'mutants possible', flush=True)
    props = (a.props.split(',') if a.props else PROPS[a.file].split())
    os.makedirs('/tmp/mut', exist_ok=True)
    count = {}
    with ThreadPoolExecutor(a.par) as ex:
        for res in ex.map(lambda m: run_one(a, m, a.file, raw, m, props, max(1, 8 // a.par)), muts[:a.n]):
            k = res[0].split()[0]
            count[k] = count.get(k, 0) + 1
            if k not in ('tests', 'caught'):
                print(res[0], res[1], res[3] if k != 'SURVIVED' else '', '\n' + res[2], flush=True)
    print(a.file, count, flush=True)


main()
