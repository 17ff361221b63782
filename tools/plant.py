#!/usr/bin/env python3
"""Plant bugs: verify candidates in a scratch copy and keep them in seeded/.

    python3 tools/plant.py FILE.py [NAME...]   plant the bugs defined in FILE.py
    python3 tools/plant.py --recheck [NAME...]  verify the bugs that are in seeded/

FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits (a
list of (file, old, new)), demo (Python code that exits nonzero on failure).

A bug is kept when the patch applies, the tests pass with it, the demo passes
without it and fails with it, and the lines it changes are original ones.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(*args, cwd, **kw):
    return subprocess.run(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280, **kw)

def tests(tree):
    return sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests', cwd=tree,
              env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=tree, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'))

def demo(tree, folder):
    return sh('bash', os.path.join(folder, 'demo.sh'), cwd=tree)

def original(tree, rev):
    """Report changed lines that are not original (blame)."""
    base = sh('git', 'rev-list', '--max-parents=0', 'HEAD', cwd='/repo').stdout.strip()
    out = []
    diff = sh('git', 'diff', '-U0', cwd=tree).stdout
    name = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            name = line[6:]
        elif line.startswith('@@'):
            part = line.split()[1][1:]
            start, _, n = part.partition(',')
            start, n = int(start), int(n or 1)
            if n:
                b = sh('git', 'blame', '-l', '-s', '-L', '{},{}'.format(start, start + n - 1), 'HEAD', '--', name, cwd='/repo').stdout
                for l in b.splitlines():
                    if not l.lstrip('^').startswith(base[:38]):
                        out.append(l)
    return out

def copy():
    d = tempfile.mkdtemp(prefix='plant')
    t = os.path.join(d, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', t], check=True)
    return d, t

def plant(bug):
    d, tree = copy()
    try:
        for name, old, new in bug['edits']:
            p = os.path.join(tree, name)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches {} times: {!r}".format(s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        notorig = original(tree, None)
        if notorig:
            return "not original:\n" + '\n'.join(notorig)
        patch = sh('git', 'diff', cwd=tree).stdout
        folder = os.path.join(d, 'bug')
        os.mkdir(folder)
        open(os.path.join(folder, 'demo.sh'), 'w').write(SH)
        open(os.path.join(folder, 'demo.py'), 'w').write(bug['demo'].lstrip())
        r = demo('/repo', folder)
        if r.returncode:
            return "demo fails on the unchanged tree\n" + r.stdout
        r = demo(tree, folder)
        if not r.returncode:
            return "demo passes with the bug"
        r = tests(tree)
        if r.returncode:
            return "tests fail\n" + r.stdout[-1500:]
        dest = os.path.join(SEEDED, bug['id'])
        os.makedirs(dest, exist_ok=True)
        open(os.path.join(dest, 'patch.diff'), 'w').write(patch)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(folder, n), dest)
        with open(os.path.join(dest, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
    finally:
        shutil.rmtree(d)

def recheck(name):
    d, tree = copy()
    try:
        folder = os.path.join(SEEDED, name)
        r = sh('git', 'apply', os.path.join(folder, 'patch.diff'), cwd=tree)
        if r.returncode:
            return "does not apply: " + r.stdout
        notorig = original(tree, None)
        if notorig:
            return "not original:\n" + '\n'.join(notorig)
        r = demo('/repo', folder)
        if r.returncode:
            return "demo fails on the unchanged tree\n" + r.stdout
        if not demo(tree, folder).returncode:
            return "demo passes with the bug"
        r = tests(tree)
        if r.returncode:
            return "tests fail\n" + r.stdout[-1500:]
    finally:
        shutil.rmtree(d)

def main():
    if sys.argv[1] == '--recheck':
        for name in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(name, recheck(name) or 'ok', flush=True)
        return
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            print(b['id'], plant(b) or 'planted', flush=True)

main()
