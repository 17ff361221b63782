#!/usr/bin/env python3
"""Report the lines of quickly that no quick check runs.

    python3 tools/cover.py [PROP...]     run the checks (default: all) and report
"""
import dis, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ['C%02d' % i for i in range(1, 25)]
out = tempfile.mktemp()
for p in props:
    subprocess.run(['bash', HERE + '/check.sh', p], env=dict(os.environ, VF_COVER=out, VERIF_OUT='/tmp/vf-cover-out'), stdout=subprocess.DEVNULL)
seen = {}
for l in open(out):
    f, _, n = l.strip().rpartition(':')
    seen.setdefault(f, set()).add(int(n))
os.unlink(out)

def lines(code):
    for _, _, n in code.co_lines():
        if n:
            yield n
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            yield from lines(c)

root = '/repo/quickly'
for d, dirs, files in sorted(os.walk(root)):
    for f in sorted(files):
        if f.endswith('.py'):
            path = os.path.join(d, f)
            rel = os.path.relpath(path, root)
            text = open(path).read()
            all_ = set(lines(compile(text, path, 'exec')))
            miss = sorted(all_ - seen.get(rel, set()))
            src = text.splitlines()
            print('%s: %d of %d lines not run' % (rel, len(miss), len(all_)))
            for n in miss:
                s = src[n - 1].strip()
                if s and not s.startswith(('"""', 'r"""')):
                    print('  %5d %s' % (n, src[n - 1].rstrip()))
