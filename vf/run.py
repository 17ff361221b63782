"""Runs all sub-checks of one property:  python -m vf.run C01 [--replay FILE] [--only SUB] [--tier T]"""
import argparse
import collections
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# evidence and replay files; elsewhere while trying scratch copies of the code
OUT = os.environ.get('VERIF_OUT') or (HERE if not os.environ.get('VERIF_REPO') else '/tmp/vf-out')

MODULES = {}
for _m, _ps in {
        'm_roundtrip': ['C01', 'C02', 'C04'],
        'm_scheme': ['C03'],
        'm_read': ['C05'],
        'm_edit': ['C06'],
        'm_node': ['C07'],
        'm_range': ['C08'],
        'm_copy': ['C09'],
        'm_duration': ['C10'],
        'm_pitch': ['C11', 'C12', 'C13'],
        'm_transpose': ['C14'],
        'm_relative': ['C15'],
        'm_rhythm': ['C16'],
        'm_time': ['C17'],
        'm_levels': ['C18'],
        'm_lookup': ['C19'],
        'm_indent': ['C20'],
        'm_numbering': ['C21'],
        'm_attrs': ['C22'],
        'm_spanner': ['C23'],
        'm_live': ['C24'],
        'm_ask': ['C25'],
        'm_load': ['C26'],
        'm_series': ['C27'],
        'm_embedded': ['C28'],
        }.items():
    for _p in _ps:
        MODULES[_p] = _m


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == prop and d.get('status') == 'known':
                        out.append(d)
    return out


def _init():
    """Prepare a worker: no output (the code under test prints), and a memory limit."""
    import resource
    sys.stdout = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _task(args):
    from . import core
    return core.run_task(*args)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first violation, do not minimize it')
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    import tempfile
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', os.path.join(tempfile.gettempdir(), 'vf-hypothesis'))
    from . import env, core                                 # noqa: F401
    importlib.import_module('vf.' + MODULES[prop])

    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        s = core.find(d['property'], d['sub'])
        try:
            core.guarded(s.check, core.load_case(d['case']), core.Ctx())
        except Exception as e:
            print(core.describe(e))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replayed: no violation")
        return 0

    # findings that are recorded instead of repaired
    for k in known_findings(prop):
        s = core.find(prop, k['sub'])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                core.guarded(s.check, core.load_case(k['case']), core.Ctx())
        except Exception:
            print("KNOWN-FINDING: property=%s %s" % (prop, k['what']))

    limit = 700 if tier == 'quick' else 6 * 3600
    deadline = t0 + limit
    tasks = []
    for s in core.REG[prop]:
        if a.only and s.name not in a.only.split(','):
            continue
        n = s.shards if tier == 'quick' else max(8, s.shards)
        for shard in range(n):
            tasks.append((prop, s.name, shard, n, seed, tier, deadline, 0 if a.first else 40))
    order = {(t[1], t[2]): i for i, t in enumerate(tasks)}
    results = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(a.jobs, len(tasks)), _init) as pool:
        for r in pool.imap_unordered(_task, tasks, chunksize=1):
            results.append(r)
            if a.first and r['failure']:
                pool.terminate()
                break
    results.sort(key=lambda r: order[r['sub'], r['shard']])

    errors = [r for r in results if r['error']]
    failures = [r for r in results if r['failure']]
    labels = collections.Counter()
    per = collections.OrderedDict()
    distinct = 0
    samples = []
    for s in core.REG[prop]:
        rs = [r for r in results if r['sub'] == s.name]
        if not rs:
            continue
        hs = set()
        for r in rs:
            hs.update(r['nontrivial'])
            for k, v in r['labels'].items():
                labels["%s: %s" % (s.name, k)] += v
        distinct += len(hs)
        per[s.name] = dict(evaluations=sum(r['evaluations'] for r in rs), distinct_nontrivial=len(hs),
                           wall_s=round(sum(r['wall'] for r in rs), 2),
                           exhaustive=isinstance(s.strategy, list))
        for r in rs[:1]:
            samples += ["%s: %s" % (s.name, t) for t in r['samples'][:2]]
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['evaluations'] for r in results),
            distinct_nontrivial=distinct,
            rule=core.RULES.get(prop, ''),
            samples=samples or ['(none)'],
            subchecks=per,
            labels=dict(sorted(labels.items())),
            truncated_shards=sum(1 for r in results if r['truncated'])),
        wall_s=round(wall, 2), violations=len(failures))
    if not a.only:
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write('\n')
    if a.v:
        for k, v in per.items():
            print(k, v)
        for k, v in sorted(labels.items()):
            print('   ', k, v)
    for r in errors:
        print("HARNESS ERROR in %s shard %s\n%s" % (r['sub'], r['shard'], r['error']), file=sys.stderr)
    if failures:
        seen = set()
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        for r in failures:
            if r['sub'] in seen:
                continue
            seen.add(r['sub'])
            best = min((x['failure'] for x in failures if x['sub'] == r['sub']), key=lambda f: len(f['case']))
            path = os.path.join(OUT, 'replays', '%s-%s.json' % (prop, r['sub']))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, sub=r['sub'], seed=seed, tier=tier,
                               case=best['case'], message=best['message']), f, indent=1, ensure_ascii=False)
                f.write('\n')
            print("--- %s/%s\ncase: %s\n%s" % (prop, r['sub'], best['case'][:2000], best['message'][:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %d sub-checks, %.1f s"
          % (prop, evidence['coverage']['evaluations'], distinct, len(per), wall))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
