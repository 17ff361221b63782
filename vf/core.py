"""Registry of sub-checks and the worker that drives one of them with Hypothesis.

A *sub-check* is a strategy producing plain data (strings, numbers, tuples, lists, Fractions: anything
whose repr can be evaluated again) and a function check(case, ctx) that raises when the property is
broken for that case.  Every random choice is made inside the strategy, so a failing case can be stored
and replayed without Hypothesis.
"""
import collections
import hashlib
import io
import signal
import time
import traceback
from fractions import Fraction

REG = collections.OrderedDict()       # property -> [Sub]
RULES = {}                            # property -> text


class Violation(Exception):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(actual, wanted, what):
    if actual != wanted:
        raise Violation("%s: got %r, expected %r" % (what, actual, wanted))


class Ctx:
    """Collects the classification of one run of a sub-check."""
    def __init__(self):
        self.labels = collections.Counter()
        self.interesting = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, cond=True):
        if cond:
            self.interesting = True


class Sub:
    def __init__(self, prop, name, strategy, check, quick, thorough, shards):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.shards = quick, thorough, shards


def rule(prop, text):
    RULES[prop] = text


def sub(prop, name, strategy, quick, thorough=None, shards=4):
    """Register a sub-check; quick/thorough are the total numbers of generated cases."""
    def deco(fn):
        subs = REG.setdefault(prop, [])
        assert name not in [s.name for s in subs], name
        subs.append(Sub(prop, name, strategy, fn, quick, thorough or quick * 12, shards))
        return fn
    return deco


def enumerated(prop, name, cases, shards=4):
    """Register a sub-check that runs over a fixed finite list of cases, completely, in both tiers."""
    def deco(fn):
        subs = REG.setdefault(prop, [])
        subs.append(Sub(prop, name, list(cases), fn, 0, 0, shards))
        return fn
    return deco


def find(prop, name):
    for s in REG[prop]:
        if s.name == name:
            return s
    raise KeyError((prop, name))


def load_case(text):
    return eval(text, {'__builtins__': {}, 'Fraction': Fraction, 'inf': float('inf'), 'nan': float('nan'),
                       'frozenset': frozenset, 'set': set})


class _StopSearch(BaseException):
    pass


CASE_CPU_S = 45         # a case that needs more processor time than this does not terminate, for our purposes


def _on_timer(signum, frame):
    raise Violation("no result after %d s of processor time (does it terminate?)" % CASE_CPU_S)


def guarded(check, case, ctx):
    """Run a check with a limit on the processor time."""
    signal.signal(signal.SIGPROF, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        check(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    f = io.StringIO()
    tb = traceback.extract_tb(exc.__traceback__)
    f.write("%s: %s" % (type(exc).__name__, exc))
    for fr in tb[-6:]:
        f.write("\n    at %s:%s in %s: %s" % (fr.filename, fr.lineno, fr.name, fr.line))
    return f.getvalue()


def run_task(prop, name, shard, nshards, seed, tier, deadline, shrink_s=40):
    """Run one shard of one sub-check. Returns a plain dict."""
    s = find(prop, name)
    res = dict(sub=name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[],
               failure=None, error=None, truncated=False, wall=0.0)
    t0 = time.time()
    labels = collections.Counter()
    hashes = set()
    state = dict(best=None, first=None)

    def run_case(case):
        if time.time() > deadline and state['first'] is None:
            res['truncated'] = True
            return
        ctx = Ctx()
        try:
            guarded(s.check, case, ctx)
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            text = repr(case)
            now = time.time()
            if state['first'] is None:
                state['first'] = now
            if state['best'] is None or len(text) <= len(state['best'][0]):
                state['best'] = (text, describe(e))
            if now - state['first'] > shrink_s:
                raise _StopSearch()
            raise
        if state['first'] is not None:
            return                  # shrinking: do not count
        res['evaluations'] += 1
        labels.update(ctx.labels)
        if ctx.interesting:
            text = repr(case)
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in hashes:
                hashes.add(h)
                if len(res['samples']) < 3 and (len(hashes) % 7 == 1):
                    res['samples'].append(text[:600])

    try:
        if isinstance(s.strategy, list):
            for case in s.strategy[shard::nshards]:
                try:
                    run_case(case)
                except Exception:
                    break
        else:
            _hypothesis(s, run_case, shard, nshards, seed, tier)
    except _StopSearch:
        pass
    except BaseException as e:
        if state['best'] is None:
            res['error'] = ''.join(traceback.format_exception(e))
    if state['best']:
        res['failure'] = dict(case=state['best'][0], message=state['best'][1])
    res['labels'] = dict(labels)
    res['nontrivial'] = sorted(hashes)
    res['wall'] = time.time() - t0
    return res


def _hypothesis(s, run_case, shard, nshards, seed, tier):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    # no "mutations" (copying a part of a case to another part): these give mostly duplicates here
    ConjectureRunner.generate_mutations_from = lambda self, data: None
    n = s.quick if tier == 'quick' else s.thorough
    n = max(1, n // nshards)
    strategy = s.strategy() if callable(s.strategy) else s.strategy
    key = "%s/%s/%s/%s" % (seed, s.prop, s.name, shard)
    hseed = int.from_bytes(hashlib.blake2b(key.encode(), digest_size=8).digest(), 'big')

    @hypothesis.seed(hseed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
              report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet)
    @given(strategy)
    def test(case):
        run_case(case)

    test()
