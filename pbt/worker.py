"""Run one shard of one subcheck in this process and write what happened as JSON.

argv: prop sub seed examples out_file          (generate)
      prop sub --replay case_file out_file     (re-run recorded cases)
"""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from pbt import env
env.setup()

from pbt import core                                            # noqa: E402

CPU_LIMIT = float(os.environ.get('VERIF_CASE_CPU', '40'))
WALL_LIMIT = float(os.environ.get('VERIF_SHARD_WALL', '600'))
SHRINK_LIMIT = 45.0


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_body(sub, case):
    """None when the property held, else a description of the failure."""
    # A copy per run: nothing a body does to its case can reach the next run.
    case = json.loads(json.dumps(case))
    signal.signal(signal.SIGPROF, _alarm)
    # a repeated alarm: a bare "except:" in the code under test may swallow one
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT, 1.0)
    # the stack a program has; Hypothesis allows itself more
    limit, frame, depth = sys.getrecursionlimit(), sys._getframe(), 0
    while frame:
        frame, depth = frame.f_back, depth + 1
    sys.setrecursionlimit(depth + 990)
    try:
        try:
            sub.body(case)
        finally:
            sys.setrecursionlimit(limit)
            signal.setitimer(signal.ITIMER_PROF, 0)
    except CaseTimeout:
        return {'kind': 'timeout',
                'error': 'no answer within %g s of CPU time' % CPU_LIMIT}
    except core.Violation as e:
        return {'kind': 'violation', 'error': str(e)[:4000]}
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        return {'kind': 'exception',
                'error': '%s: %s' % (type(e).__name__, str(e)[:2000]),
                'traceback': tb[-12:]}
    return None


class Found(Exception):
    pass


class Stop(BaseException):
    pass


def generate(sub, seed, n):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {'evaluations': 0, 'hashes': set(), 'classes': {}, 'samples': [],
             'failure': None, 'first': None, 'history': [], 't_fail': None,
             'complete': True, 'failures': 0}
    t0 = time.monotonic()

    def test(case):
        if state['t_fail'] is None:
            if time.monotonic() - t0 > WALL_LIMIT:
                state['complete'] = False
                raise Stop()
            state['evaluations'] += 1
            if sub.nontrivial(case):
                h = digest(case)
                if h not in state['hashes']:
                    state['hashes'].add(h)
                    if len(state['hashes']) in (1, 10, 40, 160):
                        state['samples'].append(case)
            for c in sub.classify(case):
                state['classes'][c] = state['classes'].get(c, 0) + 1
            state['history'].append(case)
        elif (time.monotonic() - state['t_fail'] > SHRINK_LIMIT and
              case != state['failure']['case']):
            raise Stop()                            # shrunk long enough
        bad = run_body(sub, case)
        if bad:
            bad['case'] = case
            state['failure'] = bad
            if state['t_fail'] is None:
                state['t_fail'] = time.monotonic()
                state['first'] = bad
            if bad['kind'] == 'timeout':
                raise Stop()
            raise Found(bad['error'])

    runner = hypothesis.seed(seed)(settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink))(given(sub.strategy)(test)))
    try:
        runner()
    except (Found, Stop):
        pass
    except BaseException:
        # e.g. hypothesis.errors.Flaky: the failing case did not fail again,
        # because what failed depends on the cases before it.
        if state['failure'] is None:
            raise
        state['failure'] = state['first']
    return state


def main(argv):
    prop, name = argv[0], argv[1]
    out_file = argv[-1]
    mod = importlib.import_module('pbt.props.' + prop.lower())
    sub = core.REGISTRY[prop][name]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    scratch = tempfile.mkdtemp(prefix='fcapbt_')
    os.chdir(scratch)
    devnull = open(os.devnull, 'w')
    real_out = sys.stdout
    sys.stdout = devnull                           # the library prints
    t0 = time.monotonic()
    try:
        if argv[2] == '--replay':
            with open(argv[3]) as f:
                rep = json.load(f)
            bad = None
            cases = rep.get('before', []) + [rep['case']]
            for case in cases:
                bad = run_body(sub, case)
                if bad:
                    bad['case'] = case
                    break
            result = {'failure': bad}
        else:
            st = generate(sub, int(argv[2]), int(argv[3]))
            result = {'evaluations': st['evaluations'],
                      'hashes': sorted(st['hashes']),
                      'classes': st['classes'], 'samples': st['samples'],
                      'complete': st['complete'], 'failure': st['failure']}
            if st['failure']:
                # does the case fail on its own, in a process of its own?
                result['history'] = st['history'][:-1]
                result['first'] = st['first']
    finally:
        sys.stdout = real_out
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    result['wall_s'] = time.monotonic() - t0
    with open(out_file, 'w') as f:
        json.dump(result, f)


if __name__ == '__main__':
    main(sys.argv[1:])
