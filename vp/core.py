"""Search driver: runs a property's generated-input tests, shrinks, reports."""
import argparse
import hashlib
import importlib
import io
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHRINK_BUDGET = 40.0
CASE_TIMEOUT = 150


class Violation(AssertionError):
    """The code under test broke the property."""
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    """The check itself is broken; never reported as a violation."""


class Hang(Exception):
    pass


def require(cond, msg, *args, sig=None):
    if not cond:
        raise Violation((msg % args) if args else msg, sig=sig)


class T(object):
    """One sub-check: a strategy of JSON-able cases and an oracle.

    func(case) returns a falsy value for a trivial case, a truthy one otherwise
    (a string is counted as a label) and raises on a violation.
    """
    def __init__(self, name, strategy, func, quick, thorough, rule=''):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


def jdump(x):
    import numpy as np

    def default(o):
        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
        return repr(o)
    return json.dumps(x, default=default, sort_keys=True)


def _alarm(signum, frame):
    raise Hang('no answer within %d s' % CASE_TIMEOUT)


def run_case(test, case):
    """Run one case, isolated from global random state and the file system."""
    import numpy as np
    import random
    import warnings
    text = jdump(case)
    s = zlib.crc32(text.encode())
    np.random.seed(s)
    random.seed(s)
    cwd = os.getcwd()
    d = tempfile.mkdtemp(dir=os.environ['TMPDIR'])
    os.chdir(d)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                return test.func(json.loads(text))
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def last_case_file(test):
    return os.path.join(os.environ['VP_SCRATCH'], 'last-%s.json' % test.name)


def run_test(test, seed, n, known):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    st = dict(evals=0, nontrivial=set(), labels={}, samples=[], fail=None, t0=None, known={})

    def body(case):
        if st['fail'] is not None and time.time() - st['t0'] > SHRINK_BUDGET:
            if jdump(case) != st['fail']['key']:
                return
        key = jdump(case)
        st['evals'] += 1
        with open(last_case_file(test), 'w') as f:
            f.write(key)
        try:
            r = run_case(test, case)
        except (HarnessError, MemoryError):
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            sig = getattr(e, 'sig', None)
            if sig is not None and sig in known:
                st['known'][sig] = known[sig]
                # everything else the case compares was compared before the finding
                st['nontrivial'].add(hashlib.sha1(key.encode()).digest())
                st['labels']['known:' + sig] = st['labels'].get('known:' + sig, 0) + 1
                return
            if st['t0'] is None:
                st['t0'] = time.time()
            st['fail'] = dict(key=key, case=case, error=''.join(
                traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                message='%s: %s' % (type(e).__name__, str(e)[:500]))
            raise
        if isinstance(r, str) and r.startswith('trivial'):
            # tallied, but not counted as non-trivial
            st['labels'][r] = st['labels'].get(r, 0) + 1
        elif r:
            st['nontrivial'].add(hashlib.sha1(key.encode()).digest())
            lab = r if isinstance(r, str) else 'nontrivial'
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if len(st['samples']) < 3 and st['labels'][lab] == 1:
                st['samples'].append(key[:600])

    runner = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                      derandomize=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.explicit, Phase.generate, Phase.shrink])(
        hypothesis.seed(seed)(given(case=test.strategy)(body)))
    harness = None
    try:
        runner()
    except HarnessError:
        harness = traceback.format_exc()
    except BaseException:
        if st['fail'] is None:
            harness = traceback.format_exc()
    return dict(name=test.name, evals=st['evals'], nontrivial=len(st['nontrivial']),
                labels=st['labels'], samples=st['samples'], fail=st['fail'],
                known=st['known'], harness=harness)


def _worker(q, test, seed, n, known):
    buf_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VP_VERBOSE'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    logging.disable(logging.CRITICAL)
    t = time.time()
    try:
        r = run_test(test, seed, n, known)
    except BaseException:
        r = dict(name=test.name, harness=traceback.format_exc(), evals=0, nontrivial=0,
                 labels={}, samples=[], fail=None, known={})
    r['wall'] = time.time() - t
    q.put(r)


# The quick tier runs this many times the number of cases stated with each test (fast checks can afford more).
QUICK = dict.fromkeys('C03 C04 C06 C10 C11 C12 C13 C14 C17 C18 C19 C20 C21 C25 C26 C27 C29 C30 C39'.split(), 3)
QUICK.update(dict.fromkeys('C01 C02 C05 C07 C08 C09 C15 C16 C22 C23 C24 C28 C37 C38'.split(), 2))


def run_all(tests, seed, tier, scale, known):
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    pending = list(tests)
    running = {}
    results = {}
    nproc = min(8, os.cpu_count() or 1)
    while pending or running:
        while pending and len(running) < nproc:
            t = pending.pop(0)
            n = max(1, int((t.quick if tier == 'quick' else t.thorough) * scale))
            s = zlib.crc32(('%s/%d' % (t.name, seed)).encode())
            p = ctx.Process(target=_worker, args=(q, t, s, n, known))
            p.start()
            running[t.name] = p
        try:
            r = q.get(timeout=1.0)
            results[r['name']] = r
            running.pop(r['name']).join()
        except Exception:
            for name, p in list(running.items()):
                if not p.is_alive():
                    # give a finished worker's report time to arrive
                    try:
                        r = q.get(timeout=2.0)
                        results[r['name']] = r
                        running.pop(r['name']).join()
                    except Exception:
                        if name in running:
                            running.pop(name)
                            results[name] = dict(
                                name=name, evals=0, nontrivial=0, labels={}, samples=[],
                                known={}, wall=0.0, harness=None,
                                crash=p.exitcode, fail=None)
                    break
    return [results[t.name] for t in tests]


def known_findings(prop):
    fname = os.path.join(VERIF, 'known_findings.json')
    out = {}
    if os.path.isfile(fname):
        for f in json.load(open(fname)):
            if f.get('property') == prop and f.get('status') == 'known':
                out[f['sig']] = f['what']
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    args = ap.parse_args()
    t0 = time.time()
    logging.disable(logging.CRITICAL)
    tier = os.environ.get('VP_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        import redmapper
        want = os.path.join(os.environ['VP_SCRATCH'], 'src', 'redmapper')
        if os.path.dirname(redmapper.__file__) != want:
            raise HarnessError('imported %s' % redmapper.__file__)
        mod = importlib.import_module('props.%s' % args.prop.lower())
    except BaseException:
        traceback.print_exc()
        print('check error: could not load')
        return 3
    tests = mod.TESTS
    known = known_findings(args.prop)

    if args.replay:
        rec = json.load(open(args.replay))
        test = [t for t in tests if t.name == rec['test']][0]
        try:
            run_case(test, rec['case'])
        except BaseException:
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
            return 1
        print('replay passes')
        return 0

    if args.only:
        tests = [t for t in tests if t.name in args.only.split(',')]
    res = run_all(tests, seed, tier, args.scale*(QUICK.get(args.prop, 1) if tier == 'quick' else 1), known)
    rc = 0
    harness_bad = False
    nviol = 0
    for t, r in zip(tests, res):
        if r.get('crash') is not None:
            # the interpreter died inside the code under test (signal): rerun cases is
            # not possible in process; report as violation when killed by a signal.
            if r['crash'] in (-11, -6, -8, -7, -4):
                try:
                    case = json.load(open(last_case_file(t)))
                except Exception:
                    case = None
                r['fail'] = dict(key=jdump(case), case=case, message='process died with signal %d' %
                                 -r['crash'], error='')
            else:
                r['harness'] = 'worker for %s ended with code %r' % (t.name, r['crash'])
        if r['fail'] is not None:
            nviol += 1
            d = os.path.join(VERIF, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha1((t.name + r['fail']['key']).encode()).hexdigest()[:10]
            path = os.path.join(d, '%s-%s-%s.json' % (args.prop, t.name, h))
            with open(path, 'w') as f:
                f.write(jdump(dict(property=args.prop, test=t.name, case=r['fail']['case'],
                                   message=r['fail']['message'], error=r['fail']['error'],
                                   seed=seed, tier=tier)))
            print('%s/%s: %s' % (args.prop, t.name, r['fail']['message']))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            rc = 1
        if r['harness']:
            harness_bad = True
            print('check error in %s/%s:\n%s' % (args.prop, t.name, r['harness']))
    seen = {}
    for r in res:
        seen.update(r.get('known', {}))
    for sig, what in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (args.prop, what))
    rule = getattr(mod, 'RULE', '') + ' ' + ' | '.join('%s: %s' % (t.name, t.rule) for t in tests)
    ev = dict(property=args.prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=sum(r['evals'] for r in res),
                  distinct_nontrivial=sum(r['nontrivial'] for r in res),
                  rule=rule.strip(),
                  samples=[dict(test=r['name'], case=s) for r in res for s in r['samples']],
                  per_test={r['name']: dict(evaluations=r['evals'], nontrivial=r['nontrivial'],
                                            labels=r['labels'], wall_s=round(r.get('wall', 0), 2))
                            for r in res}),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not args.only:
        with open(os.path.join(VERIF, 'evidence', '%s.json' % args.prop), 'w') as f:
            json.dump(json.loads(jdump(ev)), f, indent=1)
    for r in res:
        print('  %-28s evals=%-6d nontrivial=%-6d %6.1fs %s' % (
            r['name'], r['evals'], r['nontrivial'], r.get('wall', 0), r['labels']))
    if rc == 0 and harness_bad:
        return 3
    if rc == 0:
        bad = [r['name'] for r in res if r['evals'] and r['nontrivial'] == 0]
        if bad:
            print('check error: no non-trivial case in %s' % bad)
            return 3
    print('%s %s: %s' % (args.prop, tier, 'held' if rc == 0 else 'VIOLATED'))
    return rc


if __name__ == '__main__':
    # run under the canonical module name, so that classes are not duplicated
    from vp import core
    sys.exit(core.main())
