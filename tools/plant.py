#!/usr/bin/env python3
"""Confirm planted bugs: build, stable tests, demo with/without, checks.

    python3 tools/plant.py ID [ID...] [--no-tests]
Applies each patch to /repo, runs, and undoes it straight afterwards.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def main():
    tests = '--no-tests' not in sys.argv
    for i in [a for a in sys.argv[1:] if not a.startswith('--')]:
        d = os.path.join(V, 'seeded', i)
        m = json.load(open(d + '/meta.json'))
        assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
        sh('bash /opt/vp/build.sh')
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        res = dict(clean=r0.returncode)
        try:
            a = sh('git -C /repo apply %s/patch.diff' % d)
            assert a.returncode == 0, a.stdout
            b = sh('bash /opt/vp/build.sh')
            res['build'] = b.returncode
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            res['patched'] = r1.returncode
            if tests:
                sh('bash /opt/vp/test.sh /tmp/o_plant.json')
                base = json.load(open('/opt/vp/BASELINE.json'))['stable']
                now = set(json.load(open('/tmp/o_plant.json')).get('passed', []))
                res['lost'] = [t for t in base if t not in now]
            t = time.time()
            c = sh('python3 check.py %s' % m['property'], cwd=V)
            res['check'] = c.returncode
            res['s'] = round(time.time() - t)
            line = [x for x in c.stdout.split('\n') if x.startswith(m['property'] + '/')][:2]
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        ok = res['clean'] == 0 and res['build'] == 0 and res['patched'] != 0 and not res.get('lost')
        print(i, 'VALID' if ok else 'INVALID', 'CAUGHT' if res['check'] == 1 else 'MISSED', res, [x[:150] for x in line], flush=True)
        if not ok:
            print(r0.stdout[-800:], r1.stdout[-800:])


main()
