#!/usr/bin/env python3
"""Entry point of every check.

    python3 check.py <property-id> [--tier quick|thorough] [--replay FILE]

Rebuilds erykoff/redmapper from /repo's current working tree into a scratch
directory (nothing is written in /repo), then runs the property's generated-input
search in a child interpreter that imports that scratch build.
Exit 0: held. 1: VIOLATION line printed. Anything else: error of the check.
"""
import argparse
import glob
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


def hypothesis_path(dest):
    """Expose only hypothesis and its dependency to the redmapper interpreter."""
    os.makedirs(dest)
    names = ['hypothesis', 'sortedcontainers', '_hypothesis_globals.py',
             '_hypothesis_ftz_detector.py']
    if all(os.path.exists(os.path.join(VT, n)) for n in names[:2]):
        for n in names:
            if os.path.exists(os.path.join(VT, n)):
                os.symlink(os.path.join(VT, n), os.path.join(dest, n))
        return
    import zipfile
    for pat in ('hypothesis-*-cp312-*.whl', 'sortedcontainers-*.whl'):
        for w in glob.glob(os.path.join(WHEELS, pat)):
            zipfile.ZipFile(w).extractall(dest)


def build(scratch):
    src = os.path.join(scratch, 'src')
    os.makedirs(src)
    shutil.copytree(os.path.join(REPO, 'redmapper'), os.path.join(src, 'redmapper'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '_version.py'))
    for f in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md', 'MANIFEST.in', 'LICENSE'):
        if os.path.isfile(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), src)
    shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(src, 'bin'))
    env = base_env(scratch)
    env['PYTHONPATH'] = ''
    p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j2',
                        '--build-temp', os.path.join(scratch, 'bt')],
                       cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors='replace')[-4000:])
        raise SystemExit('check error: build of /repo failed')
    ver = os.path.join(src, 'redmapper', '_version.py')
    if not os.path.isfile(ver):
        with open(ver, 'w') as f:
            f.write("__version__ = version = '1.0.0'\n")
    return src


def base_env(scratch):
    env = dict(os.environ)
    env.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               SETUPTOOLS_SCM_PRETEND_VERSION='1.0.0', PIP_NO_INDEX='1',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
               ASTROPY_CACHE_DIR=os.path.join(scratch, 'astropy'),
               XDG_CACHE_HOME=os.path.join(scratch, 'cache'),
               HOME=os.path.join(scratch, 'home'), TMPDIR=os.path.join(scratch, 'tmp'))
    for d in ('mpl', 'astropy', 'cache', 'home', 'tmp', 'work'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--only', default=None, help='only this sub-check (development)')
    ap.add_argument('--scale', type=float, default=1.0, help='multiply case counts (development)')
    args = ap.parse_args()
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        raise SystemExit('check error: unknown tier %s' % tier)

    scratch = tempfile.mkdtemp(prefix='vp-redmapper-', dir='/tmp')
    child = None

    def cleanup(*a):
        if child is not None and child.poll() is None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        if a:
            os._exit(4)
    signal.signal(signal.SIGTERM, cleanup)
    signal.signal(signal.SIGINT, cleanup)
    rc = 3
    try:
        src = build(scratch)
        deps = os.path.join(scratch, 'deps')
        hypothesis_path(deps)
        env = base_env(scratch)
        env['PYTHONPATH'] = os.pathsep.join([src, HERE, deps])
        env['VP_SCRATCH'] = scratch
        env['VP_REPO'] = REPO
        env['VP_TIER'] = tier
        cmd = [PY, '-W', 'ignore', '-m', 'vp.core', args.prop, '--scale', str(args.scale)]
        if args.replay:
            cmd += ['--replay', os.path.abspath(args.replay)]
        if args.only:
            cmd += ['--only', args.only]
        child = subprocess.Popen(cmd, cwd=os.path.join(scratch, 'work'), env=env,
                                 start_new_session=True)
        try:
            rc = child.wait(timeout=860 if tier == 'quick' else None)
        except subprocess.TimeoutExpired:
            sys.stderr.write('check error: timed out\n')
            rc = 3
        if rc not in (0, 1):
            rc = 3
    finally:
        cleanup()
    return rc


if __name__ == '__main__':
    sys.exit(main())
