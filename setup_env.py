#!/usr/bin/env python3
"""Checks that what the checks need is installed; leaves nothing behind."""
import os
import shutil
import subprocess
import sys
import tempfile
import check

d = tempfile.mkdtemp(prefix='vp-redmapper-', dir='/tmp')
try:
    deps = os.path.join(d, 'deps')
    check.hypothesis_path(deps)
    env = check.base_env(d)
    env['PYTHONPATH'] = deps
    rc = subprocess.call([check.PY, '-c', 'import hypothesis, numpy, scipy, fitsio, esutil, healsparse, hpgeom'], env=env)
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(rc)
