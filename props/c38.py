"""C38: the command-line scripts hand over their arguments, batch jobs run every pixel of the survey once, and predicted memory is that of the fullest pixel."""
import contextlib
import inspect
import io
import os
import re
import runpy
import shlex
import shutil
import subprocess
import sys
import types
import numpy as np
import fitsio
import hpgeom as hpg
import yaml
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
import redmapper
import redmapper.depthmap
import redmapper.mask
from redmapper.configuration import Configuration
from redmapper.mask import Mask
from redmapper.pipeline import (RunZredPixelTask, RunRedmapperPixelTask, RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask, RedmapperConsolidateTask, RuncatConsolidateTask, MemPredict)
from redmapper.calibration import RedmapperCalibrator
from redmapper.redmagic import RedmagicCalibrator, RunRedmagicTask
from redmapper.background import ZredBackgroundGenerator
from redmapper.randoms import GenerateRandoms, RandomWeigher

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(redmapper.__file__))), 'bin')
ASSUMPTIONS = ['scripts run in the process of the check with the tasks replaced by recorders; job files are executed by bash (or as Python with a stand-in for parsl) with recorders in place of the pixel scripts',
               'the documented lsf and parsl batch systems; file names without spaces']
PIX = {0: 'redmapper_run_redmapper_pixel.py', 1: 'redmapper_run_zred_pixel.py', 2: 'redmapper_runcat_pixel.py', 3: 'redmapper_run_zmask_pixel.py', 4: 'redmapper_run_zscan_pixel.py'}
JOB = {0: 'run', 1: 'zred', 2: 'runcat', 3: 'zmask', 4: 'zscan'}


def plain(v):
    if isinstance(v, Configuration):
        return 'configuration'
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    return v


class Recorder(object):
    """Replaces methods of classes (or functions of modules) by recorders of their bound arguments."""
    def __init__(self):
        self.calls, self.saved = [], []

    def put(self, owner, name, value):
        self.saved.append((owner, name, owner.__dict__.get(name)))
        setattr(owner, name, value)

    def method(self, cls, name, ret=None):
        real = getattr(cls, name)
        sig = inspect.signature(real)

        def f(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            d = {x: plain(v) for x, v in list(b.arguments.items())[1:]}
            if name == '__init__':
                this.made = d
            else:
                self.calls.append((cls.__name__, name, getattr(this, 'made', None), d))
            return None if name == '__init__' else ret
        self.put(cls, name, f)

    def function(self, mod, name):
        real = getattr(mod, name)
        sig = inspect.signature(real)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append((mod.__name__, name, None, {x: plain(v) for x, v in b.arguments.items()}))
        self.put(mod, name, f)

    def undo(self):
        for o, n, v in self.saved[::-1]:
            if v is None:
                delattr(o, n)
            else:
                setattr(o, n, v)
        self.saved = []


@contextlib.contextmanager
def environment(argv, home=None):
    old, oh, oc = sys.argv, os.environ.get('HOME'), os.getcwd()
    sys.argv = argv
    if home:
        os.environ['HOME'] = home
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            yield out
    finally:
        sys.argv = old
        os.chdir(oc)
        if home:
            os.environ['HOME'] = oh if oh is not None else '/'


def script(name, args, home=None):
    with environment([name] + [str(a) for a in args], home) as out:
        runpy.run_path(os.path.join(BIN, name), run_name='__main__')
    return out.getvalue()


def survey(case, **kw):
    """A galaxy table with the pixels of the case."""
    npix = hpg.nside_to_npixel(case['tnside'])
    pix = sorted({int(p) % npix for p in case['tpix']})
    if len(pix) < 2:
        pix = sorted({pix[0], (pix[0] + 1) % npix})
    rs = np.random.RandomState(case['seed'])
    cnt = rs.randint(1, 9, len(pix))
    pp = np.repeat(pix, cnt)
    g = np.zeros(pp.size, dtype=W.gal_dtype(4))
    ra, dec = hpg.pixel_to_angle(case['tnside'], pp, nest=False)
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = np.arange(g.size) + 1, ra, dec, 18, 0.01, 18, 0.01
    g = g[rs.permutation(g.size)]
    z = None
    if kw.pop('zreds', False):
        z = np.zeros(g.size, dtype=W.zred_dtype(4))
    r = W.write_galtable('gals', 'gals', g, case['tnside'], 4, ['g', 'r', 'i', 'z'], 'i', lim_ref=21.0, zreds=z, **kw)
    return np.array(pix), cnt, r, g, z


def coarse(nside, pix, tnside):
    """Run pixels that overlap the table pixels."""
    if nside <= tnside:
        ra, dec = hpg.pixel_to_angle(tnside, pix, nest=False)
        return sorted(set(hpg.angle_to_pixel(nside, ra, dec, nest=False).tolist()))
    f = (nside//tnside)**2
    nst = hpg.ring_to_nest(tnside, pix)
    return sorted(hpg.nest_to_ring(nside, (nst[:, None]*f + np.arange(f)[None, :]).ravel()).tolist())


# batch jobs

STUB = '''#!/bin/bash
echo "$(basename $0) $*" >> "$RECORD"
'''


def parsl_stub(commands):
    """Enough of parsl to run a job script."""
    class Any(object):
        def __init__(self, *a, **k):
            self.a, self.k = a, k

        def __call__(self, *a, **k):
            return self
    mods = {}
    for m in ('parsl', 'parsl.executors', 'parsl.providers', 'parsl.addresses', 'parsl.utils', 'parsl.launchers', 'parsl.config'):
        mods[m] = types.ModuleType(m)
    p = mods['parsl']
    p.load = lambda *a, **k: None
    p.config = mods['parsl.config']
    p.config.Config = Any
    for m, names in (('executors', ('WorkQueueExecutor', 'ThreadPoolExecutor')), ('providers', ('LocalProvider', 'SlurmProvider')), ('addresses', ('address_by_hostname',)), ('utils', ('get_all_checkpoints',)), ('launchers', ('SrunLauncher',))):
        for n in names:
            setattr(mods['parsl.' + m], n, Any)

    class Future(object):
        def result(self):
            return 0

    def bash_app(*a, **k):
        def deco(f):
            def g(*aa, **kk):
                commands.append(f(*aa, **kk))
                return Future()
            return g
        return deco(a[0]) if a and callable(a[0]) else deco
    p.bash_app = bash_app
    return mods


def run_jobs(case, jobfile):
    """Execute the job: [(script, arguments)] of what it runs."""
    os.makedirs('stubs', exist_ok=True)
    for n in list(PIX.values()) + ['shifter']:
        with open(os.path.join('stubs', n), 'w') as f:
            f.write(STUB)
        os.chmod(os.path.join('stubs', n), 0o755)
    text = open(jobfile).read()
    lines = []
    if case['batch'] == 'lsf':
        m = re.findall(r'#BSUB -J (\S+)\[1-(\d+)\]', text)
        require(len(m) == 1, 'no job array in the job file')
        n = int(m[0][1])
        rec = os.path.abspath('record')
        if os.path.exists(rec):
            os.remove(rec)
        sh = 'for i in $(seq 1 %d); do LSB_JOBINDEX=$i bash %s || exit 1; done' % (n, shlex.quote(jobfile))
        r = subprocess.run(['bash', '-c', sh], env=dict(os.environ, PATH=os.path.abspath('stubs') + ':/usr/bin:/bin', RECORD=rec), capture_output=True, text=True)
        require(r.returncode == 0, 'job fails: %s', r.stderr[-200:])
        lines = [shlex.split(x) for x in open(rec).read().splitlines()]
        require(len(lines) == n, '%d elements of the job array, %d commands', n, len(lines))
        require(case['setup'] == '' or os.path.isfile('setup_done'), 'the environment setup is not run')
        w = re.findall(r'#BSUB -W (\d+)', text)
        require(case['wall'] is None or w == [str(case['wall'])], 'wall time %s', w)
    else:
        cmds = []
        mods = parsl_stub(cmds)
        old = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        try:
            exec(compile(text, jobfile, 'exec'), {'__name__': '__main__'})
        finally:
            for k, v in old.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v
        for c in cmds:
            a = shlex.split(c)
            if case['image']:
                require(a[0] == 'shifter' and '--image=' + case['image'] in a and a[-2] == '-c', 'command %s does not use the image', c)
                a = shlex.split(a[-1].split('&&')[-1])
            lines.append(a)
        if case['batch'] == 'slurm':
            require('nodes_per_block=%d' % (case['nodes'] or 2) in text, 'number of nodes')
    return lines


def t_batch(case):
    fine = max(1, (case['nside'] or 8)//case['tnside'])**2
    case = dict(case, tpix=case['tpix'][:max(2, 100//fine)])
    pix = survey(case)[0]
    os.makedirs('home')
    os.makedirs('cfg')
    maskgal = 'cfg/mg.fit' if case['mg'] else 'mg2.fit'
    d = W.min_config(4, galfile='gals/' + [f for f in os.listdir('gals') if 'master' in f][0], refmag='i', zrange=[0.1, 0.4], limmag_catalog=21.0, outbase=case['outbase'], printlogging=True, percolation_lmask=0.1, maskgalfile=maskgal)
    if case['sub']:
        d.update(hpix=[0], nside=1, area=100.0)
    with open('cfg/c.yaml', 'w') as f:
        yaml.safe_dump(d, f)
    mode = dict(batch='lsf' if case['batch'] == 'lsf' else 'parsl', setup=case['setup'], requirements='linux64', image=case['image'], constraint='knl', qos='regular', parsl_provider='slurm' if case['batch'] == 'slurm' else 'local')
    if case['batch'] == 'lsf' and case['bare']:
        mode = dict(batch='lsf', setup=case['setup'])
    cfg = {'mine': mode}
    if case['two']:
        cfg['other'] = dict(batch='lsf' if case['batch'] != 'lsf' else 'parsl', setup='exit 1', requirements='x')
    with open('home/.redmapper_batch.yml', 'w') as f:
        yaml.safe_dump(cfg, f)
    args = ['-c', 'cfg/c.yaml', '-r', case['mode']]
    if case['two'] or case['name']:
        args += ['-b', 'mine']
    if case['nside'] is not None:
        args += ['-n', case['nside']]
    if case['wall'] is not None:
        args += ['-w', case['wall']]
    if case['nodes'] is not None:
        args += ['-N', case['nodes']]
    ext = 'job' if case['batch'] == 'lsf' else 'py'
    name = '%s_%s' % (case['outbase'], JOB[case['mode']])
    earlier = {}
    if case['earlier']:
        os.makedirs('jobs')
        for i in range(case['earlier']):
            fn = 'jobs/%s_%d.%s' % (name, i + 1, ext)
            earlier[fn] = 'job %d' % i
            with open(fn, 'w') as f:
                f.write(earlier[fn])
    if case['mg']:
        fitsio.write(maskgal, np.zeros(1, dtype=[('x', 'f4')]))
    rec = Recorder()
    made = []

    def gen(this, fn, *a, **k):
        made.append(fn)
        fitsio.write(fn, np.zeros(1, dtype=[('x', 'f4')]), clobber=True)
    rec.put(Mask, 'gen_maskgals', gen)
    refused = False
    try:
        script('redmapper_batch.py', args, os.path.abspath('home'))
    except ValueError:
        refused = True
    finally:
        rec.undo()
    for fn, t in earlier.items():
        require(open(fn).read() == t, 'earlier job file %s was overwritten', fn)
    new = sorted(f for f in (os.listdir('jobs') if os.path.isdir('jobs') else []) if 'jobs/' + f not in earlier)
    if case['sub']:
        require(refused and not new, 'batch jobs made for a configuration that is limited to part of the sky')
        return 'refused'
    require(not refused, 'no batch job made')
    require(new == ['%s_%d.%s' % (name, case['earlier'] + 1, ext)], 'new job files are %s', new)
    need = case['mode'] != 1 and not case['mg']
    require([os.path.abspath(x) for x in made] == ([os.path.abspath(maskgal)] if need else []), 'mask galaxies made: %s', made)
    nside = case['nside'] or 8
    want = coarse(nside, pix, case['tnside'])
    got = []
    for a in run_jobs(case, os.path.abspath('jobs/' + new[0])):
        require(a[0] == PIX[case['mode']], 'the job runs %s', a[0])
        o = dict(zip(a[1::2], a[2::2]))
        require(set(o) == {'-c', '-p', '-n', '-d'} and o['-c'] == os.path.abspath('cfg/c.yaml') and o['-n'] == str(nside) and o['-d'] == os.path.abspath('cfg'), 'the job runs %s', a)
        got.append(int(o['-p']))
    require(sorted(got) == want, 'jobs run pixels %s, the survey has %s', sorted(got), want)
    return '%s-%s' % (case['batch'], 'finer' if nside > case['tnside'] else 'coarser' if len(want) < len(pix) else 'same')


# memory

def t_memory(case):
    extra = [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    pix, cnt, r, g, z = survey(case, zreds=True)
    gf, zf = r[0], r[1]
    if case['truth']:
        for f in sorted(os.listdir('gals')):
            m = re.match(r'gals_(\d{7})\.fit$', f)
            if m:
                t = fitsio.read('gals/' + f, ext=1)
                u = np.zeros(t.size, dtype=t.dtype.descr + extra)
                for n in t.dtype.names:
                    u[n] = t[n]
                fitsio.write('gals/' + f, u, clobber=True)
    if case['many'] > 1:
        # a table of a large survey (only the numbers of galaxies are read)
        with fitsio.FITS(gf, mode='rw') as fi:
            t = fi[1].read()
            nm = [n for n in t.dtype.names if n.lower() == 'ngals'][0]
            t[nm] *= case['many']
            fi[1].write(t)
        cnt = np.asarray(cnt, dtype='i8') * case['many']
    d = W.min_config(4, galfile=gf, zredfile=zf, refmag='i', zrange=[0.1, 0.4], limmag_catalog=21.0, outbase='t', printlogging=True, percolation_lmask=0.1)
    with open('c.yaml', 'w') as f:
        yaml.safe_dump(d, f)
    per = g.dtype.itemsize + (z.dtype.itemsize if case['zreds'] else 0)
    with contextlib.redirect_stdout(io.StringIO()):
        got = MemPredict('c.yaml').predict_memory(include_zreds=case['zreds'], border_factor=case['factor'])
    want = []
    ns = 2
    while True:
        ra, dec = hpg.pixel_to_angle(case['tnside'], pix, nest=False)
        cp = hpg.angle_to_pixel(ns, ra, dec, nest=False)
        n = [int(cnt[cp == p].sum()) for p in set(cp.tolist())]
        want.append((ns, len(n), max(n)*per*case['factor']/1e6))
        if ns >= case['tnside']:
            break
        ns *= 2
    require(got['nside'].tolist() == [w[0] for w in want] and got['npix'].tolist() == [w[1] for w in want], 'pixels %s, expected %s', got[['nside', 'npix']].tolist(), [w[:2] for w in want])
    require(np.allclose(got['max_memory_mb'], [w[2] for w in want], rtol=1e-5), 'memory %s, expected %s', got['max_memory_mb'], [w[2] for w in want])
    return 'shared' if want[0][1] < pix.size else 'trivial'


# scripts

def t_scripts(case):
    for i, s in enumerate(SCRIPTS):
        os.makedirs('s%d' % i)
        os.chdir('s%d' % i)
        one_script(dict(case, script=s))
        os.chdir('..')
    return 'all scripts'


def one_script(case):
    gf = survey(dict(case, tnside=4, tpix=[1, 2]))[2][0]
    with open('c.yaml', 'w') as f:
        yaml.safe_dump(W.min_config(4, galfile=gf, refmag='i', zrange=[0.1, 0.4], limmag_catalog=21.0, outbase='t', printlogging=True, percolation_lmask=0.1), f)
    rs = np.random.RandomState(case['seed'])
    rec = Recorder()
    s = case['script']
    long = case['long']
    o = lambda a, b: b if long else a
    try:
        if s in PIX.values():
            cls = {'redmapper_run_redmapper_pixel.py': RunRedmapperPixelTask, 'redmapper_run_zred_pixel.py': RunZredPixelTask, 'redmapper_runcat_pixel.py': RuncatPixelTask, 'redmapper_run_zmask_pixel.py': RunZmaskPixelTask,
                   'redmapper_run_zscan_pixel.py': RunZScanPixelTask}[s]
            rec.method(cls, '__init__')
            rec.method(cls, 'run')
            args = [o('-c', '--configfile'), 'some/c.yaml', o('-p', '--pixel'), case['pixel'], o('-n', '--nside'), case['nside']] + ([o('-d', '--path'), 'x/y'] if case['opt'] else [])
            script(s, args)
            want = [(cls.__name__, 'run', dict(configfile='some/c.yaml', pixel=case['pixel'], nside=case['nside'], path='x/y' if case['opt'] else './'), {})]
        elif s == 'redmapper_consolidate_run.py':
            rec.method(RedmapperConsolidateTask, '__init__')
            rec.method(RedmapperConsolidateTask, 'run')
            args = [o('-c', '--configfile'), 'some/c.yaml'] + ([o('-l', '--lambda_cuts')] + case['cuts'] if case['opt'] else []) + ([o('-v', '--vlim_lstars')] + case['vlims'] if case['opt2'] else [])
            script(s, args)
            want = [('RedmapperConsolidateTask', 'run', dict(configfile='some/c.yaml', lambda_cuts=case['cuts'] if case['opt'] else None, vlim_lstars=case['vlims'] if case['opt2'] else [], path=None), dict(do_plots=True, match_spec=True))]
        elif s == 'redmapper_consolidate_runcat.py':
            rec.method(RuncatConsolidateTask, '__init__')
            rec.method(RuncatConsolidateTask, 'run')
            script(s, [o('-c', '--configfile'), 'some/c.yaml'] + ([o('-r', '--randommode')] if case['opt'] else []))
            q = not case['opt']
            want = [('RuncatConsolidateTask', 'run', dict(configfile='some/c.yaml', path=None), dict(do_plots=q, match_spec=q, consolidate_members=q, cattype='runcat' if q else 'randoms_zmask'))]
        elif s in ('redmapper_calibrate.py', 'redmagic_calibrate.py'):
            cls = RedmapperCalibrator if s == 'redmapper_calibrate.py' else RedmagicCalibrator
            rec.method(cls, '__init__')
            rec.method(cls, 'run')
            script(s, [o('-c', '--configfile'), 'some/c.yaml'])
            require([c[:2] for c in rec.calls] == [(cls.__name__, 'run')] and list(rec.calls[0][2].values())[0] == 'some/c.yaml', 'script runs %s', rec.calls)
            return s
        elif s == 'redmagic_run.py':
            rec.method(RunRedmagicTask, '__init__')
            rec.method(RunRedmagicTask, 'run')
            script(s, [o('-c', '--configfile'), 'some/c.yaml'] + ([o('-C', '--clobber')] if case['opt'] else []) + ([o('-n', '--nrandoms'), case['n']] if case['opt2'] else []))
            want = [('RunRedmagicTask', 'run', dict(configfile='some/c.yaml', path=None), dict(modes=None, clobber=case['opt'], do_plots=True, n_randoms=case['n'] if case['opt2'] else None, rng=None))]
        elif s == 'redmapper_make_zred_bkg.py':
            rec.method(ZredBackgroundGenerator, '__init__')
            rec.method(ZredBackgroundGenerator, 'run')
            script(s, [o('-c', '--configfile'), 'c.yaml'])
            require([c[:2] for c in rec.calls] == [('ZredBackgroundGenerator', 'run')] and list(rec.calls[0][2].values())[0] == 'configuration', 'script runs %s', rec.calls)
            return s
        elif s == 'redmapper_generate_randoms.py':
            rec.method(GenerateRandoms, '__init__')
            rec.method(GenerateRandoms, 'generate_randoms')
            script(s, [o('-c', '--configfile'), 'c.yaml', o('-n', '--nrands'), case['n']])
            require([c[:2] for c in rec.calls] == [('GenerateRandoms', 'generate_randoms')] and list(rec.calls[0][3].values())[0] == case['n'], 'script runs %s', rec.calls)
            return s
        elif s == 'redmapper_weight_randoms.py':
            rec.method(RandomWeigher, '__init__')
            rec.method(RandomWeigher, 'weight_randoms', ret=('wfile', 'afile'))
            out = script(s, [o('-c', '--configfile'), 'c.yaml', o('-r', '--randfile'), 'r.fit', o('-l', '--lambda_cuts')] + case['cuts'])
            require([(c[1], c[2].get('randcatfile', list(c[2].values())[1]), list(c[3].values())[0]) for c in rec.calls] == [('weight_randoms', 'r.fit', x) for x in case['cuts']], 'script runs %s', rec.calls)
            require(out.count('wfile') == len(case['cuts']) and out.count('afile') == len(case['cuts']), 'the files are not reported')
            return s
        elif s == 'redmapper_predict_memory.py':
            rec.method(MemPredict, '__init__')
            rec.method(MemPredict, 'predict_memory')
            script(s, [o('-c', '--configfile'), 'c.yaml'] + ([o('-n', '--no_zred')] if case['opt'] else []) + ([o('-b', '--border_factor'), 1.5] if case['opt2'] else []))
            want = [('MemPredict', 'predict_memory', dict(configfile='c.yaml'), dict(include_zreds=not case['opt'], border_factor=1.5 if case['opt2'] else 2.0))]
        elif s in ('redmapper_convert_depthfile_to_healsparse.py', 'redmapper_convert_mask_to_healsparse.py'):
            mod, fn = (redmapper.depthmap, 'convert_depthfile_to_healsparse') if 'depth' in s else (redmapper.mask, 'convert_maskfile_to_healsparse')
            names = list(inspect.signature(getattr(mod, fn)).parameters)
            rec.function(mod, fn)
            script(s, [o('-m', '--depthfile' if 'depth' in s else '--maskfile'), 'in.fit', o('-f', '--healsparsefile'), 'out.hs'] + ([o('-n', '--nsideCoverage'), 64] if case['opt'] else []) + ([o('-C', '--clobber')] if case['opt2'] else []))
            require(len(rec.calls) == 1, 'script runs %s', rec.calls)
            v = rec.calls[0][3]
            require([v[n] for n in names[:3]] == ['in.fit', 'out.hs', 64 if case['opt'] else 32] and v['clobber'] == case['opt2'], 'script runs %s', v)
            return s
        elif s == 'redmapper_run_many_pixels_same_node.py':
            with open('stub.sh', 'w') as f:
                f.write('#!/bin/bash\necho "$*" > rec_$$\n')
            os.chmod('stub.sh', 0o755)
            p = sorted(set(rs.randint(0, 700, 1 + rs.randint(0, 5)).tolist()))
            r = subprocess.run([sys.executable, os.path.join(BIN, s), o('-c', '--command'), './stub.sh -c c.yaml -n 8 -d .', o('-P', '--pixels'), ','.join(str(x) for x in p)], capture_output=True, text=True)
            require(r.returncode == 0, 'script fails: %s', r.stderr[-200:])
            got = sorted(open(f).read().strip() for f in os.listdir('.') if f.startswith('rec_'))
            require(got == sorted('-c c.yaml -n 8 -d . -p %d' % x for x in p), 'commands run: %s for pixels %s', got, p)
            return s
        require(rec.calls == want, 'script runs %s, expected %s', rec.calls, want)
        return s
    finally:
        rec.undo()


SCRIPTS = list(PIX.values()) + ['redmapper_consolidate_run.py', 'redmapper_consolidate_runcat.py', 'redmapper_calibrate.py', 'redmagic_calibrate.py', 'redmagic_run.py', 'redmapper_make_zred_bkg.py', 'redmapper_generate_randoms.py',
                                'redmapper_weight_randoms.py', 'redmapper_predict_memory.py', 'redmapper_convert_depthfile_to_healsparse.py', 'redmapper_convert_mask_to_healsparse.py', 'redmapper_run_many_pixels_same_node.py']
table = dict(seed=st.integers(0, 2**20), tnside=st.sampled_from([2, 4, 8, 16, 32]), tpix=st.lists(st.integers(0, 12287), min_size=1, max_size=25))
near = st.tuples(st.integers(0, 12000), st.lists(st.integers(0, 30), min_size=4, max_size=20)).map(lambda x: [x[0] + i for i in x[1]])
table['tpix'] = st.one_of(table['tpix'], near)
batch = st.fixed_dictionaries(dict(table, mode=st.integers(0, 4), batch=st.sampled_from(['lsf', 'local', 'slurm', 'lsf']), nside=st.sampled_from([None, 2, 4, 8, 16]), wall=st.sampled_from([None, 60, 7]), nodes=st.sampled_from([None, 5]),
                                   image=st.sampled_from(['', 'org/img:v1']), setup=st.sampled_from(['', 'touch setup_done']), bare=st.booleans(), two=st.booleans(), name=st.booleans(), outbase=st.sampled_from(['t', 'run_1', 'a.b']),
                                   earlier=st.sampled_from([0, 0, 1, 3, 9, 10, 12]), mg=st.booleans(), sub=st.sampled_from([False]*7 + [True])))
memory = st.fixed_dictionaries(dict(table, zreds=st.booleans(), truth=st.booleans(), factor=st.sampled_from([1.0, 2.0, 2.5]), many=st.sampled_from([1, 1, 1000, 10**6, 2*10**7])))
scripts = st.fixed_dictionaries(dict(seed=st.integers(0, 2**20), long=st.booleans(), opt=st.booleans(), opt2=st.booleans(), pixel=st.integers(0, 800), nside=st.sampled_from([1, 4, 8]), n=st.integers(0, 10**6),
                                     cuts=st.lists(st.sampled_from([5.0, 20.0, 7.5]), min_size=1, max_size=3, unique=True), vlims=st.lists(st.sampled_from([0.2, 5.0]), min_size=1, max_size=2, unique=True)))
TESTS = [T('batch-0', batch, t_batch, quick=150, thorough=2500, rule='jobs are made and executed, or refused'), T('batch-1', batch, t_batch, quick=150, thorough=2500, rule='jobs are made and executed, or refused'),
         T('memory', memory, t_memory, quick=200, thorough=2500, rule='run pixels hold several table pixels'), T('scripts', scripts, t_scripts, quick=40, thorough=500, rule='every script is called')]
