"""C37: the per-pixel tasks of a distributed run work on their own pixel, stage by stage, can be killed and repeated, and leave files that are found when the pixels are combined."""
import contextlib
import os
import re
import shutil
import numpy as np
import fitsio
import hpgeom as hpg
import yaml
from scipy.integrate import quad
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
import redmapper.catalog as rcat
from redmapper.catalog import Catalog
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_percolation import RunPercolation
from redmapper.run_randoms_zmask import RunRandomsZmask
from redmapper.run_zscan import RunZScan
from redmapper.runcat import RunCatalog
from redmapper.pipeline import RunRedmapperPixelTask, RuncatPixelTask, RunZmaskPixelTask, RunZScanPixelTask, RuncatConsolidateTask

ASSUMPTIONS = ['the stages themselves are stand-ins that record their configuration and make small catalogues (the real ones are decided by C30 and C31); writing the catalogues, naming and skipping are the real code',
               'a catalogue write either happens or does not (decided by C13 and C22); a kill happens before a stage, after it, or before or after one of its writes']

TASKS = {'redmapper': RunRedmapperPixelTask, 'runcat': RuncatPixelTask, 'zmask': RunZmaskPixelTask, 'zscan': RunZScanPixelTask}
STAGES = {'redmapper': ['firstpass', 'like', 'final'], 'runcat': ['runcat'], 'zmask': ['randoms_zmask'], 'zscan': ['zscan']}
RUNNERS = {RunFirstPass: 'firstpass', RunLikelihoods: 'like', RunPercolation: 'final', RunCatalog: 'runcat', RunRandomsZmask: 'randoms_zmask', RunZScan: 'zscan'}
NEEDS = {'redmapper': ['zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'chisq', 'zred'], 'zscan': ['zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'chisq', 'zred'],
         'runcat': ['bkgfile', 'parfile', 'zlambdafile'], 'zmask': ['bkgfile', 'parfile', 'randfile']}
MEMBERS = ('final', 'runcat', 'zscan')


class Crash(BaseException):
    pass


def Da(z, om):
    """Angular diameter distance in Mpc/h, flat."""
    return 2997.92458*quad(lambda x: 1.0/np.sqrt(om*(1 + x)**3 + 1 - om), 0, z)[0]/(1 + z)


class Session(object):
    def __init__(self, case, pixel, number, crash=None):
        self.case, self.pixel, self.number, self.crash, self.n = case, pixel, number, crash, 0
        self.ran = []

    def tick(self):
        if self.crash is not None and self.n == self.crash:
            raise Crash
        self.n += 1

    @contextlib.contextmanager
    def steps(self):
        D, case, saved = self, self.case, []

        def put(cls, name, f):
            saved.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, f)

        def stage(name):
            def run(self, *a, **k):
                c = self.config
                src = None
                if name in ('like', 'final') or (name in ('runcat', 'zscan')):
                    require(os.path.isfile(c.catfile), 'stage %s runs before its input %s is there', name, c.catfile)
                    src = os.path.abspath(c.catfile)
                D.ran.append(dict(stage=name, hpix=[int(x) for x in c.d.hpix], nside=int(c.d.nside), outbase=c.d.outbase, border=float(c.border), src=src, outpath=os.path.abspath(c.outpath),
                                  perc=bool(k.get('do_percolation_masking', a[0] if a else False))))
                D.tick()
                self.members = None
                self.cat = None
                if case['empty'].get(D.pixel) == name:
                    if case['zero'] and name in ('firstpass', 'like', 'final'):
                        self.cat, self.members = Catalog(np.zeros(0, dtype=CDT)), Catalog(np.zeros(0, dtype=MDT))
                    D.tick()
                    return
                cat, mem = content(case, D.pixel, name, D.number)
                if src is not None and name in ('like', 'final'):
                    t = fitsio.read(src, ext=1)
                    cat['parent'] = t['stamp'][0]
                self.cat, self.members = Catalog(cat), (Catalog(mem) if name in MEMBERS else None)
                D.tick()
            return run
        base = next(k for k in rcat.Catalog.__mro__ if 'to_fits_file' in k.__dict__)
        orig = base.to_fits_file

        def to_fits(self, fn, *a, **k):
            D.tick()
            orig(self, fn, *a, **k)
            D.tick()
        try:
            for cls, name in RUNNERS.items():
                put(cls, 'run', stage(name))
            put(base, 'to_fits_file', to_fits)
            yield
        finally:
            for cls, k, v in saved[::-1]:
                if v is None:
                    delattr(cls, k)
                else:
                    setattr(cls, k, v)

    def go(self):
        with self.steps():
            try:
                kw = {} if self.case['path'] is None else {'path': self.case['path']}
                TASKS[self.case['task']](os.path.join('cfg', 'c.yaml'), self.pixel, self.case['nside'], **kw).run()
            except Crash:
                return False
        return True


CDT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('stamp', 'i4'), ('parent', 'i4'), ('uid', 'i4')]
MDT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('stamp', 'i4'), ('uid', 'i4')]


def content(case, pixel, name, number):
    """Catalogue of a stage: clusters of this pixel and (in the border) of others."""
    rs = np.random.RandomState((case['seed'] + 7919*pixel) % 2**31)
    n = 1 + rs.randint(0, 4)
    c = np.zeros(n, dtype=CDT)
    ra, dec = hpg.pixel_to_angle(case['nside'], pixel, nest=False)
    other = hpg.pixel_to_angle(case['nside'], (pixel + 1) % hpg.nside_to_npixel(case['nside']), nest=False)
    c['ra'], c['dec'] = ra, dec
    c['uid'] = 1000*pixel + np.arange(n)
    if n > 1 and rs.uniform() < 0.5:
        c['ra'][0], c['dec'][0] = other
    c['mem_match_id'] = np.arange(n) + 1 + 100*pixel
    c['lambda'] = 20.0
    c['stamp'] = 10*number + len(name)
    m = np.zeros(2*n, dtype=MDT)
    for k in ('mem_match_id', 'ra', 'dec', 'stamp'):
        m[k] = np.repeat(c[k], 2)
    m['uid'] = np.repeat(c['uid'], 2)
    return c, m


def expected(case, pixel, outdir):
    """The stages that have to run, the files that have to be there in the end and the configuration of each stage."""
    base = '%s_%d_%05d' % (case['outbase'], case['nside'], pixel)
    rmax = 1.05*case['rmask_0']*3.0**case['rmask_beta']
    border = 3.0*np.degrees(rmax/Da(case['zrange'][0], 0.3))
    out, src = [], (None if case['task'] == 'zmask' else os.path.abspath('in.fit') if case['task'] in ('runcat', 'zscan') else None)
    for s in STAGES[case['task']]:
        out.append(dict(stage=s, hpix=[pixel], nside=case['nside'], outbase=base, border=border, src=src, outpath=outdir, perc=case['perc'] if s == 'runcat' else False))
        if case['empty'].get(pixel) == s:
            return out, out[:-1]
        src = os.path.join(outdir, '%s_%s_catalog.fit' % (base, s))
    return out, out


def same(a, b):
    return all(a[k] == b[k] if k != 'border' else abs(a[k]/b[k] - 1) < 1e-3 for k in b)


def prepare(case):
    for d in ('cfg', 'files'):
        os.makedirs(d)
    g = np.zeros(3, dtype=W.gal_dtype(4))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = [1, 2, 3], [10, 50, 90], 0, 18, 0.01, 18, 0.01
    gf = W.write_galtable('gals', 'gals', g, 4, 4, ['g', 'r', 'i', 'z'], 'i', lim_ref=21.0)[0]
    t = np.zeros(1, dtype=[('x', 'f4')])
    for k in ('zredfile', 'parfile', 'zlambdafile', 'randfile'):
        fitsio.write('files/%s.fit' % k, t, clobber=True)
    fitsio.write('files/bkgfile.fit', t, clobber=True, extname='OTHER')
    for k, e in (('chisq', 'CHISQBKG'), ('zred', 'ZREDBKG')):
        if case['missing'] != k:
            fitsio.write('files/bkgfile.fit', t, extname=e)
    if case['missing'] and case['missing'].endswith('file'):
        os.remove('files/%s.fit' % case['missing'])
    shutil.copy('files/parfile.fit' if os.path.isfile('files/parfile.fit') else gf, 'in.fit')
    d = W.min_config(4, galfile=gf, refmag='i', zrange=case['zrange'], limmag_catalog=21.0, outbase=case['outbase'], printlogging=case['log'], percolation_rmask_0=case['rmask_0'], percolation_rmask_beta=case['rmask_beta'],
                     runcat_percolation_masking=case['perc'], border=case['border'], percolation_lmask=0.1, catfile=os.path.abspath('in.fit'), **{k: 'files/%s.fit' % k for k in ('zredfile', 'parfile', 'zlambdafile', 'randfile', 'bkgfile')})
    if case['yamlpath']:
        d['outpath'] = case['yamlpath']
    with open('cfg/c.yaml', 'w') as f:
        yaml.safe_dump(d, f)
    return os.path.abspath(case['path'] or 'cfg')


def check(case):
    npix = hpg.nside_to_npixel(case['nside'])
    pixels = sorted({int(p) % npix for p in case['pixels']})
    case = dict(case, empty={pixels[i % len(pixels)]: STAGES[case['task']][j % len(STAGES[case['task']])] for i, j in case['empty']})
    outdir = prepare(case)
    if case['missing']:
        s = Session(case, pixels[0], 1)
        try:
            s.go()
        except ValueError:
            require(not s.ran, 'stages ran before the missing %s was noticed', case['missing'])
            return 'refused'
        require(False, 'the %s task ran without %s', case['task'], case['missing'])
    kills = list(case['kills'])
    number, nkill = 0, 0
    for p in pixels:
        todo, keep = expected(case, p, outdir)
        files = [os.path.join(outdir, '%s_%s_catalog.fit' % (e['outbase'], e['stage'])) for e in todo]
        done, finished = 0, False
        for attempt in range(8):
            number += 1
            kill = kills.pop(0) if kills else None
            before = [os.path.isfile(f) for f in files]
            stamps = {f: open(f, 'rb').read() for f in files if os.path.isfile(f)}
            s = Session(case, p, number, kill)
            finished = s.go()
            require(all(r['hpix'] == [p] for r in s.ran), 'pixel %d: stages ran on %s', p, [r['hpix'] for r in s.ran])
            want = [e for e, b in zip(todo, before) if not b]
            require(len(s.ran) == len(want) if finished else len(s.ran) <= len(want), 'pixel %d: stages %s ran, %s were left to do', p, [r['stage'] for r in s.ran], [e['stage'] for e in want])
            for r, e in zip(s.ran, want):
                require(same(r, e), 'pixel %d: stage ran with %s, expected %s', p, r, e)
            for f, b in stamps.items():
                require(open(f, 'rb').read() == b, 'pixel %d: finished file %s was changed', p, os.path.basename(f))
            if finished:
                break
            nkill += 1
        if not finished:
            return False
        for e, f in zip(todo, files):
            if e not in keep:
                require(not os.path.isfile(f), 'pixel %d: %s written without clusters', p, os.path.basename(f))
                continue
            require(os.path.isfile(f), 'pixel %d: no file %s (there are %s)', p, os.path.basename(f), sorted(os.listdir(outdir))[:8])
            with fitsio.FITS(f) as x:
                require(len(x) == 2, '%s has %d tables', os.path.basename(f), len(x) - 1)
            c = fitsio.read(f, ext=1, lower=True)
            ref, mem = content(case, p, e['stage'], 0)
            require(np.array_equal(c['uid'], ref['uid']) and np.unique(c['stamp']).size == 1, 'pixel %d: %s holds clusters %s', p, os.path.basename(f), c['uid'].tolist())
            mf = f[:-4] + '_members.fit'
            require(os.path.isfile(mf) == (e['stage'] in MEMBERS), 'pixel %d: members of %s: %s', p, e['stage'], os.path.isfile(mf))
            if e['stage'] in MEMBERS:
                with fitsio.FITS(mf) as x:
                    require(len(x) == 2, '%s has %d tables', os.path.basename(mf), len(x) - 1)
                m = fitsio.read(mf, ext=1, lower=True)
                require(np.array_equal(m['uid'], mem['uid']) and np.all(m['stamp'] == c['stamp'][0]), 'pixel %d: members of %s are not of the same run as its catalogue', p, e['stage'])
        # once more: nothing left to do
        if p not in case['empty']:
            s = Session(case, p, 999)
            s.go()
            require(not s.ran, 'pixel %d: a finished pixel is run again (%s)', p, [r['stage'] for r in s.ran])
    here = [f for f in os.listdir('.') if f.endswith('_catalog.fit')]
    require(not here or outdir == os.path.abspath('.'), 'files %s left in the working directory', here)
    lab = '%s-%s' % (case['task'], 'killed' if nkill else 'empty' if case['empty'] else 'plain')
    if case['task'] == 'redmapper':
        # the names that the consolidation of the final catalogues accepts
        for p in pixels:
            if p not in case['empty']:
                require(any(re.match(r'%s_%d_%05d_final_catalog\.fit$' % (re.escape(case['outbase']), case['nside'], p), f) for f in os.listdir(outdir)), 'final catalogue of pixel %d is not found by the consolidation', p)
        return lab
    left = [p for p in pixels if p not in case['empty']]
    if not left:
        return 'trivial'
    kind = STAGES[case['task']][0]
    kw = {} if case['path'] is None else {'path': case['path']}
    RuncatConsolidateTask(os.path.join('cfg', 'c.yaml'), **kw).run(do_plots=False, match_spec=False, consolidate_members=case['task'] != 'zmask', cattype=kind)
    want = []
    for p in left:
        c = content(case, p, kind, 0)[0]
        want += c['uid'][hpg.angle_to_pixel(case['nside'], c['ra'], c['dec'], nest=False) == p].tolist()
    fs = [f for f in os.listdir(outdir) if re.match(r'%s_redmapper_.*_%s_catalog\.fit$' % (re.escape(case['outbase']), kind), f)]
    require(len(fs) == 1, 'combined catalogue: %s', fs)
    got = fitsio.read(os.path.join(outdir, fs[0]), ext=1, lower=True)['uid'].tolist()
    require(sorted(got) == sorted(want), 'combined %s catalogue holds %s, the pixels %s', kind, sorted(got), sorted(want))
    return lab


def make(task, missing=st.none()):
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 2**20), task=st.just(task), nside=st.sampled_from([1, 2, 4, 8, 16]), pixels=st.lists(st.integers(0, 3071), min_size=1, max_size=3), path=st.sampled_from([None, None, 'out', './', 'a/b']),
        yamlpath=st.sampled_from([None, None, './', 'elsewhere']), outbase=st.sampled_from(['t', 'run_1', 'a_4_00001', 'y.v2']), rmask_0=st.sampled_from([1.5, 1.0, 2.2]), rmask_beta=st.sampled_from([0.2, 0.0, 0.35]),
        zrange=st.sampled_from([[0.1, 0.4], [0.2, 0.65], [0.05, 0.3]]), border=st.sampled_from([0.0, 0.3]), perc=st.booleans(), log=st.booleans(), zero=st.booleans(),
        empty=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)), max_size=1), missing=missing,
        kills=st.lists(st.integers(0, 14 if task == 'redmapper' else 6), max_size=5)))


refusals = st.sampled_from([(t, k) for t in sorted(NEEDS) for k in NEEDS[t]]).flatmap(lambda x: make(x[0], st.just(x[1])))
TESTS = [T('pixel-' + t, make(t), check, quick=n, thorough=20*n, rule='a pixel is killed and resumed, left empty, or run plainly and combined')
         for t, n in (('redmapper', 700), ('runcat', 500), ('zmask', 400), ('zscan', 500))] + [T('refuse', refusals, check, quick=300, thorough=2000, rule='the missing file is noticed')]
