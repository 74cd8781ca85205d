"""C36: the calibration driver runs its steps on the right inputs, resumes where it stopped, and hands over a usable run configuration."""
import collections
import contextlib
import hashlib
import os
import shutil
import numpy as np
import fitsio
import yaml
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from props import c18
import redmapper.catalog as rcat
from redmapper.configuration import Configuration
from redmapper.mask import Mask
from redmapper.run_colormem import RunColormem
from redmapper.redmapper_run import RedmapperRun
from redmapper.background import BackgroundGenerator, ZredBackgroundGenerator
from redmapper.color_background import ColorBackgroundGenerator
from redmapper.zred_runner import ZredRunCatalog, ZredRunPixels
from redmapper.zlambda import ZlambdaCorrectionPar
from redmapper.plotting import SpecPlot
from redmapper.calibration.calibrate import RedmapperCalibrator
from redmapper.calibration.selectspecred import SelectSpecRedGalaxies
from redmapper.calibration.selectspecseeds import SelectSpecSeeds
from redmapper.calibration.redsequencecal import RedSequenceCalibrator
from redmapper.calibration.centeringcal import WcenCalibrator
from redmapper.calibration.zlambdacal import ZLambdaCalibrator
from redmapper.calibration.prepmembers import PrepMembers

ASSUMPTIONS = ['the individual calibration steps are stand-ins that record what they are given and write small files of the right kind; the steps themselves are decided by C16, C21, C22, C26, C27, C29, C32, C33 and C35',
               'a file write either happens or does not; a kill happens before a step, between two of its writes, or after it']


class Crash(BaseException):
    pass


WCEN = ('wcen_Delta0', 'wcen_Delta1', 'wcen_sigma_m', 'wcen_pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma')


def rel(p):
    return None if p is None else os.path.relpath(os.path.abspath(p))


def there(p):
    return p is not None and os.path.isfile(p)


def tables(fn):
    with fitsio.FITS(fn) as f:
        return {h.get_extname() or 'T%d' % 1: h.read() for h in list(f[1:])[::-1] if h.has_data()}


def digest(fn):
    """Of the contents of a file (the first of repeated tables)."""
    if fn is None:
        return 'None'
    if not fn.endswith('.fit'):
        return open(fn).read()
    h = hashlib.sha1()
    for k, t in sorted(tables(fn).items()):
        h.update(k.encode())
        for n in t.dtype.names:
            a = t[n]
            h.update(n.lower().encode() + (''.join(a.ravel().tolist()).encode() if a.dtype.kind == 'U' else np.ascontiguousarray(a).astype(a.dtype.newbyteorder('=')).tobytes()))
    return h.hexdigest()


class Driver(object):
    """One session of the calibration with stand-in steps."""
    def __init__(self, case, crash=None):
        self.case, self.crash, self.n = case, crash, 0
        self.calls = []

    def tick(self):
        if self.crash is not None and self.n == self.crash:
            raise Crash
        self.n += 1

    def call(self, name, cfg, inputs=(), **info):
        for p in inputs:
            require(there(p), 'step %s runs before its input %s is there', name, p)
        info = {k: (tuple(np.atleast_1d(v).tolist()) if isinstance(v, (np.ndarray, list)) else v) for k, v in info.items()}
        key = (name,) + tuple(sorted((k, v) for k, v in info.items()))
        self.calls.append(key)
        h = hashlib.sha1(repr((key, [digest(p) for p in inputs])).encode()).hexdigest()
        self.tick()
        return h, np.random.RandomState(int(h[:8], 16))

    def write(self, fn, h, cols=None, extname=None, clobber=True, header=None):
        cols = dict(cols or {'x': np.zeros(1)})
        n = len(next(iter(cols.values())))
        dt = [(k, v.dtype.descr[0][1]) + ((v.shape[1:],) if v.ndim > 1 else ()) for k, v in cols.items()] + [('dig', 'S40')]
        t = np.zeros(n, dtype=dt)
        for k, v in cols.items():
            t[k] = v
        t['dig'] = h
        if os.path.dirname(fn):
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        fitsio.write(fn, t, clobber=clobber, extname=extname, header=header)
        self.tick()

    @contextlib.contextmanager
    def steps(self):
        D, case = self, self.case
        saved = []

        def put(cls, **kw):
            for k, v in kw.items():
                saved.append((cls, k, cls.__dict__.get(k)))
                setattr(cls, k, v)

        def init(self, conf, *a, **k):
            self.config = conf if isinstance(conf, Configuration) else Configuration(conf)
            self.a, self.k = a, k
        R = rel

        def selred(self):
            c = self.config
            h, rs = D.call('red galaxies', c, redgalfile=R(c.redgalfile), model=R(c.redgalmodelfile))
            D.write(c.redgalfile, h)
            D.write(c.redgalmodelfile, h)

        def cbkg(self, *a, **k):
            c = self.config
            h, rs = D.call('colour background', c, out=R(c.bkgfile_color))
            D.write(c.bkgfile_color, h)

        def maskgals(self, fn, *a, **k):
            h, rs = D.call('mask galaxies', self.config, out=R(fn), conf=R(self.config.maskgalfile))
            D.write(fn, h)

        def colormem(self, *a, **k):
            pass

        def colout(self):
            c = self.config
            h, rs = D.call('colour members', c, [c.redgalfile, c.redgalmodelfile, c.bkgfile_color, c.maskgalfile], red=R(c.redgalfile), model=R(c.redgalmodelfile), bkg=R(c.bkgfile_color), mg=R(c.maskgalfile), out=R(c.zmemfile))
            D.write(c.zmemfile, h)

        def seeds(self, usetrain=True):
            c = self.config
            h, rs = D.call('seeds', c, out=R(c.seedfile), train=bool(usetrain), zreds=R(c.zredfile), hpix=c.d.hpix, nside=int(c.d.nside))
            n = case['nseed']
            rs = np.random.RandomState(case['seed'])
            ra, dec = case['ra0'] + 0.01*np.arange(n), np.full(n, case['dec0'])
            ra, dec = ra[rs.permutation(n)] % 360, dec
            D.write(c.seedfile, h, dict(ra=ra, dec=dec, mag=rs.uniform(18, 20, (n, 4)).astype('f4'), mag_err=rs.uniform(0, 1, (n, 4)).astype('f4'), refmag=rs.uniform(17, 20, n).astype('f4'),
                                        refmag_err=rs.uniform(0, 1, n).astype('f4'), zred=np.full(n, -1, 'f4'), zred_e=np.full(n, -1, 'f4'), zred_chisq=np.full(n, -1, 'f4'),
                                        zspec=rs.uniform(0.15, 0.35, n).astype('f4'), ebv=rs.uniform(0, 1, n).astype('f4')))

        def redseq(self, *a, **k):
            c = self.config
            g = self.a[0] if self.a else self.k['galfile']
            h, rs = D.call('red sequence', c, [g], gals=R(g), out=R(c.parfile))
            D.write(c.parfile, h)

        def zredpix(self, *a, **k):
            c = self.config
            h, rs = D.call('zreds', c, [c.parfile], par=R(c.parfile), out=R(c.zredfile), hpix=c.d.hpix, nside=int(c.d.nside))
            D.write(c.zredfile, h)

        def zredcat(self, galfile, outfile, *a, **k):
            c = self.config
            h, rs = D.call('seed zreds', c, [c.parfile, galfile], par=R(c.parfile), gals=R(galfile), out=R(outfile))
            n = fitsio.FITS(galfile)[1].get_nrows()
            z = {k: rs.uniform(0.1, 0.4, n).astype('f4') for k in ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq')}
            z['zred_samp'] = rs.uniform(size=(n, 2)).astype('f4')
            D.write(outfile, h, z, clobber=False)

        def bkg(self, clobber=False, natatime=100000, deepmode=False):
            c = self.config
            h, rs = D.call('background', c, [c.parfile], par=R(c.parfile), out=R(c.bkgfile), hpix=c.d.hpix, nside=int(c.d.nside), deep=bool(deepmode), area=None if c.area is None else round(float(c.area), 3))
            if there(c.bkgfile) and 'CHISQBKG' in [x.get_extname() for x in fitsio.FITS(c.bkgfile)]:
                return
            D.write(c.bkgfile, h, extname='CHISQBKG', clobber=False)

        def zbkg(self, clobber=False, natatime=100000):
            c = self.config
            h, rs = D.call('zred background', c, [c.parfile, c.zredfile], par=R(c.parfile), zred=R(c.zredfile), out=R(c.bkgfile), hpix=c.d.hpix, nside=int(c.d.nside), area=None if c.area is None else round(float(c.area), 3))
            if there(c.bkgfile) and 'ZREDBKG' in [x.get_extname() for x in fitsio.FITS(c.bkgfile)]:
                return
            D.write(c.bkgfile, h, extname='ZREDBKG', clobber=False)

        def rmrun(self, specmode=False, seedfile=None, check=True, percolation_only=False, consolidate_like=False, keepz=False, cleaninput=False, consolidate=True):
            c = self.config
            src = c.catfile if percolation_only else seedfile
            h, rs = D.call('cluster run', c, [src, c.parfile, c.zredfile, c.bkgfile, c.maskgalfile], src=R(src), par=R(c.parfile), zred=R(c.zredfile), bkg=R(c.bkgfile), mg=R(c.maskgalfile), spec=specmode,
                           perc=percolation_only, like=consolidate_like, keepz=keepz, clean=cleaninput, check=bool(check), cons=bool(consolidate), center=c.centerclass, zl=R(c.zlambdafile), outbase=c.d.outbase, hpix=c.d.hpix,
                           nside=int(c.d.nside), wcen=None if percolation_only else tuple(None if getattr(c, k) is None else round(float(getattr(c, k)), 5) for k in WCEN))
            t = fitsio.read(src, ext=1, lower=True)
            n = t.size
            r = lambda a, b: rs.uniform(a, b, n).astype('f4')
            dd = case['shift'][rs.randint(0, 2**10) % len(case['shift'])]/3600.
            dec = t['dec'] + np.where(rs.uniform(size=n) < 0.6, 0.05/3600, dd)
            cat = dict(mem_match_id=np.arange(n) + 1, ra=t['ra'], dec=dec, z_lambda=r(0.15, 0.35), z_lambda_e=r(0.005, 0.01), z_spec_init=r(0.15, 0.35), z_init=r(0.1, 0.4), scaleval=np.ones(n, 'f4'))
            cat['lambda'] = r(1, 60)
            p = rs.permutation(n)
            cat = {k: v[p] for k, v in cat.items()}
            f = c.redmapper_filename('final')
            D.write(f, h, cat)
            D.write(c.redmapper_filename('final_members'), h)
            if consolidate_like:
                like = c.redmapper_filename('like')
                p = rs.permutation(n)
                # the likelihood catalogue has rejected seeds as well, away from the final clusters
                lra, ldec = np.concatenate([cat['ra'][p], cat['ra'] + 0.004]) % 360, np.concatenate([cat['dec'][p] + 0.1/3600, cat['dec']])
                D.write(like, h, {'ra': lra, 'dec': ldec, 'lambda': rs.uniform(1, 60, 2*n).astype('f4'), 'uid': np.arange(2*n), 'mem_match_id': np.arange(2*n) + 1})
                return f, like
            return f

        def wcen(self, testing=False):
            c = self.config
            k = dict(zip(('iteration', 'randcatfile', 'randsatcatfile'), self.a))
            k.update(self.k)
            ra, rsat = k.get('randcatfile'), k.get('randsatcatfile')
            h, rs = D.call('centering', c, [c.catfile, c.catfile[:-4] + '_members.fit', c.parfile, c.bkgfile] + [x for x in (ra, rsat) if x is not None], it=int(k['iteration']), cat=R(c.catfile), rand=R(ra), randsat=R(rsat),
                           out=R(c.wcenfile), center=c.centerclass, par=R(c.parfile), bkg=R(c.bkgfile), zred=R(c.zredfile), mg=R(c.maskgalfile))
            D.write(c.wcenfile, h, {k: rs.uniform(0.1, 1, 1).astype('f4') for k in ('delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma')})

        def zlam(self, *a, **k):
            c = self.config
            cs = self.a[0] if self.a else self.k.get('corrslope', False)
            h, rs = D.call('zlambda', c, [c.catfile], cat=R(c.catfile), out=R(c.zlambdafile), slope=bool(cs), par=R(c.parfile))
            t, hdr = c18.table(dict(seed=int(h[:6], 16), zrange=[0.1, 0.4], no=5, ns=4, niter=1, form='plain', inset=(0., 0.), uneven=False, size=case.get('wild', 0.004), binsize=0.002, pivot=30.0))
            D.write(c.zlambdafile, h, {k: t[k] for k in t.dtype.names}, header=hdr, clobber=False)

        def plot(self, zs, zl, ze, *a, **k):
            c = self.config
            require(there(c.catfile), 'plot without a catalogue')
            h, rs = D.call('plot', c, [c.catfile], out=R(self.filename), title=k.get('title', a[1] if len(a) > 1 else None))
            D.plots = getattr(D, 'plots', {})
            D.plots[R(self.filename)] = (np.array(zs, 'f8'), np.array(zl, 'f8'), np.array(ze, 'f8'), R(c.catfile), R(c.zlambdafile))
            os.makedirs(os.path.dirname(self.filename), exist_ok=True)
            open(self.filename, 'w').write(h)
            D.tick()

        def prep(self, mode):
            c = self.config
            h, rs = D.call('members', c, [c.catfile, c.catfile[:-4] + '_members.fit'], cat=R(c.catfile), mode=mode, out=R(c.zmemfile))
            D.write(c.zmemfile, h, clobber=False)

        base = next(k for k in rcat.Catalog.__mro__ if 'to_fits_file' in k.__dict__)
        orig = base.to_fits_file

        def to_fits(self, fn, *a, **k):
            D.tick()
            orig(self, fn, *a, **k)
            D.tick()
        oy = Configuration.output_yaml

        def out_yaml(self, fn):
            D.tick()
            oy(self, fn)
            D.tick()
        try:
            put(SelectSpecRedGalaxies, __init__=init, run=selred)
            put(ColorBackgroundGenerator, __init__=init, run=cbkg)
            put(Mask, gen_maskgals=maskgals)
            put(RunColormem, __init__=init, run=colormem, output_training=colout)
            put(SelectSpecSeeds, __init__=init, run=seeds)
            put(RedSequenceCalibrator, __init__=init, run=redseq)
            put(ZredRunPixels, __init__=init, run=zredpix)
            put(ZredRunCatalog, __init__=init, run=zredcat)
            put(BackgroundGenerator, __init__=init, run=bkg)
            put(ZredBackgroundGenerator, __init__=init, run=zbkg)
            put(RedmapperRun, __init__=init, run=rmrun)
            put(WcenCalibrator, __init__=init, run=wcen)
            put(ZLambdaCalibrator, __init__=init, run=zlam)
            put(SpecPlot, plot_values=plot)
            put(PrepMembers, __init__=init, run=prep)
            put(base, to_fits_file=to_fits)
            put(Configuration, output_yaml=out_yaml)
            yield
        finally:
            for cls, k, v in saved[::-1]:
                if v is None:
                    delattr(cls, k)
                else:
                    setattr(cls, k, v)

    def session(self):
        """True when the calibration reached its end."""
        with self.steps():
            try:
                RedmapperCalibrator('cal.yml').run()
            except Crash:
                return False
        return True


class Plan(object):
    """What the calibration has to do: (call, products)."""
    def __init__(self, case, wcen0):
        self.case = case
        o, b = case['outpath'], case['outbase']
        n = case['niter']
        f = lambda kind, it='': os.path.normpath(os.path.join(o, '%s%s_%s.fit' % (b, it and '_iter' + it, kind)))
        self.f = f
        pl = lambda it: os.path.normpath(os.path.join(o, 'plots', '%s_iter%s_zspec.png' % (b, it)))
        hp, ns = tuple(case['hpix']), case['nside']
        area = round(case['area'], 3)
        self.steps = []

        def add(name, products, **info):
            info = {k: (tuple(v) if isinstance(v, list) else v) for k, v in info.items()}
            self.steps.append(((name,) + tuple(sorted(info.items())), products))
        red, mod, cb, mg = f('zspec_redgals'), f('zspec_redgals_model'), f('bkg_color'), f('maskgals')
        zm = f('iter0_colormem_pgt%4.2f_lamgt%02d' % (case['pcut'], case['cminlam']))
        add('red galaxies', [red, mod], redgalfile=red, model=mod)
        add('colour background', [cb], out=cb)
        add('mask galaxies', [mg], out=mg, conf=mg)
        add('colour members', [zm], red=red, model=mod, bkg=cb, mg=mg, out=zm)
        seed = f('specseeds_train')
        add('seeds', [seed], out=seed, train=True, zreds=None, hpix=hp, nside=ns)
        self.cut = []
        prev = None
        for i in range(1, n + 1):
            it = str(i)
            par, bkg, fin = f('pars', it), f('bkg', it), f('final', it)
            zred = os.path.normpath(os.path.join(o, '%s_iter%d' % (b, i), '%s_iter%d_zreds_master_table.fit' % (b, i)))
            iseed = f('specseeds', it)
            add('red sequence', [par], gals=zm, out=par)
            add('zreds', [zred], par=par, out=zred, hpix=hp, nside=ns)
            add('background', [bkg + '#CHISQBKG'], par=par, out=bkg, hpix=hp, nside=ns, deep=False, area=area)
            add('zred background', [bkg + '#ZREDBKG'], par=par, zred=zred, out=bkg, hpix=hp, nside=ns, area=area)
            add('seed zreds', [iseed], par=par, gals=seed, out=f('specseeds_zreds', it))
            common = dict(par=par, zred=zred, bkg=bkg, mg=mg, hpix=hp, nside=ns, clean=True, check=True, cons=True)
            add('cluster run', [fin, f('final_members', it), f('like', it)], src=iseed, spec=True, perc=False, like=True, keepz=True, center=case['first'] if i == 1 else 'CenteringWcenZred', zl=None,
                outbase='%s_iter%d' % (b, i), wcen=wcen0 if i == 1 else ('file', prev), **common)
            rf = [None, None]
            if i == 1:
                for j, (q, cc) in enumerate((('rand', 'CenteringRandom'), ('randsat', 'CenteringRandomSatellite'))):
                    rf[j] = f('final', '1_' + q)
                    add('cluster run', [rf[j], f('final_members', '1_' + q)], src=f('sub_like', '1'), spec=False, perc=True, like=False, keepz=True, center=cc, zl=None, outbase='%s_iter1_%s' % (b, q), wcen=None, **common)
            add('centering', [f('wcen', it)], it=i, cat=fin, rand=rf[0], randsat=rf[1], out=f('wcen', it), center=case['center'], par=par, bkg=bkg, zred=zred, mg=mg)
            add('zlambda', [f('zlambda', it)], cat=fin, out=f('zlambda', it), slope=False, par=par)
            add('plot', [pl(it)], out=pl(it), title='%s_iter%d' % (b, i))
            zm = f('zmem_pgt%4.2f_lamgt%02d' % (case['pcut'], int(case['minlam'])), it)
            add('members', [zm], cat=fin, mode='z_init', out=zm)
            prev = f('wcen', it)
            if i == 1:
                seed = f('cut_specseeds')
        self.last = dict(par=par, zred=zred, bkg=bkg, zlambda=f('zlambda', str(n)), wcen=f('wcen', str(n)))
        seed = f('specseeds')
        add('seeds', [seed], out=seed, train=False, zreds=zred, hpix=hp, nside=ns)
        it = '%db' % n
        iseed = f('specseeds', it)
        add('seed zreds', [iseed], par=par, gals=seed, out=f('specseeds_zreds', it))
        add('cluster run', [f('final', it), f('final_members', it)], src=iseed, spec=False, perc=False, like=False, keepz=False, center=case['center'], zl=f('zlambda', str(n)), outbase='%s_iter%s' % (b, it),
            wcen=('file', prev), **common)
        add('plot', [pl(it)], out=pl(it), title='%s_iter%s' % (b, it))
        self.pl = pl
        d, last = os.path.split(os.path.abspath(o))
        d = os.path.relpath(d)
        if last == 'cal':
            r = 'run'
        elif 'cal_' in last:
            r = last.replace('cal_', 'run_')
        elif '_cal' in last:
            r = last.replace('_cal', '_run')
        else:
            r = last + '_run'
        self.runpath = os.path.normpath(os.path.join(d, r))
        self.runbase = b.replace('_cal', '_run') if '_cal' in b else b + '_run'
        self.fullbkg = os.path.join(self.runpath, self.runbase + '_bkg.fit') if ns > 0 and case['full'] else None
        if self.fullbkg:
            add('background', [self.fullbkg + '#CHISQBKG'], par=par, out=self.fullbkg, hpix=(), nside=0, deep=True, area=round(case['galarea'], 3))

    def resolve(self, key):
        """Fill in centering values once their file is there."""
        out = []
        for x in key:
            if isinstance(x, tuple) and x[0] == 'wcen' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'file':
                t = fitsio.read(x[1][1], ext=1)
                x = ('wcen', tuple(round(float(t[k][0]), 5) for k in ('delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma')))
            out.append(x)
        return tuple(out)


def made(p):
    p, _, ext = p.partition('#')
    if not os.path.isfile(p):
        return False
    return not ext or ext in [x.get_extname() for x in fitsio.FITS(p)]


def show(c):
    return {k[0]: dict(k[1:]) for k in c}


def setup(case):
    g = np.zeros(3, dtype=W.gal_dtype(4))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = [1, 2, 3], [10, 50, 90], 0, 18, 0.01, 18, 0.01
    gf = W.write_galtable('gals', 'gals', g, 4, 4, ['g', 'r', 'i', 'z'], 'i', lim_ref=21.0)[0]
    fitsio.write('spec.fit', np.zeros(1, dtype=[('ra', 'f8')]), clobber=True)
    d = W.min_config(4, galfile=gf, specfile='spec.fit', refmag='i', zrange=[0.12, 0.38], limmag_catalog=21.0, outbase=case['outbase'], outpath=case['outpath'], plotpath='plots', calib_niter=case['niter'],
                     calib_pcut=case['pcut'], calib_colormem_minlambda=case['cminlam'], calib_minlambda=case['minlam'], calib_zlambda_minlambda=case['zminlam'], percolation_minlambda=case['pminlam'],
                     centerclass=case['center'], firstpass_centerclass=case['first'], calib_make_full_bkg=case['full'], nside=case['nside'], hpix=case['hpix'], border=case['border'], printlogging=True,
                     zlambda_pivot=30.0, percolation_lmask=0.1)
    if case['nside']:
        d['area'] = case['area_sub']
    yaml.safe_dump(d, open('cal.yml', 'w'))
    return gf


def check_products(case, plan, plots):
    """The files that the driver itself makes."""
    f = plan.f
    rd = lambda fn: fitsio.read(fn, ext=1, lower=True)
    seedsrc = f('specseeds_train')
    for it in [str(i) for i in range(1, case['niter'] + 1)] + ['%db' % case['niter']]:
        if it == '2':
            seedsrc = f('cut_specseeds')
        if it.endswith('b'):
            seedsrc = f('specseeds')
        a, b, z = rd(f('specseeds', it)), rd(seedsrc), rd(f('specseeds_zreds', it))
        require(a.size == b.size, 'seeds of iteration %s: %d of %d', it, a.size, b.size)
        for n in ('ra', 'dec', 'mag', 'mag_err', 'refmag', 'zspec', 'ebv'):
            require(np.array_equal(a[n], b[n]), 'seeds of iteration %s: %s differs from the seed file', it, n)
        for n, m in (('zred', 'zred'), ('zred_e', 'zred_e'), ('zred_chisq', 'chisq')):
            require(np.array_equal(a[n], z[m]), 'seeds of iteration %s: %s is not that of the new red sequence', it, n)
    fin, like, sub = rd(f('final', '1')), rd(f('like', '1')), rd(f('sub_like', '1'))
    rich = fin[fin['lambda'] > case['pminlam']]

    def near(c, t):
        s = W.sep(c['ra'], c['dec'], t['ra'], t['dec'])*3600
        j = int(np.argmin(s))
        return j if s[j] < 0.5 else None
    want = [near(c, like) for c in rich]
    require(sorted(sub['uid'].tolist()) == sorted(int(like['uid'][j]) for j in want if j is not None), 'the likelihood catalogue for random centres has rows %s', sub['uid'].tolist())
    for n in ('ra', 'dec', 'lambda'):
        o = {int(u): v for u, v in zip(like['uid'], like[n])}
        require(all(o[int(u)] == v for u, v in zip(sub['uid'], sub[n])), 'likelihood rows for random centres are altered')
    seeds, cut = rd(f('specseeds_train')), rd(f('cut_specseeds'))
    want = sorted(j for j in (near(c, seeds) for c in rich) if j is not None)
    got = []
    for x in cut:
        m = np.flatnonzero((seeds['ra'] == x['ra']) & (seeds['dec'] == x['dec']))
        require(m.size == 1 and all(np.array_equal(x[n], seeds[n][m[0]]) for n in ('mag', 'refmag', 'zspec', 'ebv')), 'a cut seed is not one of the seeds')
        got.append(int(m[0]))
    require(sorted(got) == want, 'cut seeds are %s, the seeds of rich clusters are %s', sorted(got), want)
    for it in [str(i) for i in range(1, case['niter'] + 1)] + ['%db' % case['niter']]:
        zs, zl, ze, cat, zf = plots[plan.pl(it)]
        require(cat == f('final', it), 'plot of iteration %s shows %s', it, cat)
        c = rd(f('final', it))
        c = c[c['lambda'] > case['zminlam']]
        if it.endswith('b'):
            e = (c['z_lambda'], c['z_lambda_e'])
        else:
            c = c[c['lambda'] > case['minlam']]
            corr = ZlambdaCorrectionPar(parfile=f('zlambda', it), zlambda_pivot=30.0)
            v = [corr.apply_correction(float(x['lambda']), float(x['z_lambda']), float(x['z_lambda_e'])) for x in c]
            e = np.array([x[0] for x in v]), np.array([x[1] for x in v])
        require(zs.size == c.size and np.allclose(zs, c['z_spec_init'], atol=1e-6) and np.allclose(zl, e[0], atol=1e-5) and np.allclose(ze, e[1], atol=1e-5), 'plot of iteration %s does not show the %d corrected clusters', it, c.size)


def check_config(case, plan, gf):
    fn = os.path.join(plan.runpath, 'run_default.yml')
    require(os.path.isfile(fn), 'no run configuration at %s', fn)
    y = yaml.safe_load(open(fn))
    ab = os.path.abspath
    if case['nside'] == 0:
        zr = ab(plan.last['zred'])
    else:
        zr = ab(os.path.join(plan.runpath, 'zreds', os.path.basename(gf).replace('_master', '_zreds_master')))
    exp = dict(galfile=ab(gf), specfile=ab('spec.fit'), parfile=ab(plan.last['par']), bkgfile=ab(plan.fullbkg or plan.last['bkg']), zredfile=zr, zlambdafile=ab(plan.last['zlambda']), wcenfile=ab(plan.last['wcen']),
               bkgfile_color=ab(plan.f('bkg_color')), maskgalfile=ab(plan.f('maskgals')), redgalfile=ab(plan.f('zspec_redgals')), redgalmodelfile=ab(plan.f('zspec_redgals_model')), outbase=plan.runbase, nside=0, hpix=[],
               border=0.0, area=None, catfile=None, seedfile=None, zmemfile=None, centerclass=case['center'], refmag='i', zrange=[0.12, 0.38], limmag_catalog=21.0, percolation_minlambda=case['pminlam'])
    for k, v in exp.items():
        g = y.get(k)
        g = os.path.realpath(g) if isinstance(g, str) and g.startswith('/') else g
        v = os.path.realpath(v) if isinstance(v, str) and v.startswith('/') else v
        require(g == v or (v in (None, []) and not g), 'run configuration has %s %r, expected %r', k, g, v)
    for k in ('parfile', 'bkgfile', 'zlambdafile', 'wcenfile', 'maskgalfile', 'galfile'):
        require(os.path.isfile(y[k]), 'run configuration names %s %s, which does not exist', k, y[k])
    # it can be used from anywhere
    here = os.getcwd()
    os.makedirs('elsewhere', exist_ok=True)
    os.chdir('elsewhere')
    try:
        c = Configuration(os.path.join(here, fn))
        t = fitsio.read(os.path.join(here, plan.last['wcen']), ext=1)
        require(abs(float(c.wcen_Delta0) - float(t['delta0'][0])) < 1e-6 and abs(float(c.lnw_cen_mean) - float(t['lnw_cen_mean'][0])) < 1e-6, 'the run configuration does not have the last centering calibration')
        require(len(c.d.hpix) == 0 and c.d.nside == 0 and c.d.outbase == plan.runbase, 'the run configuration is not for the full sky')
    finally:
        os.chdir(here)


def check_state(ref, plan):
    """All files equal those of the uninterrupted calibration."""
    def files(d):
        out = {}
        for root, _, fs in os.walk(d):
            for f in fs:
                if f.endswith(('.fit', '.png')) and not f.startswith('.tmp'):
                    p = os.path.join(root, f)
                    out[os.path.relpath(p, d)] = p
        return out
    a, b = files('..'), files(ref)
    require(set(a) == set(b), 'files differ from those of an uninterrupted calibration: %s', sorted(set(a) ^ set(b))[:5])
    for k in a:
        if not k.startswith(('work/gals', 'work/spec.fit')):
            require(digest(a[k]) == digest(b[k]), 'file %s differs from that of an uninterrupted calibration', k)


def t_driver(case):
    case = dict(case)
    if not case['sub']:
        case.update(nside=0, hpix=[])
    else:
        case.update(nside=2, hpix=[case['sub']])
    case['galarea'] = 1.0
    case['area_sub'] = 0.43
    top = os.getcwd()
    res = []
    for name, crashes in (('ref', []), ('cut', case['crash'])):
        os.makedirs(os.path.join(top, name, 'work'))
        os.chdir(os.path.join(top, name, 'work'))
        gf = setup(case)
        c = Configuration('cal.yml')
        case['galarea'] = float(c.galfile_area)
        case['area'] = float(c.area)
        wc = tuple(None if getattr(c, k) is None else round(float(getattr(c, k)), 5) for k in WCEN)
        plan = Plan(case, wc)
        plots = {}
        todo = list(plan.steps)
        total = res[0] if res else 0
        resumed = 0
        for k in crashes + [None]:
            D = Driver(case, None if k is None else k % total)
            done = D.session()
            plots.update(getattr(D, 'plots', {}))
            left = []
            if resumed and plan.fullbkg and plan.steps[-1] not in todo:
                # the background generator itself leaves a finished background alone
                D.calls = [x for x in D.calls if x != plan.steps[-1][0]]
            if not done:
                left = [x for x in todo if not all(made(p) for p in x[1])]
            exp = collections.Counter(plan.resolve(x[0]) for x in todo if done or all(made(p) for p in x[1])) if done else None
            got = collections.Counter(D.calls)
            if done:
                if got != exp:
                    extra, miss = list((got - exp).elements()), list((exp - got).elements())
                    require(False, 'steps run with %s, expected %s%s', show(extra[:2]), show(miss[:2]), ' (after an interruption)' if resumed else '')
                break
            require(max(got.values(), default=0) <= 1, 'a step is run twice')
            # every step so far is a planned one that was not finished before
            plan_now = [x[0] for x in todo]
            for x in D.calls:
                ok = any(x == (plan.resolve(p) if not any(isinstance(q, tuple) and q[0] == 'wcen' and isinstance(q[1], tuple) and q[1] and q[1][0] == 'file' and not there(q[1][1]) for q in p) else None) for p in plan_now)
                require(ok, 'step run with %s, which is not a step that is left to do', show([x]))
            todo = left
            resumed += 1
        require(done, 'the calibration did not end')
        if name == 'ref':
            res.append(D.n)
        check_products(case, plan, plots)
        check_config(case, plan, gf)
    check_state(os.path.join(top, 'ref'), plan)
    os.chdir(top)
    for d in ('ref', 'cut'):
        shutil.rmtree(os.path.join(top, d))
    return 'resumed' if resumed else 'whole'


def t_wild(case):
    """Corrections that make any redshift negative stop the calibration."""
    case = dict(case, nside=0, hpix=[], crash=[])
    setup(case)
    Configuration('cal.yml')
    f = lambda kind, it: os.path.normpath(os.path.join(case['outpath'], '%s_iter%d_%s.fit' % (case['outbase'], it, kind)))
    D = Driver(case)
    err = None
    try:
        D.session()
    except RuntimeError as e:
        err = e
    its = [i for i in range(1, case['niter'] + 1) if there(f('zlambda', i))]
    neg = []
    for i in its:
        c = fitsio.read(f('final', i), ext=1, lower=True)
        c = c[c['lambda'] > case['minlam']]
        corr = ZlambdaCorrectionPar(parfile=f('zlambda', i), zlambda_pivot=30.0)
        v = [corr.apply_correction(float(x['lambda']), float(x['z_lambda']), float(x['z_lambda_e']))[0] for x in c]
        if v and abs(min(v)) < 1e-5:
            return 'trivial-edge'
        neg.append(len(v) > 0 and min(v) < 0)
    if err is None:
        require(not any(neg), 'the calibration goes on with a correction that makes redshifts negative (iterations %s)', neg)
        return 'trivial-fine'
    require(neg and neg[-1] and not any(neg[:-1]), 'the calibration stops (%s) without a negative redshift', err)
    return 'stopped'


cases = st.fixed_dictionaries(dict(
    seed=st.integers(1, 2**20), nseed=st.integers(2, 12), ra0=st.sampled_from([30.0, 359.97, 120.0]), dec0=st.sampled_from([0.0, -10.0, 45.0]), outbase=st.sampled_from(['abc_cal', 'abc', 'x_cal_y', 'cal']),
    outpath=st.sampled_from(['cal', 'cal_v1', 'v1_cal', 'plain', 'd/cal', './', 'd/e/v_cal_2']), niter=st.sampled_from([1, 2, 3, 2]), pcut=st.sampled_from([0.3, 0.55]), cminlam=st.sampled_from([10.0, 7.0]), minlam=st.sampled_from([5.0, 12.0]),
    zminlam=st.sampled_from([20.0, 3.0, 10.0]), pminlam=st.sampled_from([3.0, 15.0]), center=st.sampled_from(['CenteringWcenZred', 'CenteringBCG']), first=st.sampled_from(['CenteringBCG', 'CenteringWcenZred']), full=st.booleans(),
    sub=st.sampled_from([0, 5, 20]), border=st.sampled_from([0.0, 1.0]), shift=st.lists(st.sampled_from([0.05, 0.3, 0.8, 3.0]), min_size=1, max_size=2), crash=st.lists(st.integers(0, 300), min_size=1, max_size=3)))
wilds = cases.flatmap(lambda c: st.sampled_from([0.1, 0.3, 0.5]).map(lambda w: dict(c, wild=w)))
TESTS = [T('wild', wilds, t_wild, quick=120, thorough=2000, rule='a redshift becomes negative')] + [T('driver-%d' % i, cases, t_driver, quick=90, thorough=3000, rule='at least one interruption') for i in range(6)]
