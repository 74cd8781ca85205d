"""C33: calibration of the red sequence."""
import os
import sys
import functools
from unittest import mock
import numpy as np
import fitsio
from hypothesis import strategies as st

from vp.core import T, require
from vp import synth as S, world as W
sys.modules['matplotlib.pyplot'] = mock.MagicMock()   # plots are slow, and not what is checked
from redmapper.calibration import RedSequenceCalibrator
from redmapper.redsequence import RedSequenceColorPar
from redmapper.utilities import make_nodes

ASSUMPTIONS = ['statistical recovery is judged at several standard errors of the sample plus the tolerance of the minimiser and of the splines',
               'diagnostic plots are not drawn']
BANDS = 'gri'
LIM = 21.5


@functools.lru_cache(maxsize=None)
def stub(b):
    d = os.path.join(S.home(), 'stub3-%g' % b)
    g = np.zeros(2, dtype=W.gal_dtype(3))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = [1, 2], [10, 50], 0, 18, 0.01, 18, 0.01
    return W.write_galtable(d, 'stub', g, 4, 3, BANDS, 'i', lim_ref=LIM, b=np.full(3, b))[0]


@functools.lru_cache(maxsize=None)
def colorbkg():
    fn = os.path.join(S.home(), 'cbkg3.fit')
    mb = np.arange(15.6, 21.6, 0.3)
    crs = [(0.6, 2.8), (0.3, 1.3)]
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        for i in range(2):
            for j in range(i, 2):
                b = [np.arange(c[0], c[1], 0.05) for c in crs]
                if i == j:
                    dt = [('COL1', 'i2'), ('COL2', 'i2'), ('COL_INDEX', 'i2'), ('REFMAG_INDEX', 'i2'), ('COLBINS', 'f4', b[i].size), ('COLRANGE', 'f4', 2), ('COLBINSIZE', 'f4')]
                    shp = (mb.size, b[i].size)
                else:
                    dt = [('COL1', 'i2'), ('COL2', 'i2'), ('COL1_INDEX', 'i2'), ('COL2_INDEX', 'i2'), ('REFMAG_INDEX', 'i2'), ('COL1BINS', 'f4', b[i].size), ('COL1RANGE', 'f4', 2),
                          ('COL1BINSIZE', 'f4'), ('COL2BINS', 'f4', b[j].size), ('COL2RANGE', 'f4', 2), ('COL2BINSIZE', 'f4')]
                    shp = (mb.size, b[j].size, b[i].size)
                dt += [('REFMAGBINS', 'f4', mb.size), ('REFMAGRANGE', 'f4', 2), ('REFMAGBINSIZE', 'f4'), ('AREAS', 'f4', mb.size), ('BC', 'f4', shp), ('N', 'f4', mb.size)]
                e = np.zeros(1, dtype=dt)
                e['COL1'], e['COL2'] = i, j
                if i == j:
                    e['COLBINS'], e['COLRANGE'], e['COLBINSIZE'] = b[i], crs[i], 0.05
                else:
                    e['COL1BINS'], e['COL1RANGE'], e['COL1BINSIZE'], e['COL2BINS'], e['COL2RANGE'], e['COL2BINSIZE'] = b[i], crs[i], 0.05, b[j], crs[j], 0.05
                e['REFMAGBINS'], e['REFMAGRANGE'], e['REFMAGBINSIZE'], e['AREAS'], e['BC'], e['N'] = mb, (15.6, 21.6), 0.3, 10., 3.0, 3.0*2
                f.write(e, extname='%02d_%02d_REF' % (i, j), header=dict(AREA=10.))
    return fn


def conf(case, **kw):
    d = W.min_config(3, galfile=stub(case['b']), refmag='i', zrange=list(case['zrange']), parfile='pars.fit', bkgfile_color=colorbkg(), percolation_lmask=0.1, maskgal_ngals=400,
                     limmag_catalog=LIM, printlogging=True, calib_use_pcol=case['pcol'], calib_pcut=0.3, calib_color_pcut=0.7, calib_color_nsig=3.0, calib_pivotmag_nodesize=0.1, zred_nsamp=4,
                     calib_covmat_nodesize=0.15, calib_covmat_constant=case['corr'], calib_corr_nocorrslope=case['nocorrslope'], calib_lumfunc_alpha=case['alpha'],
                     zredc_binsize_fine=0.0005, zredc_binsize_coarse=0.005)
    d.update(kw)
    c = W.config('conf.yaml', d)
    os.makedirs(os.path.join(c.outpath, c.plotpath), exist_ok=True)
    return c


def truth(case, z):
    """Colours at the pivot magnitude, slopes, scatter, pivot magnitude."""
    z = np.asarray(z, 'f8')
    a = case['tilt']
    c = np.stack([1.0 + 3.5*a*(z - 0.1) + 1.0*(z - 0.1)**2, 0.55 + 1.0*a*(z - 0.1)], axis=-1)
    return c, np.array(case['slope']), np.array(case['sigma']), 17.6 + 5.0*(z - 0.1)


def sample(case, rs):
    lo, hi = case['zrange']
    n = case['n']
    g = np.zeros(n, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 3), ('mag_err', 'f4', 3), ('ebv', 'f4'), ('z', 'f4'), ('p', 'f4'), ('pcol', 'f4')])
    z = np.concatenate([np.linspace(lo + 1e-3, hi - 1e-3, n//2), rs.uniform(lo + 1e-3, hi - 1e-3, n - n//2)])
    c, sl, sg, piv = truth(case, z)
    ref = piv + np.clip(rs.normal(size=n)*0.5, -1.4, 1.4)
    cor = np.array([[1, case['corr']], [case['corr'], 1.]])
    d = rs.multivariate_normal(np.zeros(2), cor*np.outer(sg, sg), n)
    col = c + sl*(ref - piv)[:, None] + d
    m = np.stack([ref + col[:, 1] + col[:, 0], ref + col[:, 1], ref], axis=1)
    e = np.clip(0.01*10**(0.2*(m - 18)), 0.005, 0.05)
    m = m + rs.normal(size=m.shape)*e
    if case['b']:
        # luptitudes (nanomaggies, zero point 22.5)
        f = 10**(-0.4*(m - 22.5))
        m = -2.5*np.log10(case['b']) - np.arcsinh(0.5*f/(case['b']*1e9))/(0.4*np.log(10))
    g['mag'], g['mag_err'], g['refmag'], g['refmag_err'] = m, e, m[:, 2], e[:, 2]
    g['id'], g['ra'], g['dec'], g['z'] = 1 + np.arange(n), 150 + rs.uniform(size=n), rs.uniform(size=n), z
    use, other = ('pcol', 'p') if case['pcol'] else ('p', 'pcol')
    g[use] = np.where(rs.uniform(size=n) < 0.9, rs.uniform(0.9, 1, n), rs.uniform(0.35, 0.65, n))
    g[other] = rs.uniform(size=n)
    g['p'] = np.where(case['pcol'], np.clip(g['p'], 0.91, 1.), g['p'])
    return g[rs.permutation(n)]


def spoiled(case, g, rs, k, shift):
    """Galaxies outside the redshift range or below the probability cut."""
    b = g[rs.randint(0, g.size, k)].copy()
    kind = np.arange(k) % 3
    b['mag'] += shift
    b['refmag'] += shift
    b['z'][kind == 0] = case['zrange'][0] - 0.01
    b['z'][kind == 1] = case['zrange'][1] + 0.01
    b['pcol' if case['pcol'] else 'p'][kind == 2] = 0.29
    return b


def run(cf, fn):
    RedSequenceCalibrator(cf, fn).run(doRaise=False)
    return fitsio.read(cf.parfile, ext=1, lower=True)[0], fitsio.read_header(cf.parfile, ext=1)


def same(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a.dtype.names)


def t_model(case):
    rs = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'])
    lo, hi = case['zrange']
    g = sample(case, rs)
    name = case['name']
    fitsio.write(name + '.fit', np.concatenate([g, spoiled(case, g, rs, case['nbad'], 0.0)]), clobber=True)
    cf = conf(case)
    t, hdr = run(cf, name + '.fit')
    left = [f for f in os.listdir('.') if 'pars' in f]
    require(left == ['pars.fit'], 'files left: %s', left)
    with fitsio.FITS('pars.fit') as f:
        require(len(f) == 2, 'the model file has %d extensions', len(f))
    for k, v in (('NCOL', 2), ('LIMMAG', LIM), ('ALPHA', case['alpha']), ('ZRANGE0', max(lo - 0.1, 0.01)), ('ZRANGE1', hi + 0.25), ('ZBINFINE', 0.0005), ('ZBINCOAR', 0.005), ('REF_IND', 2)):
        require(abs(hdr[k] - v) < 1e-6, 'header %s is %s', k, hdr[k])
    require(hdr['BANDS'].strip() == 'g,r,i', 'bands %s', hdr['BANDS'])
    n = g.size
    # pivot magnitude and nodes
    pz = make_nodes(case['zrange'], 0.1)
    require(np.allclose(t['pivotmag_z'], pz) and np.allclose(t['z00'], make_nodes(case['zrange'], 0.05)) and np.allclose(t['zs01'], make_nodes(case['zrange'], 0.1)), 'nodes')
    mid = 0.5*(lo + hi)
    zz = np.linspace(lo + 0.1*(hi - lo), hi - 0.1*(hi - lo), 7)
    spl = lambda a, b: W.natural_spline(t[a].astype('f8'), np.asarray(b, 'f8'), zz)
    c, sl, sg, piv = truth(case, zz)
    require(np.all(np.abs(spl('pivotmag_z', t['pivotmag']) - piv) < 6*0.5*1.25/np.sqrt(n*0.3) + 0.1), 'pivot magnitude %s, planted %s', spl('pivotmag_z', t['pivotmag']), piv)
    dp = (spl('pivotmag_z', t['pivotmag']) - piv)[:, None]*sl
    for j in range(2):
        ps = np.hypot(sg[j], 0.015)
        tol = 6*ps/np.sqrt(n*0.9*0.03/(hi - lo)*1.0) + 0.004
        got = spl('z%02d' % j, t['c%02d' % j])
        require(np.all(np.abs(got - c[:, j] - dp[:, j]) < tol), 'colour %d is %s, planted %s', j, got, c[:, j])
        med = spl('pivotmag_z', t['medcol'][:, j])
        require(np.all(np.abs(med - c[:, j]) < tol + 0.03), 'median colour %d is %s, planted %s', j, med, c[:, j])
        gs = spl('zs%02d' % j, t['slope%02d' % j])
        require(np.all(np.abs(gs - sl[j]) < 6*ps/0.5/np.sqrt(n*0.3) + 0.006), 'slope %d is %s, planted %g', j, gs, sl[j])
        s = spl('covmat_z', t['sigma'][j, j])
        require(np.mean(s) > 0.3*sg[j] and np.all(s >= 0.0005) and np.all(s < 1.6*sg[j] + 0.004), 'scatter %d is %s, planted %g', j, s, sg[j])
        require(np.allclose(t['covmat_amp'][j, j], t['sigma'][j, j]**2, rtol=1e-5), 'variance is not the square of the scatter')
    require(np.allclose(t['sigma'][0, 1], case['corr']) and np.allclose(t['sigma'][1, 0], case['corr']), 'correlation')
    off = case['corr']*t['sigma'][0, 0]*t['sigma'][1, 1]
    require(np.allclose(t['covmat_amp'][0, 1], off, rtol=1e-4) and np.allclose(t['covmat_amp'][1, 0], off, rtol=1e-4), 'covariance')
    require(np.all(t['mag_err_ratio_int'] == 1) and np.all(t['mag_err_ratio_slope'] == 0), 'error ratios without fitting them')
    zv = t['volume_factor_z'].astype('f8')
    shell = lambda x: np.array([cf.cosmo.Dl(0.0, q + 0.01)/(1 + q + 0.01) - cf.cosmo.Dl(0.0, q)/(1 + q) for q in np.atleast_1d(x)])
    require(np.allclose(t['volume_factor'], shell(hi)[0]/shell(zv), rtol=1e-4), 'volume factor')
    if case['nocorrslope']:
        require(np.all(t['corr_slope'] == 0) and np.all(t['corr2_slope'] == 0), 'a slope of the correction without fitting one')
    # the model recovers the redshifts of its training sample
    out = fitsio.read(name + '_zreds.fit', ext=1, lower=True)
    require(out.size == n and set(out['id']) == set(g['id']), 'training sample of %d, %d redshifts', n, out.size)
    o = np.argsort(out['id'])
    require(np.array_equal(out['mag'][o], np.sort(g, order='id')['mag']), 'galaxies changed in the redshift file')
    inner = (out['z'] > lo + 0.015) & (out['z'] < hi - 0.015) & (out['zred_e'] > 0)
    for zk in ('zred', 'zred2'):
        d = (out[zk] - out['z'])[inner]
        e = out[zk + '_e'][inner]
        rms = 1.4826*np.median(np.abs(d - np.median(d)))
        require(abs(np.median(d)) < 6*rms/np.sqrt(d.size) + 0.0015, '%s is off by %g (scatter %g)', zk, np.median(d), rms)
        pull = 1.4826*np.median(np.abs(d/e))
        require(0.55 < pull < 1.7, 'errors of %s: pulls have width %g', zk, pull)
    # the model file reads back and gives the same redshifts
    zr = RedSequenceColorPar('pars.fit')
    zi = zr.zindex(zz)
    require(np.allclose(zr.c[zi, 0], W.natural_spline(t['z00'].astype('f8'), t['c00'].astype('f8'), zr.z[zi]), atol=1e-4), 'colours read back')
    # a second calibration ignores what the first one left, and galaxies failing the cuts
    if case['again']:
        fitsio.write(name + '.fit', np.concatenate([g, spoiled(case, g, rs, case['nbad'], 3.0)]), clobber=True)
        if case['again'] == 2:
            os.remove('pars.fit')
            os.remove(name + '_zreds.fit')
        else:
            # an old model of another sample
            w = fitsio.FITS('pars.fit', 'rw')
            old = w[1].read()
            old['c00'] += 0.3
            old['c01'] -= 0.2
            w[1].write(old)
            w.close()
        np.random.seed(case['seed'])
        cf = conf(case)
        t2, _ = run(cf, name + '.fit')
        for k in t.dtype.names:
            require(np.array_equal(t[k], t2[k]), '%s differs in a second calibration', k)
        out2 = fitsio.read(name + '_zreds.fit', ext=1, lower=True)
        require(out2.size == out.size and np.array_equal(out2['zred'], out['zred']), 'redshifts differ in a second calibration')
    return 'recovered%s' % ['', '+rerun', '+fresh'][case['again']]


class Crash(Exception):
    pass


def t_crash(case):
    """A calibration which dies leaves no model, or the complete one."""
    rs = np.random.RandomState(case['seed'])
    g = sample(case, rs)
    fitsio.write('gals.fit', g, clobber=True)
    cf = conf(case)
    count = [0]
    real = fitsio.write

    def dying(fn, *a, **k):
        count[0] += 1
        if count[0] == case['at'] and case['when'] == 'before':
            raise Crash
        out = real(fn, *a, **k)
        if count[0] == case['at']:
            raise Crash
        return out
    fitsio.write = dying
    try:
        RedSequenceCalibrator(cf, 'gals.fit').run(doRaise=False)
        died = False
    except Crash:
        died = True
    finally:
        fitsio.write = real
    if not died:
        return 'trivial-finished'
    if not os.path.exists('pars.fit'):
        return 'no-model'
    t = fitsio.read('pars.fit', ext=1, lower=True)[0]
    require(np.all(t['corr_r'] > 0) and np.any(t['corr'] != 0), 'an interrupted calibration left a model without corrections')
    return 'model'


def t_none(case):
    rs = np.random.RandomState(case['seed'])
    g = sample(dict(case, n=60), rs)
    fitsio.write('gals.fit', spoiled(case, g, rs, 30, 0.0), clobber=True)
    cf = conf(case)
    try:
        RedSequenceCalibrator(cf, 'gals.fit').run(doRaise=False)
    except RuntimeError:
        require(not os.path.exists('pars.fit'), 'a model of no galaxies')
        return 'refused'
    require(False, 'calibrated on no galaxies')


base = dict(seed=st.integers(1, 2**20), zrange=st.sampled_from([(0.12, 0.22), (0.15, 0.35), (0.2, 0.32)]), n=st.sampled_from([600, 1000]), tilt=st.sampled_from([0.8, 1.0, 1.2]),
            slope=st.tuples(st.sampled_from([-0.05, -0.02]), st.sampled_from([-0.03, -0.01])), sigma=st.tuples(st.sampled_from([0.03, 0.05]), st.sampled_from([0.02, 0.03])),
            corr=st.sampled_from([0.9, 0.6, 0.3]), pcol=st.booleans(), nocorrslope=st.booleans(), alpha=st.sampled_from([-1.0, -0.8]), b=st.sampled_from([0.0, 0.0, 3e-10]))
s1 = st.fixed_dictionaries(dict(base, name=st.sampled_from(['gals', 'members_first', 'a.fit', 'tif']), nbad=st.sampled_from([3, 30]), again=st.sampled_from([0, 0, 1, 2])))
s2 = st.fixed_dictionaries(dict(base, n=st.just(300), at=st.integers(1, 3), when=st.sampled_from(['before', 'after'])))
s3 = st.fixed_dictionaries(base)
TESTS = ([T('model-%d' % i, s1, t_model, 3, 60, 'a model was calibrated; label: whether it was repeated') for i in range(6)] +
         [T('crash', s2, t_crash, 5, 60, 'label: what the interrupted run left'), T('none', s3, t_none, 10, 50, 'no galaxy passes the cuts')])
