"""C18: redshift corrections."""
import numpy as np
import fitsio
from scipy.integrate import simpson
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from props import c16
from redmapper.catalog import Entry
from redmapper.zlambda import ZlambdaCorrectionPar

ASSUMPTIONS = ['node tables are stored in single precision: redshifts are compared within 2e-6']
NAMES = ('offset_true', 'slope_true', 'scatter_true')


def table(case):
    rs = np.random.RandomState(case['seed'])
    zr = case['zrange']
    no, ns, k = case['no'], case['ns'], case['niter']
    lo, hi = zr[0] + case['inset'][0], zr[1] - case['inset'][1]
    oz, sz = np.linspace(lo, hi, no), np.linspace(lo, hi, ns)
    if case['uneven']:
        oz[1:-1] += rs.uniform(-0.2, 0.2, no - 2)*(oz[1] - oz[0])
    vec = k > 1 or case['form'] == 'vector'
    shape = lambda n: (n, k) if vec else n
    dt = [('offset_z', 'f4', no), ('offset', 'f4', no), ('offset_true', 'f4', shape(no)), ('slope_z', 'f4', ns), ('slope', 'f4', ns), ('slope_true', 'f4', shape(ns)),
          ('scatter', 'f4', ns), ('scatter_true', 'f4', shape(ns)), ('zred_uncorr', 'f4', no)]
    if vec or case['form'] == 'scalar':
        dt = [('niter_true', 'i4')] + dt
    t = np.zeros(1, dtype=dt)
    t['offset_z'], t['slope_z'] = oz, sz
    t['offset_true'], t['slope_true'] = rs.normal(0, case['size'], t['offset_true'].shape), rs.normal(0, case['size']/3, t['slope_true'].shape)
    t['scatter_true'] = rs.uniform(-0.002 if case['size'] else -0.01, case['size'], t['scatter_true'].shape) if case['size'] else 0
    t['offset'], t['slope'], t['scatter'] = 7., 7., 7.
    t['zred_uncorr'] = oz + rs.normal(0, 0.01, no)
    if 'niter_true' in t.dtype.names:
        t['niter_true'] = k
    hdr = fitsio.FITSHDR()
    for a, b in (('ZRANGE0', zr[0]), ('ZRANGE1', zr[1]), ('ZBINSIZE', case['binsize']), ('ZLAMPIV', case['pivot'])):
        hdr[a] = b
    return t, hdr


def reference(case, t, lam, z, e, bins=None, pz=None, noerr=False, pivot=None):
    zr, k = case['zrange'], case['niter']
    nb = int(round((zr[1] - zr[0])/case['binsize']))
    zg = zr[0] + case['binsize']*np.arange(nb)
    col = lambda n, i: np.asarray(t[n][0], 'f8').reshape(t[n][0].shape[0], -1)[:, i]
    for i in range(k):
        off = W.natural_spline(t['offset_z'][0], col('offset_true', i), zg)
        slo = W.natural_spline(t['slope_z'][0], col('slope_true', i), zg)
        sca = np.clip(W.natural_spline(t['slope_z'][0], col('scatter_true', i), zg), 0.001, None)
        dz = np.interp(z, zg, off + slo*np.log(lam/(pivot or case['pivot'])))
        x = np.interp(z, zg, sca)
        new = np.sqrt(e**2 + x**2)
        if bins is not None:
            # the grid moves with the redshift and widens with the error
            n = bins.size
            mid = bins[(n - 1)//2]
            d = (bins[1] - bins[0])*new/e
            bins = mid + dz + d*(np.arange(n) - (n - 1)/2.)
        z = z + dz
        if not noerr or bins is not None:
            e = new
    if bins is not None:
        pz = pz/simpson(y=pz, x=bins)
    return z, e, bins, pz


def check(case):
    t, hdr = table(case)
    if case['file']:
        fitsio.write('corr.fit', t, header=hdr, clobber=True)
        cor = ZlambdaCorrectionPar(parfile='corr.fit') if not case['over'] else ZlambdaCorrectionPar(parfile='corr.fit', zlambda_pivot=case['over'])
    else:
        cor = ZlambdaCorrectionPar(pars=Entry(t.copy()), zrange=case['zrange'], zbinsize=case['binsize'], zlambda_pivot=case['over'] or case['pivot'])
    pivot = case['over'] or case['pivot']
    rs = np.random.RandomState(case['seed'] + 1)
    done = 0
    bins0 = []
    for lam, z, e, mode, npz in case['clusters']:
        if mode in ('pz', 'f4'):
            dz = 4*e
            b = z + rs.uniform(-0.1, 0.1)*e + dz*(np.arange(npz) - (npz - 1)/2.)/((npz - 1)/2.)
            p = np.exp(-0.5*((b - z)/e)**2)*rs.uniform(0.5, 1, npz)*3.0
            if mode == 'f4':
                b, p = b.astype('f4'), p.astype('f4')
            b0, p0 = b.copy(), p.copy()
            got = cor.apply_correction(lam, z, e, pzbins=b, pzvals=p)
            require(np.array_equal(b, b0) and np.array_equal(p, p0), 'the p(z) passed in was changed')
            want = reference(case, t, lam, z, e, b0.astype('f8'), p0.astype('f8'), pivot=pivot)
            require(len(got) == 4, 'four values with p(z)')
            tol = 1e-5 if mode == 'f4' else 2e-6
            require(np.allclose(got[2], want[2], rtol=0, atol=tol + 2e-4*(want[2][1] - want[2][0])), 'p(z) bins %s instead of %s', got[2][:2], want[2][:2])
            require(np.allclose(got[3], want[3], rtol=1e-3 if mode == 'f4' else 1e-4), 'p(z) values')
            require(abs(simpson(y=got[3], x=got[2]) - 1) < (1e-4 if mode == 'f4' else 1e-8), 'p(z) is not normalised: %g', simpson(y=got[3], x=got[2]))
        elif mode == 'noerr':
            got = cor.apply_correction(lam, z, e, noerr=True)
            want = reference(case, t, lam, z, e, noerr=True, pivot=pivot)
            require(len(got) == 2 and got[1] == e, 'error changed without error correction')
        else:
            got = cor.apply_correction(lam, z, e)
            want = reference(case, t, lam, z, e, pivot=pivot)
            require(len(got) == 2, 'two values without p(z)')
        require(abs(got[0] - want[0]) < 2e-6, 'redshift %.7f corrected to %.7f, expected %.7f (richness %g)', z, got[0], want[0], lam)
        require(abs(got[1] - want[1]) < 2e-6, 'error %g corrected to %g, expected %g', e, got[1], want[1])
        if case['size'] == 0:
            require(abs(got[0] - z) < 1e-9, 'a null correction moved the redshift')
        done += abs(want[0] - z) > 1e-4
    out = (cor.z < t['offset_z'][0][0]) | (cor.z > t['offset_z'][0][-1])
    require(np.array_equal(np.asarray(cor.extrapolated), out), 'extrapolated redshifts')
    require(np.allclose(cor.zred_uncorr, W.natural_spline(t['offset_z'][0], t['zred_uncorr'][0], cor.z), atol=2e-6), 'mean uncorrected redshift')
    return 'shifted' if done else 'trivial-null'


def check_run(case):
    """A percolation run stores the corrected redshifts."""
    t, hdr = table(case['cal'])
    fitsio.write('corr.fit', t, header=hdr, clobber=True)
    calls = []
    orig = ZlambdaCorrectionPar.apply_correction

    def spy(self, lam, zlam, zlam_e, *a, **k):
        calls.append((float(lam), float(zlam), float(zlam_e), np.array(k.get('pzbins'), 'f8'), np.array(k.get('pzvals'), 'f8')))
        return orig(self, lam, zlam, zlam_e, *a, **k)
    ZlambdaCorrectionPar.apply_correction = spy
    try:
        s, conf, g, c, r, log, hole = c16.run(dict(case, clusters=[dict(n=case['n'], dx=0., dy=0., dz=0., extra=0)], holes=0.0, spoil=[], ids=False), zlambdafile='corr.fit', zlambda_pivot=case['cal']['pivot'])
    finally:
        ZlambdaCorrectionPar.apply_correction = orig
    if r.cat is None or r.cat.size == 0:
        return 'trivial-none'
    require(r.cat.size == 1 and len(calls) == 1, 'the correction is applied %d times to %d clusters', len(calls), r.cat.size)
    lam, z, e, b, p = calls[0]
    cl = r.cat[0]
    if b.ndim == 0:
        b = p = None
    want = reference(case['cal'], t, lam, z, e, b, p)
    require(abs(float(cl.Lambda) - lam) < 1e-4*lam, 'richness')
    require(abs(float(cl.z_lambda) - want[0]) < 2e-6 and abs(float(cl.z_lambda_e) - want[1]) < 2e-6, 'catalogue redshift %g +- %g, expected %g +- %g', cl.z_lambda, cl.z_lambda_e, want[0], want[1])
    require(b is not None and np.allclose(cl.pzbins, want[2], atol=1e-5) and np.allclose(cl.pz, want[3], rtol=2e-3), 'catalogue p(z)')
    # the correction changes the redshift only: members stay at the redshift of the measurement
    require(np.allclose(r.members.z, float(cl.z) if case['keepz'] else z, atol=1e-6), 'member redshifts')
    return 'corrected'


cal = dict(seed=st.integers(1, 2**20), zrange=st.sampled_from([[0.1, 0.4], [0.05, 0.6]]), no=st.integers(3, 8), ns=st.integers(3, 6), niter=st.sampled_from([1, 1, 2, 3]),
           form=st.sampled_from(['plain', 'scalar', 'vector']), inset=st.tuples(st.sampled_from([0.0, 0.03]), st.sampled_from([0.0, 0.03])), uneven=st.booleans(),
           size=st.sampled_from([0.01, 0.005, 0.0]), binsize=st.sampled_from([0.002, 0.001, 0.01]), pivot=st.sampled_from([30.0, 40.0, 20.0]))
clusters = st.lists(st.tuples(st.floats(3, 300), st.floats(0.03, 0.65), st.floats(0.002, 0.05), st.sampled_from(['pz', 'pz', 'f4', 'plain', 'noerr']), st.sampled_from([21, 11, 31])), min_size=1, max_size=4)
cases = st.fixed_dictionaries(dict(cal, file=st.booleans(), over=st.sampled_from([None, None, 25.0]), clusters=clusters))
runs = st.fixed_dictionaries(dict(
    cal=st.fixed_dictionaries(dict(cal, zrange=st.just([0.1, 0.4]), size=st.just(0.004))), n=st.integers(20, 45),
    seed=st.integers(1, 2**20), where=st.sampled_from(['mid', 'wrap']), z=st.sampled_from([0.2, 0.25, 0.3]), nfield=st.integers(20, 80), nside=st.just(4),
    niter=st.sampled_from([2, 1]), rmask0=st.just(1.5), lmask=st.just(0.1), minlam=st.just(3.0), center=st.just('CenteringBCG'), cut=st.just(0.5), gamma=st.just(0.0),
    memradius=st.none(), depth=st.booleans(), keepz=st.sampled_from([False, False, True]), write=st.just(False)))

TESTS = [T('corrections', cases, check, quick=250, thorough=20000, rule='at least one cluster is moved by more than 1e-4'),
         T('run', runs, check_run, quick=10, thorough=400, rule='the run produced a corrected cluster')]
