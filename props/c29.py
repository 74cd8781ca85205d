"""C29: depth fitting and the photometric error model."""
import numpy as np
from scipy import stats
from hypothesis import strategies as st

from vp.core import T, require, Violation
import redmapper
from redmapper import depth_fitting as D
from redmapper import utilities as U
from redmapper import Catalog

ASSUMPTIONS = ['a sample spans at least two magnitudes on both sides of the signal-to-noise cut', 'a single fit may give up: at most four of six the samples of a case',
               'the exposure time is compared only where the source noise matters (sky below five times the limiting flux)']
CONST = 2.5/np.log(10.)


def law(mag, lim, t, zp, nsig):
    """fractional flux error times 2.5/ln 10, from the definition: S/N = nsig at lim, noise^2 = sky*t + counts."""
    counts = t*10.**(-0.4*(mag - zp))
    clim = t*10.**(-0.4*(lim - zp))
    sky = (clim/nsig)**2 - clim
    return CONST*np.sqrt(sky + counts)/counts


def draw(rs, case):
    while True:
        zp = 22.5 if rs.uniform() < 0.4 else rs.uniform(20, 30)
        nsig = float(rs.choice([5., 8., 10., 20.]))
        lim = zp - 22.5 + rs.uniform(17, 24.5)
        t = np.exp(rs.uniform(np.log(2), np.log(5000)))/10**((zp - 22.5)/2.5)
        ratio = 10**(-0.4*(lim - zp))*t/nsig**2 - 1
        if ratio > 0.02:
            break
    n = int(rs.choice([20, 50, 100, 300]))
    mag = lim - rs.exponential(1.2, n) + 0.7
    if case['bright']:
        mag[rs.uniform(size=n) < 0.2] -= 3
    return zp, nsig, lim, t, ratio, mag


def used(mag, err, sncut=5.0):
    """The galaxies the fit is defined on: good, below the 98th percentile and above the signal-to-noise cut."""
    return (mag < np.sort(mag)[int(0.98*mag.size)]) & (err < CONST/sncut)


def consistent(p, zp, nsig, f=D.applyErrorModel):
    require(p.size == 1 and abs(p['ZP'][0] - zp) < 1e-5 and abs(p['NSIG'][0] - nsig) < 1e-5, 'zero point or signal to noise of the model')
    fl = 10**(-0.4*(float(p['LIMMAG'][0]) - zp))
    require(abs(p['FLUX1_LIM'][0]/fl - 1) < 1e-5, 'limiting flux %s is not that of the limiting magnitude %s', p['FLUX1_LIM'][0], fl)
    sky = fl**2*float(p['EXPTIME'][0])/nsig**2 - fl
    require(abs(p['FSKY1'][0] - sky) <= 2e-5*(sky + fl) and p['FSKY1'][0] >= -2e-5*fl, 'sky level %s is not %s', p['FSKY1'][0], sky)
    m, e = f(p, np.array([float(p['LIMMAG'][0])]), noNoise=True)
    require(abs(m[0] - p['LIMMAG'][0]) < 1e-4 and abs(e[0]*nsig/CONST - 1) < 2e-3, 'error at the limiting magnitude %s, expected %s', e[0], CONST/nsig)


def t_fit(case):
    rs = np.random.RandomState(case['seed'])
    fails, done, nexp, off = 0, 0, 0, []
    for k in range(6):
        zp, nsig, lim, t, ratio, mag = draw(rs, case)
        err = law(mag, lim, t, zp, nsig)
        clean = err.copy()
        if case['noise']:
            err = err*np.exp(case['noise']*rs.normal(size=mag.size))
        if case['out'] and k % 2:
            o = rs.uniform(size=mag.size) < 0.08
            err[o] *= 3
        keep = (mag.copy(), err.copy())
        if case['f4']:
            mag, err = mag.astype('f4').astype('f8'), err.astype('f4').astype('f8')
            keep = (mag.copy(), err.copy())
        kw = {} if (zp == 22.5 and nsig == 10. and k % 2) else dict(zp=zp, nSig=nsig)
        p, fail = D.calcErrorModel(mag, err, **kw)
        require(np.array_equal(mag, keep[0]) and np.array_equal(err, keep[1]), 'the fit changed its input')
        ok = used(mag, err)
        if ok.sum() < 5:
            continue
        if fail:
            fails += 1
            continue
        done += 1
        consistent(p, zp, nsig)
        L, E = float(p['LIMMAG'][0]), float(p['EXPTIME'][0])
        model = law(mag, L, E, zp, nsig)
        res = np.abs(model - err)
        # no worse than the true model, over the galaxies that define the fit
        best = np.abs(clean - err)[ok]
        slack = 5e-3 + 0.1*best.mean()
        require(res[ok].mean() <= best.mean() + slack, 'mean error residual %s, the true model has %s', res[ok].mean(), best.mean())
        width = {0.0: 0.08, 0.02: 0.1, 0.06: 0.3}[case['noise']] if not case['out'] else 0.35
        around = (err[ok] < CONST/nsig).sum() >= 3 and (err[ok] > CONST/nsig).sum() >= 3
        if ok.sum() >= 20 and (around or not (case['noise'] or case['out'])):
            require(abs(L - lim) < width, 'limiting magnitude %s from galaxies of limiting magnitude %s', L, lim)
        if ok.sum() >= 20:
            off.append(abs(L - lim))
        if not case['noise'] and not case['out'] and ratio < 5 and ok.sum() >= 40:
            nexp += 1
            if abs(np.log(E/t)) > 0.8:
                raise Violation('exposure time %s from galaxies of exposure time %s' % (E, t))
        # reported fraction of outliers
        d = np.abs(res[ok] - 0.005) < 2e-4
        out = (res[ok] > 0.005)
        require((out & ~d).sum() - 1e-3 <= p['FRAC_OUT'][0]*ok.sum() <= (out | d).sum() + 1e-3, 'outlier fraction %s, expected %s', p['FRAC_OUT'][0], out.mean())
        # the error model applied
        m2, e2 = D.applyErrorModel(p, mag, noNoise=True)
        require(np.allclose(m2, mag, atol=2e-5) and np.allclose(e2, model, rtol=2e-3), 'noise-free application of the model')
        # order, bad entries, layout
        q = rs.permutation(mag.size)
        bad = np.array([[np.nan, 0.1], [20., np.nan], [np.inf, 0.1], [-np.inf, 0.1], [20., -0.1], [20., 0.0], [20., np.inf]])
        bad = bad[rs.randint(0, 7, rs.randint(1, 30))]
        at = np.sort(rs.randint(0, mag.size + 1, len(bad)))
        bm, be = np.insert(mag, at, bad[:, 0]), np.insert(err, at, bad[:, 1])
        pb, fb = D.calcErrorModel(bm, be, **kw)
        require(not fb and all(np.array_equal(pb[c], p[c]) for c in p.dtype.names), 'unusable entries change the fit: %s %s', pb, p)
        pp, fp = D.calcErrorModel(mag[q], err[q], **kw)
        if not fp:
            r2 = np.abs(law(mag, float(pp['LIMMAG'][0]), float(pp['EXPTIME'][0]), zp, nsig) - err)[ok]
            require(abs(r2.mean() - res[ok].mean()) <= slack, 'order of the galaxies changes the fit')
    require(fails <= 4, '%d of 6 fits failed', fails)
    if len(off) >= 4 and not case['noise']:
        require(np.median(off) < 0.02, 'typical offset of the limiting magnitude %s', np.median(off))
    return 'exposure' if nexp else ('fit' if done else False)


FIT = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'noise': st.sampled_from([0.0, 0.0, 0.02, 0.06]), 'out': st.booleans(), 'bright': st.booleans(), 'f4': st.booleans()})


def t_apply(case):
    rs = np.random.RandomState(case['seed'])
    n = 2000
    pulls, scat = [], []
    zp, nsig, lim, t, ratio, _ = draw(rs, case)
    p, fail = None, 1
    mag0 = lim - rs.exponential(1.2, 200) + 0.7
    p, fail = D.calcErrorModel(mag0, law(mag0, lim, t, zp, nsig), zp=zp, nSig=nsig)
    if fail:
        return False
    L, E = float(p['LIMMAG'][0]), float(p['EXPTIME'][0])
    mag = rs.uniform(L - 3, L + 0.3 if nsig > 7 else L - 0.5, n)
    sig = law(mag, L, E, zp, nsig)/CONST          # relative flux error
    np.random.seed(case['seed'] % (2**32))
    m, e = D.applyErrorModel(p, mag, lnscat=case['lnscat'])
    require(m.shape == mag.shape and e.shape == mag.shape, 'shape of the noisy magnitudes')
    ratio = 10**(-0.4*(m - mag))                  # noisy flux over true flux
    g = np.isfinite(m)
    require(g.sum() > 0.99*n, '%d of %d bright objects have no magnitude', n - g.sum(), n)
    noise = e*ratio/CONST                         # noise used, relative to the true flux
    if case['lnscat'] is None:
        require(np.allclose(noise[g], sig[g], rtol=1e-3), 'error is not that of the model')
    else:
        z = np.log(noise[g]/sig[g])/case['lnscat']
        require(stats.kstest(z, 'norm').statistic < 3.2/np.sqrt(g.sum()), 'scatter of the errors is not log-normal')
    z = (ratio[g] - 1)/noise[g]
    require(stats.kstest(z, 'norm').statistic < 3.2/np.sqrt(g.sum()), 'noise is not of unit normal size: mean %s sd %s', z.mean(), z.std())
    lag = np.mean(z[1:]*z[:-1])
    require(abs(lag) < 6/np.sqrt(n), 'noise of neighbouring objects is correlated (%s)', lag)
    np.random.seed(case['seed'] % (2**32))
    m2, e2 = D.applyErrorModel(p, mag, lnscat=case['lnscat'])
    require(np.array_equal(m, m2, equal_nan=True) and np.array_equal(e, e2, equal_nan=True), 'noise not set by the random state')
    m3, e3 = D.applyErrorModel(p, mag, noNoise=True)
    require(np.allclose(m3, mag, atol=2e-5) and np.allclose(e3, CONST*sig, rtol=2e-3), 'noise-free errors')
    # round trip: errors of the noisy objects give the model back
    if case['lnscat'] is None:
        b = g & (e > 0)
        pr, fr = D.calcErrorModel(m[b], e[b], zp=zp, nSig=nsig)
        if not fr:
            require(abs(float(pr['LIMMAG'][0]) - L) < 0.05 or nsig < 7, 'noisy galaxies give limiting magnitude %s instead of %s', pr['LIMMAG'][0], L)
    return 'scatter' if case['lnscat'] else 'plain'


APPLY = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'lnscat': st.sampled_from([None, None, 0.05, 0.2]), 'bright': st.just(False)})


def t_boot(case):
    rs = np.random.RandomState(case['seed'])
    for _ in range(50):
        zp, nsig, lim, t, ratio, mag = draw(rs, case)
        if ratio < 30 and mag.size >= 50:
            break
    err = law(mag, lim, t, zp, nsig)*np.exp(case['noise']*rs.normal(size=mag.size))
    p, fail = D.calcErrorModel(mag, err, zp=zp, nSig=nsig)
    if fail or used(mag, err).sum() < 20:
        return False
    np.random.seed(case['seed'] % 2**32)
    b, fail = D.calcErrorModel(mag, err, zp=zp, nSig=nsig, calcErr=True, nTrial=case['ntrial'])
    require(not fail and all(np.array_equal(b[c], p[c]) for c in p.dtype.names if not c.endswith('_ERR')), 'asking for errors changes the fit')
    require(np.isfinite(b['LIMMAG_ERR'][0]) and b['LIMMAG_ERR'][0] >= 0 and np.isfinite(b['EXPTIME_ERR'][0]) and b['EXPTIME_ERR'][0] >= 0, 'uncertainties %s %s', b['LIMMAG_ERR'], b['EXPTIME_ERR'])
    require(p['LIMMAG_ERR'][0] == 0 and p['EXPTIME_ERR'][0] == 0, 'uncertainties without being asked for')
    require(b['LIMMAG_ERR'][0] < (0.02 if case['noise'] == 0 else 0.3), 'limiting magnitude uncertainty %s', b['LIMMAG_ERR'][0])
    if case['noise'] >= 0.03:
        require(b['LIMMAG_ERR'][0] > 1e-5 and b['EXPTIME_ERR'][0] > 0, 'no uncertainty for noisy errors')
    np.random.seed(case['seed'] % 2**32)
    u, fail = D.calcErrorModel(mag, err, zp=zp, nSig=nsig, calcErr=True, nTrial=case['ntrial'], useBoot=True)
    require(not fail and np.array_equal(u['LIMMAG_ERR'], b['LIMMAG_ERR']) and np.array_equal(u['EXPTIME_ERR'], b['EXPTIME_ERR']), 'bootstrap uncertainties')
    require(abs(u['LIMMAG'][0] - p['LIMMAG'][0]) < 0.01 + 4*b['LIMMAG_ERR'][0], 'bootstrap limiting magnitude %s, fit %s', u['LIMMAG'][0], p['LIMMAG'][0])
    consistent(u, zp, nsig)
    return 'noisy' if case['noise'] else 'exact'


BOOT = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'noise': st.sampled_from([0.0, 0.03, 0.06]), 'ntrial': st.sampled_from([20, 33]), 'bright': st.booleans()})


def t_lim(case):
    """DepthLim: survey-wide fit, local fits and their fallback."""
    rs = np.random.RandomState(case['seed'])
    while True:
        zp, nsig, lim, t, ratio, mag = draw(rs, case)
        if mag.size >= 50:
            break
    lim, t, zp, nsig = lim - zp + 22.5, t*10**((zp - 22.5)/2.5), 22.5, 10.
    if 10**(-0.4*(lim - zp))*t/nsig**2 < 1.02:
        t = 2*nsig**2*10**(0.4*(lim - zp))
    n = int(rs.choice([60, 200, 1000]))
    mag = lim - rs.exponential(1.2, n) + 0.7
    err = law(mag, lim, t, zp, nsig)
    if case['kind'] == 'hopeless':
        which = rs.randint(3)
        if which == 0:
            err = err*0 + 5.0
        elif which == 1:
            mag = mag*0 + 20.
        else:
            err = -err
        if rs.uniform() < 0.2:
            mag, err = mag[:0], err[:0]
        try:
            D.DepthLim(mag, err)
        except RuntimeError:
            return 'hopeless'
        raise Violation('no failure reported for galaxies without a possible fit')
    kw = {}
    if case['sub']:
        kw['max_gals'] = int(0.5*n)
    cm, ce = mag.copy(), err.copy()
    try:
        dl = redmapper.DepthLim(mag, err, **kw)
    except RuntimeError:
        return False
    require(np.array_equal(cm, mag) and np.array_equal(ce, err), 'input changed')
    i = dl.initpars
    if not case['sub']:
        p, _ = D.calcErrorModel(mag, err)
        require(all(np.array_equal(i[c], p[c]) for c in p.dtype.names), 'survey-wide fit is not the fit of all the galaxies')
    consistent(i, 22.5, 10.)
    require(abs(i['LIMMAG'][0] - lim) < 0.05, 'limiting magnitude %s instead of %s', i['LIMMAG'][0], lim)
    mg = Catalog(np.zeros(rs.randint(2, 40), dtype=[('limmag', 'f4'), ('exptime', 'f4'), ('zp', 'f4'), ('nsig', 'f4'), ('m', 'f4'), ('m50', 'f4'), ('refmag', 'f4')]))
    labels = set()
    for _ in range(4):
        for c in ('limmag', 'exptime', 'zp', 'nsig', 'm', 'm50', 'refmag'):
            getattr(mg, c)[:] = rs.uniform(-5, 5, mg.size)
        before = mg._ndarray.copy()
        k = rs.randint(5)
        l2, t2 = lim + rs.uniform(-0.5, 0.5), t*rs.uniform(0.5, 2)
        if 10**(-0.4*(l2 - zp))*t2/nsig**2 < 1.02:
            l2, t2 = lim, t
        nn = rs.randint(50, 200)
        m2 = l2 - rs.exponential(1.2, nn) + 0.7
        e2 = law(m2, l2, t2, zp, nsig)
        if k == 1:
            m2, e2 = m2[:1], e2[:1]
        elif k == 2:
            e2 = e2*0 - 1.
        elif k == 3:
            m2, e2 = m2[:0], e2[:0]
        p, fail = D.calcErrorModel(m2, e2)
        require(k not in (1, 2, 3) or fail, 'a fit is reported where there is nothing to fit')
        dl.calc_maskdepth(mg, m2, e2)
        src = i if fail else p
        labels.add('fallback' if fail else 'local')
        require(np.all(mg.limmag == src['LIMMAG'][0]) and np.all(mg.exptime == src['EXPTIME'][0]), 'mask points get depth %s, the %s fit is %s', mg.limmag[0], 'survey' if fail else 'local', src['LIMMAG'][0])
        require(mg.zp[0] == src['ZP'][0] and mg.nsig[0] == src['NSIG'][0], 'zero point or signal to noise of the mask points')
        require(all(np.array_equal(getattr(mg, c), before[c]) for c in ('m', 'm50', 'refmag')), 'other mask point columns changed')
        if not fail:
            require(abs(mg.limmag[0] - l2) < 0.06, 'local limiting magnitude %s instead of %s', mg.limmag[0], l2)
        # the mask points' error model is the fitted one
        mm = rs.uniform(float(src['LIMMAG'][0]) - 3, float(src['LIMMAG'][0]) + 0.5, mg.size)
        a, b = U.apply_errormodels(mg, mm, nonoise=True)
        fl = 10**(-0.4*(float(src['LIMMAG'][0]) - 22.5))
        if src['FSKY1'][0] > 1e-3 + 1e-3*fl:
            require(np.allclose(b, law(mm, float(src['LIMMAG'][0]), float(src['EXPTIME'][0]), 22.5, 10.), rtol=5e-3), 'errors of the mask points are not those of the fit')
    return '-'.join(sorted(labels))


LIM = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'kind': st.sampled_from(['good'] * 4 + ['hopeless']), 'sub': st.booleans(), 'bright': st.booleans()})

TESTS = [
    T('fit-0', FIT, t_fit, 60, 1500, 'recovery, optimality, self-consistency; label: whether the exposure time is determined'),
    T('fit-1', FIT, t_fit, 60, 1500, 'recovery, optimality, self-consistency; label: whether the exposure time is determined'),
    T('apply', APPLY, t_apply, 80, 2000, 'distribution of the simulated noise'),
    T('bootstrap', BOOT, t_boot, 12, 200, 'uncertainties'),
    T('survey', LIM, t_lim, 60, 1500, 'survey-wide and local depth; label: which fit the mask points got'),
]
