"""C32: calibration of the redshift correction and of the centring model."""
import os
import numpy as np
import fitsio
from scipy.optimize import minimize
from scipy.stats import chi2, norm
from hypothesis import strategies as st

from vp.core import T, require
from vp import synth as S, world as W
from redmapper.calibration import ZLambdaCalibrator, WcenCalibrator
from redmapper.calibration.zlambdacal import ZLambdaFitter
from redmapper.zlambda import ZlambdaCorrectionPar
from redmapper.galaxy import GalaxyCatalog
from redmapper.utilities import make_nodes

ASSUMPTIONS = ['statistical recovery is judged at six standard errors of the sample plus the spline and minimiser tolerance',
               'red-sequence magnitudes, chi-squared and background densities are taken from the model objects (C03, C04, C06)']


def zcat(case, rs):
    """Clusters with a spectroscopic redshift and a biased photometric one."""
    lo, hi = case['zrange']
    n = case['n']
    z = np.concatenate([np.linspace(lo + 1e-3, hi - 1e-3, n//2), rs.uniform(lo, hi, n - n//2)])
    c = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_spec_init', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'),
                           ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('zred', 'f4')])
    c['z'], c['z_spec_init'] = rs.uniform(lo, hi, n), z
    c['scaleval'] = 1.0 if case['slope'] else rs.uniform(1, 2, n)
    c['lambda'] = 20.5*(1 + rs.exponential(1.0, n))*c['scaleval']
    c['maskfrac'] = rs.uniform(0, 0.19, n)
    c['z_lambda_e'] = case['err']*rs.uniform(0.7, 1.3, n)
    dz = planted(case, z) + case['slope']*np.log(c['lambda']/c['scaleval']/30.)
    sig = np.hypot(c['z_lambda_e'], case['scatter'])
    c['z_lambda'] = z - dz + sig*np.clip(rs.normal(size=n), -2.5, 2.5)
    c['zred'] = c['z_lambda'] + case['zoff'] + rs.normal(size=n)*0.004
    c['mem_match_id'] = np.arange(n)
    return c


def planted(case, z):
    lo, hi = case['zrange']
    x = (z - lo)/(hi - lo)
    a, b, q = case['bias']
    return a + b*(x - 0.5) + q*((x - 0.5)**2 - 1/12.)


def spoil(c, rs, k, how):
    """Clusters the cuts remove, with absurd redshifts."""
    b = c[rs.randint(0, c.size, k)].copy()
    b['z_lambda'] = b['z_spec_init'] + how*0.003*np.sign(rs.normal(size=k))
    b['z_lambda_e'] = 0.02
    b['zred'] = 0.05
    kind = np.arange(k) % 4
    b['lambda'][kind == 0] = 19.9*b['scaleval'][kind == 0]
    b['scaleval'][kind == 1] = -1.0
    b['scaleval'][kind == 2], b['lambda'][kind == 2] = 0.0, 100.
    b['maskfrac'][kind == 3] = 0.2 + 0.3*rs.uniform(size=(kind == 3).sum())
    return b


def zconf(case):
    return S.conf(S.survey(), zrange=list(case['zrange']), catfile='cat.fit', zlambdafile='zl.fit', calib_zlambda_correct_niter=case['niter'],
                  calib_zlambda_nodesize=case['node'], calib_zlambda_slope_nodesize=case['snode'], zlambda_pivot=30.0, max_maskfrac=0.2)


def zrun(case, c):
    fitsio.write('cat.fit', c, clobber=True)
    if os.path.exists('zl.fit'):
        os.remove('zl.fit')
    conf = zconf(case)
    ZLambdaCalibrator(conf, corrslope=bool(case['slope'])).run()
    return conf, fitsio.read('zl.fit', ext=1, lower=True)


def t_zlambda(case):
    rs = np.random.RandomState(case['seed'])
    c = zcat(case, rs)
    lo, hi = case['zrange']
    nodes = make_nodes(case['zrange'], case['node'])
    if case['gap']:
        k = rs.randint(nodes.size - 1)
        inside = (c['z_spec_init'] >= nodes[k]) & (c['z_spec_init'] <= nodes[k+1])
        c['lambda'][inside] = 19.0*c['scaleval'][inside]
        try:
            zrun(case, c)
        except RuntimeError:
            require(not os.path.exists('zl.fit'), 'a refused calibration wrote a file')
            return 'refused'
        require(False, 'calibrated across a redshift range without spectra')
    bad = spoil(c, rs, case['nbad'], 1.0)
    both = np.concatenate([c, bad])
    conf, t = zrun(case, both)
    t = t[0]
    # clusters which fail the cuts play no part
    conf, t2 = zrun(case, np.concatenate([c, spoil(c, rs, case['nbad'], 40.0)]))
    for k in t.dtype.names:
        require(np.array_equal(t[k], t2[0][k]), '%s depends on clusters that fail the cuts', k)
    hdr = fitsio.read_header('zl.fit', ext=1)
    for k, v in (('ZRANGE0', lo - 0.02), ('ZRANGE1', hi + 0.07), ('ZBINSIZE', conf.zlambda_binsize), ('ZLAMPIV', 30.0)):
        require(abs(hdr[k] - v) < 1e-9, 'header %s is %g', k, hdr[k])
    require(t['niter_true'] == case['niter'] and np.allclose(t['offset_z'], nodes) and np.allclose(t['slope_z'], make_nodes(case['zrange'], case['snode'])), 'nodes')
    if not case['slope']:
        require(np.all(t['slope'] == 0) and np.all(t['slope_true'] == 0), 'a slope without fitting one')
    sig = np.hypot(case['err'], case['scatter'])
    per = c.size*case['node']/(hi - lo)
    tol = 5*sig/np.sqrt(per/2.) + 5e-4
    x = 0.5*(nodes[1:] + nodes[:-1])
    got = W.natural_spline(nodes, t['offset'].astype('f8'), x)
    require(np.all(np.abs(got - planted(case, x)) < tol), 'offset %s, planted %s', got, planted(case, x))
    if case['slope'] and case['n'] > 200:
        st_ = 6*sig/np.sqrt(c.size/4.)/0.6 + 1e-3
        require(np.all(np.abs(t['slope'] - case['slope']) < st_ + 4*abs(case['slope'])*0.15), 'slope %s, planted %g', t['slope'], case['slope'])
    # the correction removes the bias and describes the remaining errors
    cor = ZlambdaCorrectionPar(parfile='zl.fit')
    out = np.array([cor.apply_correction(float(r['lambda']), float(r['z_lambda']), float(r['z_lambda_e'])) for r in c])
    d = out[:, 0] - c['z_spec_init']
    keep = (c['z_spec_init'] > lo + 2*sig + 0.01) & (c['z_spec_init'] < hi - 2*sig - 0.01)
    if keep.sum() > 40:
        m = np.mean(d[keep])
        require(abs(m) < 4*sig/np.sqrt(keep.sum()) + 4e-4, 'corrected redshifts are off by %g (before: %g)', m, np.mean((c['z_lambda'] - c['z_spec_init'])[keep]))
        ch = np.mean((d/out[:, 1])[keep]**2)
        require(0.45 < ch < 1.7, 'errors of the corrected redshifts: mean squared pull %g', ch)
        require(np.sqrt(np.mean(d[keep]**2)) < 1.3*sig + 1e-3, 'corrected redshifts scatter by %g', np.sqrt(np.mean(d[keep]**2)))
        if case['scatter'] >= 1.9*case['err'] and case['n'] > 200:
            sc = W.natural_spline(t['slope_z'].astype('f8'), t['scatter'].astype('f8'), np.array([0.5*(lo + hi)]))[0]
            require(0.6 < sc/case['scatter'] < 1.4, 'scatter %g, planted %g', sc, case['scatter'])
    y = W.natural_spline(nodes, t['zred_uncorr'].astype('f8'), x)
    require(np.all(np.abs(y - (x + case['zoff'])) < 0.008 + 3*abs(case['zoff'])*0.05), 'uncorrected redshift %s at %s, planted offset %g', y, x, case['zoff'])
    return 'calibrated%s%s' % ('+slope' if case['slope'] else '', '+scatter' if case['scatter'] else '')


def t_fitter(case):
    """The fit is at least as likely as the truth, and its likelihood is the Gaussian one."""
    rs = np.random.RandomState(case['seed'])
    c = zcat(dict(case, slope=case['slope']), rs)
    nodes, sn = make_nodes(case['zrange'], case['node']), make_nodes(case['zrange'], case['snode'])
    z, e = c['z_spec_init'].astype('f8'), c['z_lambda_e'].astype('f8')
    dz, ll = z - c['z_lambda'], np.log(c['lambda']/c['scaleval']/30.).astype('f8')

    def like(a, b, s):
        f = lambda n, v: W.natural_spline(n, np.asarray(v, 'f8'), z)
        v = np.clip(f(sn, s), case['mins'], None)**2 + e**2
        return 0.5*np.sum(np.log(2*np.pi*v) + (dz - f(nodes, a) - f(sn, b)*ll)**2/v)
    what = case['what']
    p0 = [planted(case, nodes) + (0.002 if what[0] else 0), np.full(sn.size, case['slope']) + (0.001 if what[1] else 0), np.full(sn.size, max(case['scatter'], case['mins']) + (0.001 if what[2] else 0))]
    fit = ZLambdaFitter(nodes, sn, z, dz, e, ll)
    keep = [p.copy() for p in p0]
    got = fit.fit(p0[0], p0[1], p0[2], fit_delta=what[0], fit_slope=what[1], fit_scatter=what[2], min_scatter=case['mins'])
    require(all(np.array_equal(a, b) for a, b in zip(keep, p0)), 'the starting values were changed')
    require(len(got) == sum(what), '%d results for %d requests', len(got), sum(what))
    got = list(got)
    full = [got.pop(0) if w else p for w, p in zip(what, p0)]
    require([f.size for f in full] == [nodes.size, sn.size, sn.size], 'sizes of the results')
    pars = np.concatenate([f for f, w in zip(full, what) if w])
    far = np.abs(dz - 0).max() > 0.2
    mine = like(*full)
    if not far:
        require(abs(fit(pars) - mine) < 1e-6*max(1, abs(mine)), 'likelihood %g, expected %g', fit(pars), mine)
    if what[2]:
        require(np.min(full[2]) >= case['mins'] - 1e-9, 'scatter %s below the minimum', full[2])
    start = like(*p0)
    require(mine <= start + 1e-9, 'the fit is less likely than its start')
    truth = [planted(case, nodes) if what[0] else p0[0], np.full(sn.size, case['slope']) if what[1] else p0[1], np.full(sn.size, max(case['scatter'], case['mins'])) if what[2] else p0[2]]
    # (the minimiser may stop at the wall of a minimum scatter)
    require(case['mins'] > 0 or mine <= like(*truth) + 20, 'the fit (%g) is less likely than the truth (%g)', mine, like(*truth))
    return ''.join('dsx'[i] for i in range(3) if what[i])


_cat = {}


def wsample(case, rs, s, conf, n, mean, sigma):
    z = rs.uniform(0.13, 0.37, n)
    c = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_spec_init', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'), ('w', 'f4'),
                           ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 4), ('mag_err', 'f4', 4), ('p_cen', 'f4', 5), ('p_sat', 'f4', 5), ('r_lambda', 'f4')])
    c['z'], c['z_spec_init'] = 0.2, z
    c['scaleval'] = rs.uniform(1, 1.5, n)
    lam = np.clip(10.5*(1 + rs.exponential(1.5, n)), None, 95.)
    c['lambda'] = lam*c['scaleval']
    c['maskfrac'] = rs.uniform(0, 0.19, n)
    c['w'] = np.exp(mean + sigma/np.sqrt(lam/30.)*rs.normal(size=n))
    c['r_lambda'] = (c['lambda']/100.)**0.2
    ref = np.asarray(s.zredstr.mstar(z)) + case['delta'][0] + case['delta'][1]*np.log(lam/30.) + case['delta'][2]*rs.normal(size=n)
    c['mag'] = W.red_mags(s.zredstr, z, ref, S.REF, rs, 1.0)
    c['mag_err'] = 0.01
    c['refmag'], c['refmag_err'] = c['mag'][:, S.REF], 0.01
    c['p_cen'][:, 0] = case['pcen']*rs.uniform(0.9, 1.0, n)
    c['p_sat'][:, 0] = (1 - c['p_cen'][:, 0])*rs.uniform(0, 1, n)
    c['p_cen'][:, 1:] = rs.uniform(size=(n, 4))
    c['p_sat'][:, 1:] = rs.uniform(size=(n, 4))
    return c


def wspoil(c, rs, k, junk):
    b = c[rs.randint(0, c.size, k)].copy()
    b['w'] = junk
    b['refmag'] = 15 + rs.uniform(size=k)
    kind = np.arange(k) % 6
    b['lambda'][kind == 0] = 9.9*b['scaleval'][kind == 0]
    b['lambda'][kind == 1] = 101.*b['scaleval'][kind == 1]
    b['w'][kind == 2] = -1.0
    b['z_spec_init'][kind == 3] = 0.125
    b['z_spec_init'][kind == 4] = 0.379
    b['maskfrac'][kind == 5] = 0.21
    return b


NAMES = ['delta0', 'delta1', 'sigma_m', 'pivot', 'lnw_fg_mean', 'lnw_fg_sigma', 'lnw_sat_mean', 'lnw_sat_sigma', 'lnw_cen_mean', 'lnw_cen_sigma', 'phi1_mmstar_m', 'phi1_mmstar_slope',
         'phi1_msig_m', 'phi1_msig_slope']


def t_wcen(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    fg, sat, cen = case['fg'], case['sat'], case['cen']
    extra = dict(phi1_mmstar_m=-1.1, phi1_mmstar_slope=-0.35, phi1_msig_m=0.5, phi1_msig_slope=-0.1)
    if case['iteration'] > 1:
        extra.update(lnw_fg_mean=fg[0], lnw_fg_sigma=fg[1], lnw_sat_mean=sat[0], lnw_sat_sigma=sat[1])
    mk = lambda: S.conf(s, catfile='cat.fit', wcenfile='wcen.fit', wcen_minlambda=10., wcen_maxlambda=100., wcen_cal_zrange=[0.13, 0.37], wcen_pivot=30., max_maskfrac=0.2, **extra)
    conf = mk()
    c = wsample(case, rs, s, conf, case['n'], *cen)
    r, q = wsample(case, rs, s, conf, case['n'], *fg), wsample(case, rs, s, conf, case['n'], *sat)
    outs = []
    for junk in (0.1, 50.0):
        for fn, a in (('cat.fit', c), ('rand.fit', r), ('sat.fit', q)):
            fitsio.write(fn, np.concatenate([a, wspoil(a, rs, case['nbad'], junk)]), clobber=True)
        if os.path.exists('wcen.fit'):
            os.remove('wcen.fit')
        conf = mk()
        if case['iteration'] == 1 and case['missing']:
            try:
                WcenCalibrator(conf, 1, randcatfile=None if case['missing'] == 1 else 'rand.fit', randsatcatfile=None if case['missing'] == 2 else 'sat.fit')
            except RuntimeError:
                return 'refused'
            require(False, 'the first iteration went ahead without a random catalogue')
        kw = dict(randcatfile='rand.fit', randsatcatfile='sat.fit') if case['iteration'] == 1 else {}
        WcenCalibrator(conf, case['iteration'], **kw).run(testing=True)
        outs.append(fitsio.read('wcen.fit', ext=1, lower=True)[0])
    a = outs[0]
    for k in NAMES:
        require(a[k] == outs[1][k], '%s depends on clusters that fail the cuts: %g and %g', k, a[k], outs[1][k])
    for k in ('phi1_mmstar_m', 'phi1_mmstar_slope', 'phi1_msig_m', 'phi1_msig_slope'):
        require(a[k] == extra[k], '%s is %g', k, a[k])
    require(a['pivot'] == 30., 'pivot')
    # the random samples: closed form
    for k, x, given in (('fg', r, fg), ('sat', q, sat)):
        got = a['lnw_%s_mean' % k], a['lnw_%s_sigma' % k]
        if case['iteration'] > 1:
            require(np.allclose(got, given, atol=1e-12), 'given values became %s', got)
            continue
        lw, sc2 = np.log(x['w'].astype('f8')), x['lambda'].astype('f8')/x['scaleval']/30.
        m = np.sum(lw*sc2)/np.sum(sc2)
        sg = np.sqrt(np.mean((lw - m)**2*sc2))
        require(abs(got[0] - m) < 2e-4 and abs(got[1] - sg) < 2e-4, '%s sample fitted by %s, best fit %g, %g', k, got, m, sg)
    # the centrals
    z, lam = c['z_spec_init'].astype('f8'), (c['lambda']/c['scaleval']).astype('f8')
    lraw = c['lambda'].astype('f8')
    pc, ps = c['p_cen'][:, 0].astype('f8'), c['p_sat'][:, 0].astype('f8')
    ms = np.asarray(s.zredstr.mstar(c['z_spec_init']), 'f8')
    g = GalaxyCatalog(np.array(c))
    ch = np.asarray(s.zredstr.calculate_chisq(g, c['z_spec_init']), 'f8')
    rho = chi2.pdf(ch, 3)
    lw = np.log(lraw/30.)
    p1 = norm.pdf(c['refmag'], ms + extra['phi1_mmstar_m'] + extra['phi1_mmstar_slope']*lw, extra['phi1_msig_m'] + extra['phi1_msig_slope']*lw)
    b = s.bkg.sigma_g_lookup(c['z_spec_init'], ch, c['refmag'])/(np.radians(1.)*np.array([conf.cosmo.Da(0, x) for x in z]))**2*np.pi*c['r_lambda']**2

    def like(p):
        if p[2] <= 0:
            return 1e9
        f = pc*norm.pdf(c['refmag'], ms + p[0] + p[1]*np.log(lam/30.), p[2])*rho + ps*p1*rho + (1 - pc - ps)*b
        return -np.sum(np.log(np.where(np.isfinite(f) & (f > 1e-5), f, 1e-5)))
    mine = minimize(like, case['delta'], method='Nelder-Mead', options=dict(xatol=1e-6, fatol=1e-6, maxiter=4000, maxfev=4000)).x
    got = np.array([a['delta0'], a['delta1'], a['sigma_m']])
    require(got[2] > 0, 'scatter %g', got[2])
    require(like(got) < like(mine) + 0.05, 'centrals fitted by %s, best fit %s', got, mine)
    n = max(case['n']*case['pcen'], 1)
    require(abs(got[0] - case['delta'][0]) < 7*case['delta'][2]/np.sqrt(n) + 0.12*(1 - case['pcen']) + 0.02, 'magnitude offset %g, planted %g', got[0], case['delta'][0])
    l2 = 1/np.sqrt(lam/30.)
    wf = lambda p, l: norm.pdf(np.log(c['w'].astype('f8')), p[0], p[1]*l)
    fgv, stv = (a['lnw_fg_mean'], a['lnw_fg_sigma']), (a['lnw_sat_mean'], a['lnw_sat_sigma'])
    other = ps*wf(stv, l2) + (1 - pc - ps)*wf(fgv, l2)
    like2 = lambda p: -np.sum(np.log(pc*wf(p, l2) + other)) if p[1] > 0 else 1e9
    mine = minimize(like2, cen, method='Nelder-Mead', options=dict(xatol=1e-6, fatol=1e-6, maxiter=4000, maxfev=4000)).x
    got = np.array([a['lnw_cen_mean'], a['lnw_cen_sigma']])
    require(got[1] > 0 and like2(got) < like2(mine) + 0.05, 'connectivity of centrals fitted by %s, best fit %s', got, mine)
    # and the configuration takes the values from the file
    conf = mk()
    for k, v in (('wcen_Delta0', 'delta0'), ('wcen_Delta1', 'delta1'), ('wcen_sigma_m', 'sigma_m'), ('wcen_pivot', 'pivot'), ('lnw_fg_mean', 'lnw_fg_mean'), ('lnw_fg_sigma', 'lnw_fg_sigma'),
                 ('lnw_sat_mean', 'lnw_sat_mean'), ('lnw_sat_sigma', 'lnw_sat_sigma'), ('lnw_cen_mean', 'lnw_cen_mean'), ('lnw_cen_sigma', 'lnw_cen_sigma'),
                 ('phi1_mmstar_m', 'phi1_mmstar_m'), ('phi1_mmstar_slope', 'phi1_mmstar_slope'), ('phi1_msig_m', 'phi1_msig_m'), ('phi1_msig_slope', 'phi1_msig_slope')):
        require(getattr(conf, k) == a[v], 'configuration has %s = %g, the file %g', k, getattr(conf, k), a[v])
    return 'iteration-%d' % min(case['iteration'], 2)


def t_brightest(case):
    """Without given values, the brightest-satellite model comes from a simulation of the luminosity function."""
    np.random.seed(case['seed'])
    s = S.survey()
    conf = S.conf(s, catfile='cat.fit', wcenfile='wcen.fit', wcen_pivot=case['pivot'], calib_lumfunc_alpha=case['alpha'], lnw_fg_sigma=0.3, lnw_fg_mean=-0.3, lnw_sat_mean=0.0, lnw_sat_sigma=0.3)
    rs = np.random.RandomState(case['seed'])
    c = wsample(dict(delta=[-1.2, -0.3, 0.3], pcen=0.9), rs, s, conf, 60, 0.2, 0.3)
    fitsio.write('cat.fit', c, clobber=True)
    runs = []
    for i in range(5):
        WcenCalibrator(conf, 2).run(testing=True)
        runs.append(fitsio.read('wcen.fit', ext=1, lower=True)[0])
    a = {k: np.median([r[k] for r in runs]) for k in NAMES}
    # expected brightest of n draws between 10 L* and 0.2 L*
    m = np.linspace(-2.5, 1.7474, 4000)
    f = 10**(-0.4*(case['alpha'] + 1)*m)*np.exp(-10**(-0.4*m))
    cdf = np.cumsum(f)/f.sum()
    mean, sd = [], []
    ls = np.array([20., 60., 100.])
    for n in ls:
        p = np.diff(np.concatenate([[0], 1 - (1 - cdf)**n]))
        mu = np.sum(p*m)
        mean.append(mu)
        sd.append(np.sqrt(np.sum(p*(m - mu)**2)))
    ref = np.polyfit(np.log(ls/case['pivot']), mean, 1)
    x = np.log(ls/case['pivot'])
    got = a['phi1_mmstar_m'] + a['phi1_mmstar_slope']*x
    require(abs(got[1] - np.polyval(ref, x)[1]) < 0.55, 'brightest satellites at %s, expected %s', got, np.polyval(ref, x))
    require(a['phi1_mmstar_slope'] < 0, 'brightest satellites get fainter with richness')
    sg = a['phi1_msig_m'] + a['phi1_msig_slope']*x
    require(sd[1]/2.5 < sg[1] < sd[1]*2.2, 'spread %s, expected %s', sg, sd)
    return 'simulated'


Z = dict(seed=st.integers(1, 2**20), zrange=st.sampled_from([(0.1, 0.2), (0.12, 0.38), (0.15, 0.3)]), n=st.sampled_from([120, 250, 400]), err=st.sampled_from([0.003, 0.005, 0.008]),
         scatter=st.sampled_from([0.0, 0.0, 0.01]), slope=st.sampled_from([0.0, 0.0, 0.004, -0.003]), bias=st.tuples(st.floats(-0.003, 0.003), st.floats(-0.004, 0.004), st.floats(-0.006, 0.006)),
         node=st.sampled_from([0.04, 0.06]), snode=st.sampled_from([0.1, 0.15]), zoff=st.sampled_from([0.0, 0.01, -0.02]))
s1 = st.fixed_dictionaries(dict(Z, niter=st.sampled_from([2, 3]), nbad=st.sampled_from([4, 12, 40]), gap=st.sampled_from([False]*7 + [True])))
s2 = st.fixed_dictionaries(dict(Z, what=st.sampled_from([(True, False, False), (False, True, False), (False, False, True), (True, False, True), (True, True, True), (True, True, False)]),
                                mins=st.sampled_from([0.0, 0.002])))
s3 = st.fixed_dictionaries(dict(seed=st.integers(1, 2**20), n=st.sampled_from([40, 150, 400]), delta=st.tuples(st.floats(-1.8, -0.8), st.floats(-0.5, 0.1), st.floats(0.15, 0.5)), pcen=st.sampled_from([0.7, 0.9, 0.99]),
                                fg=st.tuples(st.floats(-0.5, 0.0), st.floats(0.1, 0.4)), sat=st.tuples(st.floats(-0.2, 0.2), st.floats(0.1, 0.4)), cen=st.tuples(st.floats(0.0, 0.4), st.floats(0.1, 0.3)),
                                nbad=st.sampled_from([6, 24]), iteration=st.sampled_from([1, 1, 2, 3]), missing=st.sampled_from([0]*6 + [1, 2])))
s4 = st.fixed_dictionaries(dict(seed=st.integers(1, 2**20), pivot=st.sampled_from([20., 30., 50.]), alpha=st.sampled_from([-1.0, -0.8, -1.2])))
TESTS = ([T('redshifts-%d' % i, s1, t_zlambda, 10, 300, 'a correction was calibrated; label: what was planted') for i in range(4)] +
         [T('fitter', s2, t_fitter, 40, 800, 'label: which of offset (d), slope (s), scatter (x) were fitted')] +
         [T('centring-%d' % i, s3, t_wcen, 25, 1000, 'a centring model was calibrated; label: iteration') for i in range(2)] +
         [T('brightest', s4, t_brightest, 6, 100, 'simulated luminosity function')])
