"""C13: the mask correction polynomial and the mask points it is made of."""
import numpy as np
import fitsio
from scipy.special import erf
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import synth as S
from redmapper.mask import Mask
from redmapper import utilities as U

ASSUMPTIONS = ['sampled distributions are compared with a Kolmogorov-Smirnov distance of 4.5/sqrt(n)',
               'observed magnitudes of the mask points are random; the detection probability is recomputed from the stored ones']


def generate(case, **kw):
    conf = S.conf(S.survey(), maskgal_ngals=case['n'], maskgal_nsamples=case['ns'], rsig=case['rsig'], percolation_r0=case['r0'],
                  percolation_beta=case['beta'], lval_reference=case['lval'], maskgal_dmag_extra=case['extra'],
                  calib_lumfunc_alpha=case['alpha'], maskgal_zred_err=case['zerr'], bkg_local_annuli=[1.5, case['rout']],
                  chisq_max=case['chimax'], maskgal_rad_stepsize=case['step'], maskgalfile='mg.fit', **kw)
    np.random.seed(case['seed'] % 2**31)
    Mask(conf, include_maskgals=False).gen_maskgals('mg.fit')
    return conf, fitsio.read('mg.fit', ext=1, lower=True), fitsio.read_header('mg.fit', ext=1)


def ks(sample, grid, pdf, what):
    cdf = np.cumsum(pdf)/np.sum(pdf)
    emp = np.searchsorted(np.sort(sample), grid + 0.5*(grid[1] - grid[0]), side='right')/sample.size
    d = np.max(np.abs(emp - cdf))
    require(d < 4.5/np.sqrt(sample.size) + 3.0/grid.size, '%s of the mask points: distribution differs by %g (n=%d)', what, d, sample.size)


def schechter(m, alpha, mstar):
    return 10**(0.4*(alpha + 1)*(mstar - m))*np.exp(-10**(0.4*(mstar - m)))


def check_gen(case):
    conf, mg, hdr = generate(case)
    n = case['n']*case['ns']
    require(mg.size == n, '%d mask points instead of %d', mg.size, n)
    require(hdr['VERSION'] == 7 and abs(hdr['R0'] - case['r0']) < 1e-9 and abs(hdr['BETA'] - case['beta']) < 1e-9 and abs(hdr['RSIG'] - case['rsig']) < 1e-9 and
            hdr['NMAG'] == 4 and hdr['NGALS'] == case['n'] and abs(hdr['LVALREF'] - case['lval']) < 1e-9, 'header')
    minrad = min(np.floor(10*case['r0']*0.03**case['beta'])/10, 0.5)
    maxrad = np.ceil(10*case['r0']*3.0**case['beta'])/10
    rb = mg['radbins'].astype('f8')
    require(np.all(rb == rb[0]), 'radius bins differ between points')
    rb = rb[0]
    require(abs(rb[0] - minrad) < 1e-5 and np.allclose(np.diff(rb), case['step'], atol=1e-5) and maxrad - 1e-4 <= rb[-1] < maxrad + 2*case['step'] + 1e-4, 'radius bins %s for %g to %g', rb, minrad, maxrad)
    r, x, y, phi = (mg[k].astype('f8') for k in ('r', 'x', 'y', 'phi'))
    require(np.allclose(x, r*np.cos(phi), atol=1e-5) and np.allclose(y, r*np.sin(phi), atol=1e-5), 'x, y are not the polar position')
    require(np.allclose(np.hypot(mg['x_uniform'], mg['y_uniform']), mg['r_uniform'], atol=1e-4), 'uniform positions')
    faint = -2.5*np.log10(case['lval'])
    require(r.min() > 0 and r.max() <= maxrad and mg['m'].min() >= -2.5 - 1e-5 and mg['m'].max() <= faint + case['extra'] + 1e-4 and
            mg['chisq'].min() >= 0 and mg['chisq'].max() <= case['chimax'] and mg['r_uniform'].max() <= case['rout'], 'ranges')
    g = np.arange(0.001, maxrad, 0.001)
    # projected NFW with flat core, by its definition
    ks(r, g, U.nfw_pdf(g, radfactor=True), 'radii')
    g = np.arange(-2.5, faint + case['extra'], 0.002)
    ks(mg['m'], g, schechter(g, case['alpha'], 0.0), 'magnitudes')
    g = np.linspace(1e-4, case['chimax'], 5000)
    ks(mg['chisq'], g, np.sqrt(g)*np.exp(-g/2), 'chi-squared')
    g = np.linspace(0, 2*np.pi, 2000)
    ks(phi, g, np.ones(2000), 'angles')
    ks(np.arctan2(mg['y_uniform'], mg['x_uniform']) % (2*np.pi), g, np.ones(2000), 'uniform angles')
    g = np.linspace(0, case['rout'], 2000)
    ks(mg['r_uniform'], g, g, 'uniform radii')
    z = np.linspace(-6, 6, 3000)
    ks(mg['dzred']/case['zerr'], z, np.exp(-z**2/2), 'redshift offsets')
    # independence of radius and magnitude
    require(abs(np.corrcoef(r, mg['m'])[0, 1]) < 6/np.sqrt(n) and abs(np.corrcoef(mg['chisq'], mg['m'])[0, 1]) < 6/np.sqrt(n), 'coordinates are correlated')
    # weights
    c2 = mg['chisq'].astype('f8')
    u = c2 > 0
    ref = np.sqrt(c2)*np.exp(-c2/2)/np.sqrt(2*np.pi)
    require(np.allclose(mg['cwt'][u], ref[u], rtol=1e-4, atol=1e-9) and np.allclose(mg['chisq_pdf'][u], ref[u], rtol=1e-4, atol=1e-9), 'chi-squared weights')
    require(np.allclose(mg['nfw'], U.nfw_pdf(r, radfactor=True), rtol=1e-3), 'radial weights')
    lum = schechter(mg['m'].astype('f8'), case['alpha'], 0.0)
    st_ = np.linspace(10. - 19., faint, 20001)
    norm = np.trapezoid(schechter(st_, case['alpha'], 0.0), st_) if hasattr(np, 'trapezoid') else np.trapz(schechter(st_, case['alpha'], 0.0), st_)
    require(np.allclose(mg['lum_pdf'], lum, rtol=1e-3) and np.allclose(mg['lumwt'], lum/norm, rtol=2e-2), 'luminosity weights')
    require(np.allclose(mg['zwt'], np.exp(-0.5*(mg['dzred']/case['zerr'])**2)/np.sqrt(2*np.pi)/case['zerr'], rtol=1e-3), 'redshift weights')
    # radial functions, per sample
    th = 0.5 + 0.5*erf((rb[None, :] - r[:, None])/(np.sqrt(2)*case['rsig'])) if case['rsig'] > 0 else (r[:, None] <= rb[None, :]).astype('f8')
    require(np.allclose(mg['theta_r'], th, atol=2e-4 if case['rsig'] > 0 else 0), 'radial cut of the mask points')
    bright = mg['m'].astype('f8') < faint
    for j in range(case['ns']):
        sl = slice(j*case['n'], (j + 1)*case['n'])
        nin = np.sum(th[sl][bright[sl]], axis=0)
        edge = np.sum(np.abs(mg['m'][sl] - faint) < 1e-5)
        require(np.allclose(mg['nin'][sl], nin[None, :], rtol=1e-4, atol=1e-2 + edge), 'expected counts of sample %d', j)
        no = np.array([np.sum((r[sl] <= x_ + 1e-7) & bright[sl]) for x_ in rb])
        tie = np.array([np.sum(np.abs(r[sl] - x_) < 1e-5) for x_ in rb])
        require(np.all(np.abs(mg['nin_orig'][sl] - no[None, :]) <= tie[None, :] + edge), 'original counts of sample %d', j)
    return 'soft' if case['rsig'] > 0 else 'hard'


def theta_i(mag, err, maxmag, lim):
    eff = np.minimum(maxmag, lim)
    t = 0.5 + 0.5*erf((eff - mag)/(np.sqrt(2)*err))
    return np.where(mag > lim, 0.0, t)


def check_corr(case):
    rs = np.random.RandomState(case['seed'])
    conf, allmg, hdr = generate(case)
    m = Mask(conf)
    idx = m.select_maskgals_sample(case['pick'] % case['ns'])
    mg = m.maskgals
    n = case['n']
    mstar, lim = case['mstar'], case['lim']
    maxmag = mstar - 2.5*np.log10(case['lval'])
    mark = np.ones(n, dtype=bool)
    if case['mask'] == 'random':
        mark = rs.uniform(size=n) < 0.6
    elif case['mask'] == 'half':
        mark = np.array(mg.x) > 0
    elif case['mask'] == 'all':
        mark[:] = False
    mg.mark = mark
    mg.zp, mg.nsig = case['zp'], case['nsig']
    mg.w = case['w']
    mg.exptime = rs.uniform(50., 400., n)
    mg.limmag = lim + (rs.uniform(-0.4, 0.4, n) if case['vary'] else 0.0)
    mg.m50 = (lim + rs.uniform(-0.8, 0.3, n)) if case['m50'] else 0.0
    before = {k: np.array(getattr(mg, k)) for k in ('mark', 'limmag', 'm50', 'exptime', 'theta_r', 'nin', 'radbins', 'm', 'r')}
    cp = np.asarray(m.calc_maskcorr(mstar, maxmag, lim))
    require(cp.shape == (4,) and np.all(np.isfinite(cp)), 'polynomial %s', cp)
    for k, v in before.items():
        require(np.array_equal(v, getattr(mg, k)), 'column %s changed', k)
    mag, err = np.array(mg.refmag_obs, dtype='f8'), np.array(mg.refmag_obs_err, dtype='f8')
    true = mg.m.astype('f8') + mstar
    require(np.allclose(mg.refmag, true, atol=1e-4), 'true magnitudes')
    # noise model of every point
    f1 = 10**(-0.4*(mg.limmag.astype('f8') - case['zp']))
    sky = np.clip(f1**2*mg.exptime/case['nsig']**2 - f1, 0.001, None)
    tf = mg.exptime*10**(-0.4*(true - case['zp']))
    noise = np.sqrt(sky*mg.exptime + tf)
    bad = mag > 98.9
    flux = mg.exptime*10**(-0.4*(mag - case['zp']))
    pull = ((flux - tf)/noise)[~bad]
    if pull.size > 30:
        deep = np.median(tf/noise) > 6
        if deep:
            require(abs(np.mean(pull)) < 6/np.sqrt(pull.size) and abs(np.std(pull) - 1) < 6/np.sqrt(2*pull.size), 'noise of the mask points: mean %g width %g', pull.mean(), pull.std())
        require(len(np.unique(np.round(pull, 6))) > 0.9*pull.size, 'noise is shared between points')
    require(np.allclose(err[~bad], (2.5/np.log(10)*noise/flux)[~bad], rtol=1e-3), 'magnitude error of the mask points')
    plim = lim if (case['w'] < 0 or not case['m50']) else mg.m50.astype('f8')
    ti = theta_i(mag, err, maxmag, plim)
    c = 1 - np.dot(ti*mark, mg.theta_r.astype('f8'))/mg.nin[0].astype('f8')
    rb = mg.radbins[0].astype('f8')
    ref = np.polyfit(rb, c, 3)
    xs = np.linspace(rb[0], rb[-1], 50) if rb.size > 5 else rb
    d = np.max(np.abs(np.polyval(ref, xs) - np.polyval(cp, xs)))
    require(d < 2e-3, 'correction polynomial is off the masked-fraction profile by %g', d)
    if case['mask'] == 'all':
        require(np.max(np.abs(np.polyval(cp, xs) - 1)) < 1e-4, 'fully masked field: %s', cp)
    if case['mask'] == 'none' and case['deepfield']:
        lim2 = maxmag + 3.0
        mg.limmag, mg.m50, mg.w = lim2, 0.0, 0.0
        cp2 = m.calc_maskcorr(mstar, maxmag, lim2)
        require(np.max(np.abs(np.polyval(cp2, xs))) < 0.08 + 3/np.sqrt(n), 'unmasked deep field: correction up to %g', np.max(np.abs(np.polyval(cp2, xs))))
    if case['mask'] in ('half', 'random') and case['deepfield']:
        # masking more points raises the masked fraction; same random numbers
        mg.limmag, mg.m50, mg.w = maxmag + 4.0, 0.0, 0.0
        np.random.seed(7)
        a = m.calc_maskcorr(mstar, maxmag, maxmag + 4.0)
        mg.mark = mark & (np.array(mg.r) > 0.3)
        np.random.seed(7)
        b = m.calc_maskcorr(mstar, maxmag, maxmag + 4.0)
        require(np.mean(np.polyval(b, rb)) > np.mean(np.polyval(a, rb)) - 1e-6, 'masking points lowers the correction')
    mg.limmag = 0.0
    try:
        m.calc_maskcorr(mstar, maxmag, lim)
        raise Violation('a depth of zero was accepted')
    except ValueError:
        pass
    return '%s/%s' % (case['mask'], 'm50' if case['m50'] else 'limmag')


def check_file(case):
    conf, mg, hdr = generate(case)
    try:
        Mask(S.conf(S.survey(), maskgalfile='missing.fit'))
        raise Violation('missing mask point file accepted')
    except RuntimeError:
        pass
    fitsio.write('old.fit', mg, header=dict(version=6), clobber=True)
    try:
        Mask(S.conf(S.survey(), maskgalfile='old.fit'))
        raise Violation('mask point file of another version accepted')
    except RuntimeError:
        pass
    return True


gen = dict(seed=st.integers(0, 2**31 - 1), n=st.integers(150, 500), ns=st.integers(1, 3), rsig=st.sampled_from([0.05, 0.1, 0.0, 0.02]), r0=st.sampled_from([1.0, 0.6, 1.4]),
           beta=st.sampled_from([0.2, 0.0, 0.35]), lval=st.sampled_from([0.2, 0.4, 0.15]), extra=st.sampled_from([0.3, 0.1, 0.6]), alpha=st.sampled_from([-1.0, -0.7, -1.3]),
           zerr=st.sampled_from([0.02, 0.05]), rout=st.sampled_from([3.0, 2.0, 5.0]), chimax=st.sampled_from([20.0, 12.0]), step=st.sampled_from([0.1, 0.05, 0.2]))
s1 = st.fixed_dictionaries(gen)
s2 = st.fixed_dictionaries(dict(gen, pick=st.integers(0, 2), mstar=st.floats(17., 19.5), lim=st.floats(18.0, 22.0), mask=st.sampled_from(['none', 'random', 'half', 'all']),
                                zp=st.sampled_from([22.5, 30.0]), nsig=st.sampled_from([10.0, 5.0]), w=st.sampled_from([0.0, 0.0, -1.0]), vary=st.booleans(), m50=st.booleans(), deepfield=st.booleans()))
TESTS = ([T('gen-%d' % i, s1, check_gen, 120, 4000, 'label: soft or hard radial cut') for i in range(3)] +
         [T('corr-%d' % i, s2, check_corr, 150, 5000, 'label: mask pattern / depth type') for i in range(4)] + [T('file', s1, check_file, 20, 200, 'refusals')])
