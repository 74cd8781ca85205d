"""C02: cluster richness measurements against an independent model."""
import numpy as np
from scipy.special import erf
from scipy.stats import chi2
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from redmapper.cluster import Cluster
from redmapper.galaxy import GalaxyCatalog
from redmapper.mask import Mask

ASSUMPTIONS = ['chi-squared and background look-ups are taken from the red sequence and background objects (C03, C04, C06)',
               'the mask polynomial is supplied by the harness', 'values are compared within the solver tolerance of 0.01 in richness']
LT = 0.03
_mg = {}


def norm(rl):
    L = np.log(rl)
    return np.exp(1.65169 - 0.547850*L + 0.138202*L**2 - 0.0719021*L**3 - 0.0158241*L**4 - 0.000854985*L**5)


def nfw(r, rs=0.15, core=0.1):
    x = np.maximum(np.asarray(r, 'f8'), core)/rs
    out = np.zeros(x.size)
    lo, hi = x < 0.9995, (x > 1.0005) & (x < 10/rs)
    out[lo] = (1 - np.arccosh(1/x[lo])/np.sqrt(1 - x[lo]**2))/(x[lo]**2 - 1)
    out[hi] = (1 - np.arccos(1/x[hi])/np.sqrt(x[hi]**2 - 1))/(x[hi]**2 - 1)
    mid = ~lo & (x <= 1.0005)
    out[mid] = 1/3.
    return out


def theta_i(mag, err, maxmag, limmag):
    d = min(maxmag, limmag) - mag
    t = np.where(d < 5*err, 0.5 + 0.5*erf(d/(np.sqrt(2)*err)), 1.0)
    return np.where(mag > limmag, 0.0, t)


class FixedMask(Mask):
    """A mask with a prescribed correction polynomial."""
    def __init__(self, config, maskgals, cpars, limit=None):
        super().__init__(config, include_maskgals=False)
        self.maskgals, self.cpars, self.asked, self.limit = maskgals, np.array(cpars, dtype='f8'), None, limit

    def calc_maskcorr(self, mstar, maxmag, limmag):
        self.asked = (mstar, maxmag, limmag)
        return self.cpars.copy()

    def compute_radmask(self, ra, dec):
        return np.asarray(dec) > self.limit


def get_maskgals(conf):
    from redmapper.catalog import Catalog
    key = (conf.rsig, conf.lval_reference)
    if key not in _mg:
        Mask(conf, include_maskgals=False).gen_maskgals('mg.fit')
        _mg[key] = Catalog.from_fits_file('mg.fit')
    a = _mg[key][np.arange(conf.maskgal_ngals)]
    return a


def setup(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey(limmag=case['limmag'], amp=case['amp'])
    conf = S.conf(s, rsig=case['rsig'], lval_reference=case['lval'], bkg_local_annuli=[0.6, 1.4])
    z = case['z']
    g = S.cluster_gals(rs, s, 120., 10., z, case['nred'], case['nfield'], scale=S.mpc_per_deg(conf.cosmo, z))
    cl = Cluster(config=conf, zredstr=s.zredstr, bkg=s.bkg, r0=case['r0'], beta=case['beta'])
    cl.ra, cl.dec = 120., 10.
    cl.redshift = z
    cl.find_neighbors(2.0, GalaxyCatalog(g), megaparsec=True)
    nb = cl.neighbors
    if case['pfree']:
        nb.pfree[:] = np.where(rs.uniform(size=nb.size) < 0.3, 0.0, rs.uniform(size=nb.size))
    # stale values of an earlier measurement
    for c in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r', 'chisq'):
        getattr(nb, c)[:] = 0.5
    cl.Lambda, cl.Lambda_e, cl.scaleval, cl.r_lambda = 3., 3., 3., 3.
    mg = get_maskgals(conf)
    mg.mark = rs.uniform(size=mg.size) > case['badfrac']
    return rs, s, conf, g, cl, FixedMask(conf, mg, case['cpars'])


def between(x, a, b, slack, what):
    lo, hi = np.minimum(a, b) - slack, np.maximum(a, b) + slack
    bad = ~((x >= lo) & (x <= hi))
    require(not np.any(bad), '%s: %d values off, e.g. %g instead of %g', what, bad.sum(), x[bad][0] if bad.any() else 0, a[bad][0] if bad.any() else 0)


def model(lam, case, r, u, b, w):
    rl = case['r0']*(lam/100.)**case['beta']
    with np.errstate(all='ignore'):
        sg = lam*u*norm(rl)
        p = sg/(sg + b)
    p[~np.isfinite(p)] = 0
    if case['rsig'] > 0:
        th = 0.5 + 0.5*erf((rl - r)/(np.sqrt(2)*case['rsig']))
    else:
        th = (r < rl).astype('f8')
    return rl, p, th, p*th*w


def mask_error(cl, s, mg, lam, rl, pmem, cval, beta, gamma):
    mg_r = mg.r.astype('f8')
    use = mg_r < rl
    mag = cl.mstar + mg.m[use]
    out = (mag > s.limmag) | ~mg.mark[use].astype(bool)
    if out.sum() == 0 or cval < 0.01:
        return 0.0
    u = mg.cwt[use]*mg.nfw[use]*norm(rl)*mg.lumwt[use]
    sig = s.bkg.sigma_g_lookup(cl.redshift, mg.chisq[use], np.where(mag >= s.limmag, s.limmag - 0.01, mag))
    b = 2*np.pi*mg_r[use]*sig/cl.mpc_scale**2
    v = np.sum((lam*u/(lam*u + b))[out])/lam/use.sum()
    return lam**2/np.sum(pmem**2)*np.sqrt(v - v**2)/(1 - beta*gamma)


def check(case):
    rs, s, conf, g, cl, mask = setup(case)
    nb = cl.neighbors
    n = nb.size
    if n == 0:
        return False
    idx = np.arange(n)
    kw = {}
    if case['subset']:
        idx = np.flatnonzero(rs.uniform(size=n) < 0.7)
        if idx.size == 0:
            return False
        kw['index'] = idx
    keep = {c: np.array(getattr(nb, c)) for c in nb.dtype.names}
    ret = cl.calc_richness(mask, calc_err=case['err'], **kw)
    nb = cl.neighbors
    maxmag = cl.mstar - 2.5*np.log10(case['lval'])
    require(mask.asked is not None and np.allclose(mask.asked, (cl.mstar, maxmag, s.limmag)), 'mask correction asked at %s', mask.asked)
    changed = ('chisq', 'p', 'pmem', 'pcol', 'theta_i', 'theta_r')
    for c in nb.dtype.names:
        if c not in changed:
            require(np.array_equal(getattr(nb, c), keep[c]), 'measurement changed neighbour column %s', c)
    other = np.ones(n, dtype=bool)
    other[idx] = False
    for c in changed[1:]:
        require(np.all(getattr(nb, c)[other] == 0), 'neighbour outside the subset has %s', c)
    lam = float(cl.Lambda)
    require(abs(ret - lam) < 1e-4*abs(lam), 'returned richness %g, stored %g', ret, lam)
    chisq = np.array(s.zredstr.calculate_chisq(GalaxyCatalog(g)[nb.index[idx]], cl.redshift))
    require(np.allclose(nb.chisq[idx], chisq, rtol=1e-5, atol=1e-5), 'chi-squared of the neighbours')
    require(np.all(nb.chisq[other] == keep['chisq'][other]), 'chi-squared outside the subset changed')
    # the model
    r = nb.r[idx]
    mag = nb.refmag[idx].astype('f8')
    ln = s.zredstr.lumnorm[s.zredstr.lumrefmagindex(maxmag), s.zredstr.zindex(cl.redshift)]
    x = 10**(0.4*(cl.mstar - mag))
    phi = x**(s.zredstr.alpha + 1)*np.exp(-x)/ln
    rho = chi2.pdf(chisq, 3)
    u = 2*np.pi*r*nfw(r)*phi*rho
    b = 2*np.pi*r*s.bkg.sigma_g_lookup(cl.redshift, chisq, mag)/cl.mpc_scale**2
    ti = theta_i(mag, nb.refmag_err[idx].astype('f8'), maxmag, s.limmag)
    w = ti*nb.pfree[idx]
    f = lambda l: np.sum(model(l, case, r, u, b, w)[3]) + l*max(0.0, np.polyval(mask.cpars, case['r0']*(l/100)**case['beta'])) - l
    if lam < 0:
        require(lam == -1 and cl.scaleval == -1, 'failed measurement reports %g, %g', lam, cl.scaleval)
        require(cl.Lambda_e == (-1 if case['err'] else 0), 'failed measurement reports error %g', cl.Lambda_e)
        for c in changed[1:]:
            require(np.all(getattr(nb, c) == 0), 'failed measurement leaves %s', c)
        require(min(f(l) for l in np.linspace(0.9, 1.1, 9)) <= 1e-6, 'measurement failed although a solution exists')
        return 'failed'
    # richness solves the model
    if lam < 1990:
        win = np.linspace(max(lam - LT, 0.5), lam + LT, 15)
        v = np.array([f(l) for l in win])
        require(v.min() <= 2e-3 and v.max() >= -2e-3 or lam < 1.1, 'richness %g does not solve the model (%g)', lam, v[7])
        require(np.any(v[:-1] >= -2e-3) and np.any(v[1:] <= 2e-3), 'richness %g is not a solution', lam)
    lo, hi = model(lam - LT, case, r, u, b, w), model(lam + LT, case, r, u, b, w)
    between(np.array([cl.r_lambda]), np.array([lo[0]]), np.array([hi[0]]), 1e-5, 'radius')
    require(np.allclose(nb.theta_i[idx], ti, atol=5e-4), 'luminosity weight')
    between(nb.theta_r[idx], lo[2], hi[2], 1e-5, 'radial weight')
    between(nb.p[idx], lo[1], hi[1], 2e-3, 'probability')
    between(nb.pmem[idx], lo[3], hi[3], 1e-3, 'membership')
    prod = nb.p[idx]*nb.theta_i[idx]*nb.theta_r[idx]*nb.pfree[idx]
    require(np.all(np.abs(nb.pmem[idx] - prod) <= np.abs(hi[3] - lo[3]) + 1e-5), 'membership is not the product of its factors')
    require(np.all(nb.pmem >= 0) and np.all(nb.pmem <= 1), 'membership outside [0,1]')
    tot = np.sum(nb.pmem)
    require(abs(lam - cl.scaleval*tot) < 1e-4*lam + 1e-4, 'richness %g is not scale value %g times membership %g', lam, cl.scaleval, tot)
    with np.errstate(all='ignore'):
        sg = rho*phi*lam
        pc = sg/(sg + b)
    rl = float(cl.r_lambda)
    off = (r > rl) | (mag > maxmag) | (mag > s.limmag) | ~np.isfinite(pc)
    edge = (np.abs(r - rl) < 1e-4) | (np.abs(mag - maxmag) < 1e-5)
    pc[off] = 0
    require(np.allclose(nb.pcol[idx][~edge], pc[~edge], atol=1e-3), 'colour probability')
    if case['err']:
        cval = max(0.0, np.polyval(mask.cpars, rl))
        if abs(cval - 0.01) > 1e-4:
            ce = mask_error(cl, s, mask.maskgals, lam, rl, nb.pmem, cval, case['beta'], 0.6)
            bar = np.sum(nb.pmem**2)/tot
            e = np.sqrt((1 - bar)*lam*cl.scaleval + ce**2)
            require(abs(e - cl.Lambda_e) < 2e-3*e + 1e-3, 'error %g, formula %g (mask part %g)', cl.Lambda_e, e, ce)
            if ce > 0:
                return 'measured+maskerr'
    else:
        require(cl.Lambda_e == 0, 'error without error calculation')
    return 'measured'


class Depth(object):
    def __init__(self, d):
        self.d = d

    def get_depth_values(self, ras, decs):
        v = np.where(np.asarray(decs) > 9.9, self.d, self.d - 1.0)
        return v, v, v


def check_local(case):
    rs, s, conf, g, cl, mask = setup(case)
    nb = cl.neighbors
    if nb.size == 0:
        return False
    mg = mask.maskgals
    mg.refmag = cl.mstar + mg.m
    nb.chisq[:] = rs.uniform(0, 25, nb.size)
    mask.limit = case['edge']
    depth = Depth(case['depth'])
    got = cl.compute_bkg_local(mask, depth)
    maxmag = cl.mstar - 2.5*np.log10(case['lval'])
    ras = 120. + mg.x_uniform.astype('f8')/cl.mpc_scale/np.cos(np.radians(10.))
    decs = 10. + mg.y_uniform.astype('f8')/cl.mpc_scale
    dep = depth.get_depth_values(ras, decs)[0]
    sig = s.bkg.sigma_g_lookup(cl.redshift, mg.chisq, mg.refmag).astype('f8')
    ok = (mg.refmag < maxmag) & np.isfinite(sig) & (mg.chisq_pdf > 0) & (mg.lum_pdf > 0) & (mg.refmag < dep)
    ann = (mg.r_uniform > 0.6) & (mg.r_uniform < 1.4)
    good = ann & (decs > case['edge'])
    if ok.sum() == 0 or good.sum() == 0:
        return False
    pred = np.mean(sig[ok]/(mg.chisq_pdf[ok].astype('f8')*mg.lum_pdf[ok]))
    area = np.pi*(1.4**2 - 0.6**2)/cl.mpc_scale**2*good.sum()/ann.sum()
    nd = depth.get_depth_values(nb.ra, nb.dec)[0]
    cnt = (nb.r > 0.6) & (nb.r < 1.4) & (nb.refmag < maxmag) & (nb.chisq < mg.chisq.max()) & (nb.refmag < nd)
    ref = cnt.sum()/area/pred
    require(abs(got - ref) <= 1e-3*abs(ref) + 1e-9, 'local background %g, expected %g', got, ref)
    return cnt.sum() > 0


class ColorBkg(object):
    def get_colrange(self, i):
        return [-0.5, 3.5]

    def sigma_g_diagonal(self, i, col, refmag):
        return 30.*10**(0.3*(np.asarray(refmag) - 20))*(1 + i + np.asarray(col)**2)


def check_fit(case):
    rs, s, conf, g, cl, mask = setup(dict(case, rsig=0.05))
    nb = cl.neighbors
    if nb.size == 0:
        return False
    cl.cbkg = ColorBkg()
    j = case['col']
    kw = dict(rcut=case['rcut'], mingal=case['mingal'], sigint=case['sigint'], calc_err=case['err'])
    col = np.array(g['mag'][nb.index][:, j] - g['mag'][nb.index][:, j+1], dtype='f8')
    ce = np.sqrt(g['mag_err'][nb.index][:, j].astype('f8')**2 + g['mag_err'][nb.index][:, j+1].astype('f8')**2)
    if case['cent']:
        kw['centcolor_in'] = float(np.median(col))
    mag, r = nb.refmag.astype('f8'), np.array(nb.r)
    maxmag = cl.mstar - 2.5*np.log10(case['lval'])
    sel = (mag > cl.mstar - 2.5*np.log10(20.)) & (mag < maxmag) & (r < case['rcut']) & (col > -0.5) & (col < 3.5)
    cent = kw.get('centcolor_in', col[np.argmin(r)])
    net = np.sqrt(ce**2 + case['sigint']**2)
    dev = np.abs(np.abs(col - cent)/net - 2)
    if np.any(dev < 1e-3):
        return False
    in2 = sel & (np.abs(col - cent) < 2*net)
    bad = sel.sum() < case['mingal'] or in2.sum() < case['mingal'] or (not case['cent'] and not sel[np.argmin(r)])
    lam = cl.calc_richness_fit(mask, j, **kw)
    if bad:
        require(lam < 0, 'richness %g from too few galaxies', lam)
        return 'toofew'
    piv = np.median(mag[sel])
    a = np.vstack([(mag[in2] - piv)/ce[in2], 1/ce[in2]]).T
    sl, ic = np.linalg.lstsq(a, col[in2]/ce[in2], rcond=None)[0]
    d = col - (sl*(mag - piv) + ic)
    dw = np.exp(-d**2/(2*net**2))/(np.sqrt(2*np.pi)*net)
    x = 10**(0.4*(cl.mstar - mag))
    ln = s.zredstr.lumnorm[s.zredstr.lumrefmagindex(maxmag), s.zredstr.zindex(cl.redshift)]
    phi = x**(s.zredstr.alpha + 1)*np.exp(-x)/ln
    u = 2*np.pi*r*dw*nfw(r)*phi
    sg = ColorBkg().sigma_g_diagonal(j, col, mag)/cl.mpc_scale**2
    b = 2*np.pi*r*sg
    ti = theta_i(mag, nb.refmag_err.astype('f8'), maxmag, s.limmag)
    w = ti*nb.pfree
    cs = dict(case, rsig=0.0)
    if lam < 0:
        require(cl.scaleval == -1, 'failed fit reports scale value %g', cl.scaleval)
        for c in ('theta_i', 'theta_r', 'p', 'pcol', 'pmem'):
            require(np.all(getattr(cl.neighbors, c) == 0), 'failed fit leaves %s', c)
        return 'failed'
    rl, p, th, pm = model(lam, cs, r, u, b, w)
    require(abs(cl.r_lambda - rl) < 1e-3*rl, 'radius')
    edge = np.abs(r - rl) < 1e-2
    require(np.allclose(nb.p[~edge], p[~edge], atol=5e-3), 'probability')
    require(np.allclose(nb.theta_i, ti, atol=5e-4), 'luminosity weight')
    require(np.allclose(nb.pmem[~edge], (nb.p*nb.theta_i*nb.theta_r*nb.pfree)[~edge], atol=5e-3), 'membership product')
    require(abs(lam - cl.scaleval*np.sum(nb.pmem)) < 1e-3*lam, 'scale value')
    q = dw*phi*lam
    pc = q/(q + sg*np.pi*rl**2)
    pc[(r > rl) | (mag > maxmag) | (mag > s.limmag)] = 0
    require(np.allclose(nb.pcol[~edge], pc[~edge], atol=5e-3), 'colour probability')
    if case['err']:
        cval = max(0.0, np.polyval(mask.cpars, rl))
        if abs(cval - 0.01) > 1e-3:
            bar = np.sum(nb.pmem**2)/np.sum(nb.pmem)
            me = mask_error(cl, s, mask.maskgals, lam, float(cl.r_lambda), nb.pmem, cval, case['beta'], 0.6)
            e = np.sqrt((1 - bar)*lam/cl.scaleval + me**2)
            require(abs(e - cl.Lambda_e) < 5e-3*e + 2e-3, 'error %g, formula %g', cl.Lambda_e, e)
    return 'fitted'


base = dict(seed=st.integers(0, 2**31 - 1), z=st.floats(0.11, 0.39), nred=st.sampled_from([0, 3, 8, 15, 25, 40]), nfield=st.integers(1, 50),
            limmag=st.sampled_from([19.0, 20.5, 21.0]), amp=st.sampled_from([0.5, 3.0, 20.0]), rsig=st.sampled_from([0.0, 0.05, 0.05, 0.2]),
            lval=st.sampled_from([0.1, 0.2, 0.5]), r0=st.sampled_from([0.5, 1.0, 1.3]), beta=st.sampled_from([0.0, 0.1, 0.2]), pfree=st.booleans(),
            badfrac=st.sampled_from([0.0, 0.1, 0.5]), err=st.booleans(),
            cpars=st.sampled_from([[0, 0, 0, 0.], [0, 0, 0, 0.2], [0.02, -0.04, 0.02, 0.015], [0.3, -0.3, 0.2, 0.0], [-0.1, 0.05, 0.0, 0.1], [0, 0, 0.3, -0.05]]))
s1 = st.fixed_dictionaries(dict(base, subset=st.booleans()))
s2 = st.fixed_dictionaries(dict(base, depth=st.sampled_from([18., 19., 22.]), edge=st.sampled_from([9.0, 9.9, 10.0, 10.05])))
s3 = st.fixed_dictionaries(dict(base, col=st.integers(0, 2), rcut=st.sampled_from([0.3, 0.6, 1.0]), mingal=st.integers(2, 6), sigint=st.sampled_from([0.03, 0.1]), cent=st.booleans()))
TESTS = ([T('richness-%d' % i, s1, check, 200, 5000, 'label: measured / failed / with mask error') for i in range(5)] +
         [T('fit-%d' % i, s3, check_fit, 200, 5000, 'single-colour richness') for i in range(2)] +
         [T('local', s2, check_local, 200, 5000, 'galaxies in the annulus')])
