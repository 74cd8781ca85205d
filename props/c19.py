"""C19: centering."""
import numpy as np
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from props.c02 import FixedMask, get_maskgals
from redmapper.cluster import Cluster
from redmapper.galaxy import GalaxyCatalog
from redmapper.centering import CenteringBCG, CenteringWcenZred, CenteringRandom, CenteringRandomSatellite

ASSUMPTIONS = ['zred background density and luminosity normalisation are looked up with the public methods (C03, C06)', 'random choices are compared with their distribution (4.5 sigma)',
               'cases in which a separation falls within 1e-5 Mpc of a radius cut are compared loosely']


class Corr:
    """A redshift correction with a mean uncorrected redshift curve."""
    def __init__(self, rs):
        self.z = np.linspace(0.1, 0.4, 31)
        self.zred_uncorr = self.z + 0.01*np.sin(20*self.z) + rs.uniform(-0.002, 0.002)


def setup(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    kw = dict(S.WCEN)
    kw.update(wcen_uselum=case.get('uselum', True), percolation_maxcen=case.get('maxcen', 5), percolation_pbcg_cut=case.get('cut', 0.5), wcen_maxlambda=case.get('maxlam', 100.0),
              wcen_rsoft=case.get('rsoft', 0.05), wcen_zred_chisq_max=case.get('chimax', 100.0))
    conf = S.conf(s, **kw)
    conf.centering_use_zspec = bool(case['zspec'])
    ra0, dec0 = {'mid': (120., 10.), 'wrap': (359.9999, -5.0), 'zero': (0.0001, 2.0), 'high': (60., 65.)}[case['where']]
    z = case['z']
    g = S.cluster_gals(rs, s, ra0, dec0, z, case['nred'], case['nfield'], scale=S.mpc_per_deg(conf.cosmo, z))
    g['ra'] %= 360.
    from numpy.lib import recfunctions as rf
    g = rf.append_fields(g, ['zspec', 'zspec_err'], [np.where(rs.uniform(size=g.size) < 0.3, g['zred'] + rs.normal(size=g.size)*0.02, -1.0).astype('f4'), np.full(g.size, 0.001, 'f4')], usemask=False)
    cl = Cluster(config=conf, zredstr=s.zredstr, bkg=s.bkg, zredbkg=s.zredbkg, r0=1.0, beta=0.2)
    cl.ra, cl.dec = ra0 % 360., dec0
    cl.redshift = z
    cl.find_neighbors(1.6, GalaxyCatalog(g), megaparsec=True)
    nb = cl.neighbors
    nb.pfree[:] = np.where(rs.uniform(size=nb.size) < case['taken'], rs.uniform(size=nb.size), 1.0)
    mg = get_maskgals(conf)
    mg.mark = np.ones(mg.size, dtype=bool)
    cl.calc_richness(FixedMask(conf, mg, [0.0, 0.0, 0.0, 0.0]))
    if case['mem'] == 'random' or cl.Lambda < 1:
        nb.pmem[:] = np.where(rs.uniform(size=nb.size) < 0.6, rs.uniform(size=nb.size)**2, 0.0)
        nb.p[:] = nb.pmem
        cl.Lambda, cl.scaleval, cl.r_lambda = max(float(nb.pmem.sum()), 2.0), 1.0, 0.8
    if rs.uniform() < 0.6:   # partly masked cluster: the richness is scaled up
        f = 1 + rs.uniform(0.1, 0.8)
        cl.Lambda, cl.scaleval = cl.Lambda*f, cl.scaleval*f
    nb.zred_chisq[:] = rs.chisquare(3, nb.size)*np.where(rs.uniform(size=nb.size) < 0.1, 50, 1)
    return rs, s, conf, cl


def snapshot(cl):
    return np.array(cl.neighbors._ndarray, copy=True), np.array(cl._ndarray, copy=True), cl.redshift


def unchanged(cl, snap):
    for a, b in ((snap[0], cl.neighbors._ndarray), (snap[1], cl._ndarray)):
        for n in a.dtype.names:
            require(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == 'f'), 'centering changed %s', n)
    require(cl.redshift == snap[2], 'centering changed the redshift')


def zvals(cl, case):
    nb = cl.neighbors
    z, e, c = np.array(nb.zred, 'f8'), np.array(nb.zred_e, 'f8'), np.array(nb.zred_chisq, 'f8')
    if case['zspec']:
        h = nb.zspec > 0
        z[h], e[h], c[h] = nb.zspec[h], nb.zspec_err[h], 1.0
    return z, e, c


def blank(c, k, conf):
    """Unused candidate slots."""
    n = conf.percolation_maxcen
    require(len(c.index) == n and np.all(np.asarray(c.index[k:]) == -1), 'unused candidate indices')
    for a in (c.p_cen, c.q_cen, c.p_fg, c.p_sat, c.p_c):
        require(len(a) == n and np.all(np.asarray(a[k:]) == 0), 'unused candidate slots carry probabilities')


def check_bcg(case):
    rs, s, conf, cl = setup(case)
    nb = cl.neighbors
    snap = snapshot(cl)
    z, e, _ = zvals(cl, case)
    c = CenteringBCG(cl)
    ok = c.find_center()
    unchanged(cl, snap)
    use = (np.asarray(nb.r) < float(cl.r_lambda)) & ((np.asarray(nb.pmem) > 0.8) | (np.abs(z - cl.redshift) < 2*e))
    if not use.any():
        require(not ok, 'a centre without likely members')
        return 'none'
    require(ok, 'no centre although there are likely members')
    i = np.flatnonzero(use)[np.argmin(nb.refmag[use])]
    require(c.maxind == i and c.index[0] == i and c.ngood == 1, 'centre %d, the brightest likely member is %d', c.maxind, i)
    require(c.ra[0] == nb.ra[i] and c.dec[0] == nb.dec[i] and c.p_cen[0] == 1 and c.q_cen[0] == 1 and c.p_sat[0] == 0 and c.q_miss == 0, 'values of the centre')
    blank(c, 1, conf)
    return 'contest' if use.sum() > 2 else 'trivial-few'


def gauss(x, mu, sig):
    return np.exp(-0.5*((x - mu)/sig)**2)/(np.sqrt(2*np.pi)*sig)


def wcen_model(cl, conf, case, s, corr):
    nb = cl.neighbors
    z, e, chi = zvals(cl, case)
    r, p, pf, mag = (np.array(getattr(nb, k), 'f8') for k in ('r', 'p', 'pfree', 'refmag'))
    rl, lam, scale = float(cl.r_lambda), float(cl.Lambda), float(cl.scaleval)
    use = np.flatnonzero((r < rl) & (pf >= conf.percolation_pbcg_cut) & (chi < conf.wcen_zred_chisq_max) & ((nb.pmem > 0) | (np.abs(cl.redshift - z) < 5*e)))
    mst = float(s.zredstr.mstar(cl.redshift))
    phic = gauss(mag[use], mst + conf.wcen_Delta0 + conf.wcen_Delta1*np.log(lam/conf.wcen_pivot), conf.wcen_sigma_m)
    zm = cl.redshift if corr is None else np.interp(cl.redshift, corr.z, corr.zred_uncorr)
    gz = gauss(z[use], zm, e[use])
    sc = S.mpc_per_deg(conf.cosmo, cl.redshift)
    L = 10**((mst - mag)/2.5) if conf.wcen_uselum else np.ones(mag.size)
    lw, near = np.full(use.size, np.log(1e-3)), False
    with np.errstate(all='ignore'):
        for k, i in enumerate(use):
            d = W.sep(nb.ra[i], nb.dec[i], nb.ra, nb.dec)*sc
            d = np.sqrt(d**2 + conf.wcen_rsoft**2)
            sel = (np.arange(d.size) != i) & (p > 0) & (d < rl)
            near |= bool(np.any(np.abs(d[p > 0] - rl) < 1e-5))
            if sel.any():
                lw[k] = np.log(np.log(np.sum(p[sel]*L[sel]/d[sel])/(np.sum(p[sel]*L[sel])/rl)))
        ss = np.sqrt(min(lam, conf.wcen_maxlambda)/scale/conf.wcen_pivot)
        f = {k: gauss(lw, getattr(conf, 'lnw_%s_mean' % k), getattr(conf, 'lnw_%s_sigma' % k)/ss) for k in ('cen', 'sat', 'fg')}
        uc = phic*gz*f['cen']
        x = 10**(0.4*(mst - mag[use]))
        lim = mst - 2.5*np.log10(conf.lval_reference)
        norm = s.zredstr.lumnorm[s.zredstr.lumrefmagindex(lim), s.zredstr.zindex(cl.redshift)]
        us = x**(s.zredstr.alpha + 1)*np.exp(-x)/norm*gz*f['sat']
        uc[uc < 1e-10] = 0
        us[us < 1e-10] = 0
        rt = np.full(use.size, 0.1)
        b = f['fg']*cl.calc_zred_bkg_density(rt, z[use], mag[use])/(2*np.pi*rt)*np.pi*rl**2
        basic = np.minimum(pf[use]*uc/(uc + (lam/scale - 1)*us + b), 0.99999)
    basic[~np.isfinite(basic)] = 0
    return use, uc, us, b, basic, near


def check_wcen(case):
    rs, s, conf, cl = setup(case)
    nb = cl.neighbors
    corr = Corr(rs) if case['corr'] else None
    snap = snapshot(cl)
    c = CenteringWcenZred(cl, zlambda_corr=corr)
    ok = c.find_center()
    unchanged(cl, snap)
    use, uc, us, b, basic, near = wcen_model(cl, conf, case, s, corr)
    if use.size == 0:
        require(not ok and c.ngood == 0, 'a centre without candidates')
        return 'none'
    lam = float(cl.Lambda)
    n = conf.percolation_maxcen
    if c.ngood == 0:
        require(not np.any(basic > 1e-9), 'no central candidate although one has probability %g', basic.max())
        i = use[np.argmin(nb.r[use])]
        require(c.q_miss == 1 and c.index[0] == i and c.maxind == i and np.all(c.p_cen == 0) and np.all(c.q_cen == 0), 'centre of a cluster without central candidate')
        return 'miss'
    require(ok and c.q_miss == 0, 'find_center')
    k = int(c.ngood)
    idx = np.asarray(c.index[:k])
    require(k <= n and np.unique(idx).size == k and np.all(np.isin(idx, use)) and c.maxind == idx[0], 'candidates %s', idx)
    blank(c, k, conf)
    require(np.array_equal(c.ra[:k], nb.ra[idx]) and np.array_equal(c.dec[:k], nb.dec[idx]) and np.all(c.ra[k:] == -400) and np.all(c.dec[k:] == -400), 'candidate positions')
    pc, qc, ps, pf, p0 = (np.asarray(a[:k], 'f8') for a in (c.p_cen, c.q_cen, c.p_sat, c.p_fg, c.p_c))
    for a in (pc, qc, ps, pf, p0):
        require(np.all(a >= 0) and np.all(a <= 1 + 1e-9), 'probabilities outside [0, 1]: %s', a)
    require(abs(pc.sum() - 1) < 1e-6 and qc.sum() <= 1 + 1e-6, 'central probabilities sum to %g, %g', pc.sum(), qc.sum())
    require(np.all(np.diff(p0) <= 1e-12) and np.all(np.diff(pc) <= 1e-12), 'candidates are not in order of probability')
    tot = pc + ps + pf
    fin = np.abs(tot - pc) > 0
    require(np.all(np.abs(tot[fin] - 1) < 1e-6), 'probabilities of one candidate sum to %s', tot)
    if near:
        return 'trivial-near'
    pos = {int(u): q for q, u in enumerate(use)}
    q = np.array([pos[int(i)] for i in idx])
    require(np.allclose(p0, basic[q], rtol=1e-3, atol=1e-6), 'central probability %s, expected %s', p0, basic[q])
    left = np.setdiff1d(np.flatnonzero(basic > 1e-9), q)
    if k < n:
        require(left.size == 0, '%d further candidates were left out', left.size)
    elif left.size:
        require(basic[left].max() <= p0.min()*(1 + 1e-2) + 1e-6, 'a more probable candidate was left out')
    un = np.array([basic[q[j]]*np.prod(np.delete(1 - basic[q], j)) for j in range(k)])
    miss = np.prod(1 - basic[q])
    tight = basic[q].max() > 0.9     # then 1-p amplifies rounding of the model
    tol = 0.02 if tight else 2e-3
    require(np.allclose(pc, un/un.sum(), atol=tol) and np.allclose(qc, un/(un.sum() + miss), atol=tol), 'central probabilities %s, expected %s', pc, un/un.sum())
    with np.errstate(all='ignore'):
        fg = b[q]/((lam - 1)*us[q] + b[q])
    ok = np.isfinite(fg)
    require(np.allclose(pf[ok], ((1 - pc)*fg)[ok], atol=5e-3), 'foreground probabilities')
    return 'ranked' if k > 1 else 'single'


def check_random(case):
    rs, s, conf, cl = setup(case)
    snap = snapshot(cl)
    np.random.seed(case['seed'] % 2**31)
    N = 300
    sc, rl = S.mpc_per_deg(conf.cosmo, cl.redshift), float(cl.r_lambda)
    d, ph = [], []
    for _ in range(N):
        c = CenteringRandom(cl)
        require(c.find_center() and c.ngood == 1 and c.index[0] == -1 and c.maxind == -1, 'random centre')
        require(c.p_cen[0] == 1 and c.q_cen[0] == 1 and c.p_sat[0] == 0 and c.p_fg[0] == 0 and c.p_c[0] == 1, 'random centre values')
        d.append(W.sep(cl.ra, cl.dec, c.ra[0], c.dec[0])*sc)
        ph.append(np.arctan2(c.dec[0] - cl.dec, ((c.ra[0] - cl.ra + 180) % 360 - 180)*np.cos(np.radians(cl.dec))))
    unchanged(cl, snap)
    d, ph = np.array(d)/rl, np.array(ph)
    require(np.all(d <= 1.01), 'random centre at %g of the cluster radius', d.max())
    for x, what in ((np.sort(np.clip(d, 0, 1)**2), 'area'), (np.sort((ph + np.pi)/(2*np.pi)), 'angle')):
        k = np.max(np.abs(x - (np.arange(N) + 0.5)/N))
        require(k < 3.2/np.sqrt(N) + 0.01, 'random centres are not uniform in %s: %g', what, k)
    return 'uniform'


def check_sat(case):
    rs, s, conf, cl = setup(case)
    nb = cl.neighbors
    if not np.sum(nb.pmem) > 0:
        return 'trivial-none'
    snap = snapshot(cl)
    np.random.seed(case['seed'] % 2**31)
    N = 400
    cnt = np.zeros(nb.size)
    for _ in range(N):
        c = CenteringRandomSatellite(cl)
        require(c.find_center() and c.ngood == 1, 'satellite centre')
        i = int(c.maxind)
        require(c.index[0] == i and c.ra[0] == nb.ra[i] and c.dec[0] == nb.dec[i] and c.p_cen[0] == 1 and c.q_cen[0] == 1 and c.p_sat[0] == 0, 'satellite centre values')
        require(nb.pmem[i] > 0, 'a galaxy without membership was chosen')
        cnt[i] += 1
    unchanged(cl, snap)
    share = np.asarray(nb.pmem, 'f8')/np.sum(nb.pmem)
    st_ = np.argsort(share)[::-1]
    # cumulative frequencies in order of membership, within the granularity of the draw
    dev = np.abs(np.cumsum(cnt[st_])/N - np.cumsum(share[st_]))
    require(dev.max() < 3.2/np.sqrt(N) + 1.5/nb.size, 'satellites are not chosen in proportion to membership: %g', dev.max())
    return 'drawn'


base = dict(seed=st.integers(1, 2**20), where=st.sampled_from(['mid', 'wrap', 'zero', 'high']), z=st.floats(0.15, 0.35), nred=st.integers(2, 50), nfield=st.integers(1, 60),
            taken=st.sampled_from([0.0, 0.3, 0.95]), mem=st.sampled_from(['solved', 'solved', 'random']), zspec=st.booleans())
bcg = st.fixed_dictionaries(base)
wcen = st.fixed_dictionaries(dict(base, uselum=st.booleans(), maxcen=st.sampled_from([5, 5, 2, 1, 8]), cut=st.sampled_from([0.5, 0.5, 0.9]), maxlam=st.sampled_from([100.0, 20.0, 8.0]),
                                  rsoft=st.sampled_from([0.05, 0.1]), chimax=st.sampled_from([100.0, 20.0, 3.0]), corr=st.booleans()))

TESTS = [T('brightest', bcg, check_bcg, quick=150, thorough=6000, rule='at least three galaxies compete'),
         T('wcen', wcen, check_wcen, quick=250, thorough=10000, rule='candidates exist and no separation is at a radius cut'),
         T('random', bcg, check_random, quick=15, thorough=300, rule='always'),
         T('satellite', bcg, check_sat, quick=25, thorough=600, rule='the cluster has members')]
