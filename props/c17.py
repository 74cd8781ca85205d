"""C17: cluster redshifts and p(z)."""
import numpy as np
from scipy.integrate import simpson
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from props.c02 import FixedMask, get_maskgals
from redmapper.cluster import Cluster
from redmapper.galaxy import GalaxyCatalog
from redmapper.zlambda import Zlambda

ASSUMPTIONS = ['the red-sequence model and its likelihoods are tabulated on a 0.001 grid of redshift, so redshifts are compared within two grid steps',
               'membership weights are recomputed with the public richness measurement (C02) at the redshift the p(z) grid is centred on']


def setup(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    conf = S.conf(s, zlambda_topfrac=case['topfrac'], npzbins=case['npz'], lval_reference=case['lval'])
    z = case['z']
    g = S.cluster_gals(rs, s, 120., 10., z, case['nred'], case['nfield'], scale=S.mpc_per_deg(conf.cosmo, z))
    if case['reorder']:
        g = g[rs.permutation(g.size)]
    cl = Cluster(config=conf, zredstr=s.zredstr, bkg=s.bkg, r0=1.0, beta=0.2)
    cl.ra, cl.dec = 120., 10.
    cl.redshift = z
    if g.size:
        cl.find_neighbors(2.0, GalaxyCatalog(g), megaparsec=True)
    mg = get_maskgals(conf)
    mg.mark = np.ones(mg.size, dtype=bool)
    return rs, s, conf, g, cl, FixedMask(conf, mg, [0.0, 0.0, 0.0, case['c0']])


def weights(cl, mask, z, conf, zstart):
    """Weights of the galaxies in the redshift likelihood, at redshift z."""
    c = cl.copy()
    c.redshift = z
    nb = c.neighbors
    maxrad = 1.2*c.r0*3.0**c.beta
    inr = np.flatnonzero(nb.r < maxrad)
    lam = c.calc_richness(mask, calc_err=False, index=inr)
    w = np.array(nb.pcol, 'f8')
    maxmag = float(cl.zredstr.mstar(zstart)) - 2.5*np.log10(conf.lval_reference)
    use = np.flatnonzero((nb.r < maxrad) & (nb.refmag < maxmag) & (w > 0))
    if lam < conf.percolation_minlambda or use.size < 3:
        return None
    n = min(max(conf.zlambda_topfrac*w.sum(), 3), use.size)
    th = np.sort(w[use])[::-1][int(np.around(n)) - 1]
    pw = 1/(np.exp((th - w[use])/0.04) + 1)
    ok = pw > 0.001
    return c.neighbors[use[ok]], pw[ok]


def loglike(cl, wt, z):
    return float(np.sum(wt[1]*np.asarray(cl.zredstr.calculate_chisq(wt[0], z, calc_lkhd=True), 'f8')))


def check(case):
    rs, s, conf, g, cl, mask = setup(case)
    cl.calc_richness(mask)
    before = (cl.redshift, float(cl.Lambda), float(cl.Lambda_e), float(cl.r_lambda), float(cl.scaleval), np.array(cl.neighbors._ndarray, copy=True), cl.mstar, cl.mpc_scale)
    cl.z_lambda = 0.777
    zin = case['z'] + case['dz']
    zl = Zlambda(cl)
    z, e = zl.calc_zlambda(zin, mask, calc_err=case['err'], calcpz=case['err'] and case['pz'], record_values=case['record'])
    after = (cl.redshift, float(cl.Lambda), float(cl.Lambda_e), float(cl.r_lambda), float(cl.scaleval), cl.neighbors._ndarray, cl.mstar, cl.mpc_scale)
    for a, b in zip(before, after):
        same = all(np.array_equal(a[n], b[n], equal_nan=a[n].dtype.kind == 'f') for n in a.dtype.names) if isinstance(a, np.ndarray) and a.dtype.names else a == b
        require(same, 'measuring the redshift changed the cluster')
    require(abs(float(cl.z_lambda) - (z if case['record'] else 0.777)) < 1e-6, 'recorded redshift %g for %g', cl.z_lambda, z)
    z, e = float(z), float(e)
    require(float(zl.z_lambda) == z and float(zl.z_lambda_err) == e, 'stored values differ from the returned ones')
    want_pz = case['err'] and case['pz']
    if z <= 0:
        require(z < 0 and e == -1, 'failure reports %g, %g', z, e)
        if want_pz:
            require(np.size(zl.pzbins) == conf.npzbins and np.all(zl.pz == 0), 'p(z) of a failed measurement')
        require(not (case['nred'] >= 25 and abs(case['dz']) < 0.02 and 0.16 < case['z'] < 0.34 and case['lval'] == 0.2), 'a rich cluster at %g has no redshift', case['z'])
        return 'trivial-failed'
    if case['nred'] >= 20 and 0.14 < case['z'] < 0.36:
        tol = 0.006 + (5*e if e > 0 else 0.02)
        require(abs(z - case['z']) < tol, 'cluster at %g measured at %g +- %g', case['z'], z, e)
    if not case['err']:
        zc = z
    else:
        require(e > 0 and np.isfinite(e), 'error %g', e)
        zc = z
    if want_pz:
        b, p = np.asarray(zl.pzbins, 'f8'), np.asarray(zl.pz, 'f8')
        n = conf.npzbins
        require(b.size == n and p.size == n and np.all(p >= 0) and np.all(np.isfinite(p)), 'p(z) values')
        require(np.allclose(np.diff(b), zl.pzbinsize, rtol=1e-6) and zl.pzbinsize > 0, 'p(z) bins are not uniform and increasing')
        require(abs(simpson(y=p, x=b) - 1) < 1e-6, 'p(z) integrates to %g', simpson(y=p, x=b))
        require(b[0] <= z <= b[-1], 'p(z) bins %g to %g do not contain the redshift %g', b[0], b[-1], z)
        k = np.argmax(p)
        require(abs(b[k] - z) <= conf.zlambda_tol + 1e-9, 'p(z) peaks at %g, redshift %g', b[k], z)
        mean = np.sum(p*b)/p.sum()
        sd = np.sqrt(np.sum(p*(b - mean)**2)/p.sum())
        inner = s.zredstr.z[0] + 0.01 < b[0] and b[-1] < s.zredstr.z[-2] - 0.01
        if sd > 1.5*zl.pzbinsize and inner and case['nred'] >= 15:
            require(0.75 < e/sd < 1.4, 'error %g for a p(z) of width %g', e, sd)
        # the grid is centred on the redshift of the weights
        zc = b[(n - 1)//2]
    wt = weights(cl, mask, zc, conf, zin)
    if wt is None:
        return 'trivial-edge'
    if want_pz:
        ref = np.array([loglike(cl, wt, x) for x in b])
        vol = np.asarray(s.zredstr.volume_factor)[s.zredstr.zindex(b)]
        ref = np.exp(ref - ref.max())*vol
        ref /= simpson(y=ref, x=b)
        slow = not abs(zc - z) < 1e-7 and abs(z - b[k]) > 1e-7
        if not slow and zl.niter < conf.zlambda_maxiter:
            require(np.all(np.abs(p - ref) < 2e-3*ref.max()), 'p(z) differs from the likelihood of its members by %g of its peak', np.max(np.abs(p - ref))/ref.max())
            if inner and 0.0101 < b[-1] - b[0] < 0.29 and case['nred'] >= 20 and case['dz'] == 0:
                drop = loglike(cl, wt, zc) - loglike(cl, wt, b[-1])
                require(4 < drop < 100, 'p(z) grid ends where the log likelihood dropped by %g', drop)
    # the redshift maximises the likelihood of its members
    grid = zc + np.arange(-0.03, 0.0301, 0.001)
    ll = np.array([loglike(cl, wt, x) for x in grid])
    best = grid[np.argmax(ll)]
    if s.zredstr.z[0] + 0.03 < best < s.zredstr.z[-2] - 0.03 and abs(best - zc) < 0.029 and case['nred'] >= 15 and zl.niter < conf.zlambda_maxiter:
        w = np.exp(ll - ll.max())
        width = np.sqrt(np.sum(w*(grid - best)**2)/w.sum())
        require(abs(zc - best) < 0.003 + 0.6*width, 'redshift %g, its members are most likely at %g +- %g', zc, best, width)
    if case['err'] and not case['pz']:
        g2 = np.arange(0.001, 0.1, 0.0005)
        l0 = loglike(cl, wt, z)
        hi = [x for x in g2 if loglike(cl, wt, z + x) < l0 - 1]
        lo = [x for x in g2 if loglike(cl, wt, z - x) < l0 - 1]
        if hi and lo and z + 0.1 < s.zredstr.z[-2] and z - 0.1 > s.zredstr.z[0] and case['nred'] >= 15 and max(hi[0], lo[0]) < 0.04:
            require(abs(e - (hi[0] + lo[0])/2) < 0.0018 + 0.12*e, 'error %g, log likelihood drops by one at -%g +%g', e, lo[0], hi[0])
    return 'pz' if want_pz else ('gauss' if case['err'] else 'noerr')


def check_order(case):
    """The order in which the galaxies are listed does not matter."""
    out = []
    for re in (False, True):
        rs, s, conf, g, cl, mask = setup(dict(case, reorder=re))
        zl = Zlambda(cl)
        out.append(zl.calc_zlambda(case['z'] + case['dz'], mask, calc_err=True, calcpz=True) + (np.array(zl.pz), np.array(zl.pzbins)))
    a, b = out
    require(abs(a[0] - b[0]) < 2e-5 and abs(a[1] - b[1]) < 1e-3*abs(a[1]) + 1e-6, 'redshift %g +- %g, reordered %g +- %g', a[0], a[1], b[0], b[1])
    require(np.allclose(a[3], b[3], atol=1e-4) and np.allclose(a[2], b[2], atol=0.02*np.max(np.abs(a[2])) + 1e-9), 'p(z) depends on the order')
    return 'trivial-failed' if a[0] < 0 else 'same'


cases = st.fixed_dictionaries(dict(seed=st.integers(1, 2**20), z=st.one_of(st.floats(0.13, 0.37), st.sampled_from([0.11, 0.12, 0.385, 0.39])), dz=st.sampled_from([0.0, 0.0, 0.01, -0.01, 0.03, -0.03]),
                                   nred=st.one_of(st.integers(15, 60), st.integers(15, 60), st.integers(0, 12)), nfield=st.integers(1, 60), topfrac=st.sampled_from([0.7, 0.7, 0.3, 1.0]),
                                   npz=st.sampled_from([21, 21, 11, 31]), lval=st.sampled_from([0.2, 0.2, 0.5]), reorder=st.booleans(), c0=st.sampled_from([0.0, 0.0, 0.2]),
                                   err=st.sampled_from([True, True, True, False]), pz=st.sampled_from([True, True, False]), record=st.booleans()))

TESTS = [T('redshift', cases, check, quick=120, thorough=6000, rule='the cluster has a measurable redshift'),
         T('order', cases, check_order, quick=15, thorough=600, rule='the cluster has a measurable redshift')]
