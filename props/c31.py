"""C31: runs at given positions (runcat, firstpass, likelihoods, redshift scan, random points)."""
import contextlib
import types
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from props import c18
import redmapper.cluster_runner as cr
from redmapper.cluster import Cluster
from redmapper.galaxy import GalaxyCatalog
from redmapper.mask import get_mask, Mask
from redmapper.depthmap import DepthMap
from redmapper.depth_fitting import DepthLim
from redmapper.zlambda import Zlambda, ZlambdaCorrectionPar
from redmapper.runcat import RunCatalog
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_zscan import RunZScan
from redmapper.run_randoms_zmask import RunRandomsZmask
from redmapper.randoms import RandomCatalogMaker

ASSUMPTIONS = ['the measurement at one position (richness, redshift, mask fraction) through the public cluster, mask and depth classes is decided by C01-C04, C07, C17, C20 and C29; '
               'here every row of a run is compared with a separate measurement at that row',
               'one mask-galaxy sample is configured and the noise drawn by the mask correction is the same in every call, so that the measurement has no random choice']


class Edge(Exception):
    pass


@contextlib.contextmanager
def repeatable():
    """The mask correction draws photometric noise: use the same draws in every call."""
    orig = Mask.calc_maskcorr

    def calc(self, *a, **k):
        state = np.random.get_state()
        np.random.seed(12345)
        try:
            return orig(self, *a, **k)
        finally:
            np.random.set_state(state)
    Mask.calc_maskcorr = calc
    try:
        yield
    finally:
        Mask.calc_maskcorr = orig


class World(object):
    """Sky, files and configuration of a case."""
    def __init__(self, case, **kw):
        self.case = case
        self.s = s = S.survey()
        self.rs = rs = np.random.RandomState(case['seed'])
        self.ra0, self.dec0 = {'mid': (40.0, 10.0), 'wrap': (0.02, -3.0), 'high': (120.0, 70.0)}[case['where']]
        cosmo = S.conf(s).cosmo
        specs = [(c['dx'], c['dy'], case['z'] + c['dz'], c['n']) for c in case['clusters']]
        specs[0] = (0.0, 0.0, case['z'], specs[0][3])
        # no two clusters at one position
        keep = [i for i, a in enumerate(specs) if all(abs(a[0] - b[0]) + abs(a[1] - b[1]) > 0.02 for b in specs[:i])]
        specs = [specs[i] for i in keep]
        case = dict(case, clusters=[case['clusters'][i] for i in keep])
        self.case = case
        self.specs = specs
        self.g, self.rows = S.sky(rs, s, cosmo, self.ra0, self.dec0, specs, nfield=case['nfield'])
        if not case['depth']:
            # errors of a survey with one depth, so that the depth can be fitted
            f, sk = 10**(0.4*(22.5 - self.g['refmag'])), 10**(0.4*(22.5 - s.limmag))/10.
            self.g['refmag_err'] = 2.5/np.log(10)*np.sqrt(f/400. + sk**2)/f*np.exp(0.02*rs.normal(size=f.size))
        self.gf, self.zf = S.write_sky(self.g, s, nside=case['nside'])
        d = dict(galfile=self.gf, zredfile=self.zf, maskgalfile='mg.fit', maskgal_nsamples=1, percolation_lmask=0.1, **S.WCEN)
        self.hole = None
        if case['depth']:
            ns = 512
            ctr = hpg.query_circle(ns, self.ra0 % 360, self.dec0, 1.2, nest=True, inclusive=True)
            hole = ctr[rs.uniform(size=ctr.size) < case['holes']] if case['holes'] else ctr[:0]
            good = ctr[~np.isin(ctr, hole)]
            v = np.zeros(ctr.size, dtype=S.DEPTH_DT)
            v['exptime'], v['limmag'], v['m50'], v['fracgood'] = 100. + rs.uniform(0, 20, ctr.size), s.limmag - rs.uniform(0, 0.5, ctr.size), s.limmag, 1.0
            S.hs_depth('d.hsp', ns, ctr, v)
            S.hs_mask('m.hsp', ns, {int(p): 1.0 for p in good})
            d.update(depthfile='d.hsp', maskfile='m.hsp', mask_mode=3)
            self.hole = hole
        if case.get('corr'):
            t, hdr = c18.table(dict(seed=case['seed'], zrange=[0.1, 0.4], no=5, ns=4, niter=1, form='plain', inset=(0., 0.), uneven=False, size=0.004, binsize=0.002, pivot=30.0))
            fitsio.write('corr.fit', t, header=hdr, clobber=True)
            d.update(zlambdafile='corr.fit', zlambda_pivot=30.0)
        d.update(kw)
        np.random.seed(case['seed'] % 2**31)
        self.conf = S.conf(s, **d)
        S.maskgals(self.conf, 'mg.fit')

    def go(self, cls, init={}, **kw):
        s = self.s
        saved = {k: getattr(cr, k) for k in ('Background', 'ZredBackground', 'RedSequenceColorPar') if hasattr(cr, k)}
        try:
            for k, v in (('Background', s.bkg), ('ZredBackground', s.zredbkg), ('RedSequenceColorPar', s.zredstr)):
                if k in saved:
                    setattr(cr, k, lambda *a, _v=v, **kk: _v)
            zr = [float(x) for x in self.conf.zrange]
            r = cls(self.conf, **init)
            r.run(**kw)
            require([float(x) for x in self.conf.zrange] == zr, 'the run changed the configured redshift range to %s', self.conf.zrange)
        finally:
            for k, v in saved.items():
                setattr(cr, k, v)
        return r

    def measure(self, r0, beta, chisq_cut, zreds, rmask=True):
        """What is needed for separate measurements."""
        c, s, g = self.conf, self.s, self.g
        self.r0, self.beta = r0, beta
        mb = np.asarray(s.bkg.refmagbins, 'f8')
        ok = (g['refmag'] > mb[0]) & (g['refmag'] < 2*mb[-1] - mb[-2])
        if chisq_cut and zreds:
            ok &= g['chisq'] < c.chisq_max
        names = [n for n in g.dtype.names if zreds or n not in W_ZRED]
        gg = np.zeros(int(ok.sum()), dtype=[d for d in g.dtype.descr if d[0] in names])
        for n in names:
            gg[n] = g[n][ok]
        self.gals = GalaxyCatalog(gg)
        ext = lambda a, b: 1.2*a if beta == 0 else a*3.0**b
        self.maxrad = ext(r0, beta)
        if rmask:
            self.maxrad = max(self.maxrad, ext(c.percolation_rmask_0, c.percolation_rmask_beta))
        if c.bkg_local_compute:
            self.maxrad = max(self.maxrad, c.bkg_local_annuli[1])
        self.mask = get_mask(c)
        self.mask.select_maskgals_sample()
        self.depth = DepthMap(c) if self.case['depth'] else DepthLim(self.gals.refmag, self.gals.refmag_err)
        self.limlum = max(c.lval_reference - 0.1, 0.01)

    def at(self, ra, dec, z, taken=None, maxmag=True, start=True):
        """A cluster set up at a position, and its first mask fraction."""
        s = self.s
        cl = Cluster(config=self.conf, zredstr=s.zredstr, bkg=s.bkg, zredbkg=s.zredbkg, r0=self.r0, beta=self.beta)
        cl.ra, cl.dec = ra, dec
        cl.redshift = z
        mm = cl.mstar - 2.5*np.log10(self.limlum) if maxmag else None
        d = W.sep(ra, dec, self.gals.ra, self.gals.dec)*cl.mpc_scale
        if np.any(np.abs(d - self.maxrad) < 1e-4) or (maxmag and np.any(np.abs(self.gals.refmag[d < self.maxrad] - mm) < 1e-5)):
            raise Edge
        if not np.any((d < self.maxrad) & ((self.gals.refmag < mm) if maxmag else True)):
            return cl, None
        cl.find_neighbors(self.maxrad, self.gals, megaparsec=True, maxmag=mm)
        if taken is not None:
            cl.neighbors.pfree[:] = np.clip(1 - taken[cl.neighbors.index], 0, None)
        self.set_depth(cl)
        mg = self.mask.maskgals
        cl.lim_exptime, cl.lim_limmag, cl.lim_limmag_hard = np.median(mg.exptime), np.median(mg.limmag), self.conf.limmag_catalog
        self.mask.set_radmask(cl)
        return cl, self.frac(1.0)

    def set_depth(self, cl):
        mg = self.mask.maskgals
        if self.case['depth']:
            self.depth.calc_maskdepth(mg, cl.ra, cl.dec, cl.mpc_scale)
        else:
            self.depth.calc_maskdepth(mg, cl.neighbors.refmag, cl.neighbors.refmag_err)

    def frac(self, r):
        mg = self.mask.maskgals
        ins = np.asarray(mg.r) < r
        return 1.0 if not ins.any() else float(np.mean(np.asarray(mg.mark)[ins] == 0))


W_ZRED = [d[0] for d in W.zred_dtype(4)]


def close(name, k, a, b, tol, rel=0.0):
    a, b = np.asarray(a, 'f8'), np.asarray(b, 'f8')
    require(a.shape == b.shape and np.all(np.abs(a - b) <= tol + rel*np.abs(b)), 'row %s: %s is %s, the measurement at that position gives %s', k, name, a, b)


def edge(x, y, tol):
    if abs(float(x) - float(y)) < tol:
        raise Edge


def same_row(k, row, ref, names):
    for n in names:
        require(np.array_equal(np.asarray(getattr(row, n)), np.asarray(ref[n])), 'row %s: input column %s is %s, was %s', k, n, getattr(row, n), ref[n])


BAD = dict(Lambda=-1.0, Lambda_e=-1.0, scaleval=-1.0, z_lambda=-1.0, z_lambda_e=-1.0)


def richness(k, row, cl, err=True, f=1.0):
    close('richness', k, row.Lambda, cl.Lambda, 0.03*f, 1e-3*f)
    close('richness error', k, row.Lambda_e, cl.Lambda_e if err else 0.0, 0.02*f, 1e-2*f)
    close('radius', k, row.r_lambda, cl.r_lambda, 1e-4*f, 1e-3*f)
    close('scale', k, row.scaleval, cl.scaleval, 1e-3*f, 2e-3*f)


def limits(k, row, cl, w):
    close('exposure time', k, row.lim_exptime, cl.lim_exptime, 1e-3, 1e-4)
    close('limiting magnitude', k, row.lim_limmag, cl.lim_limmag, 1e-3)
    close('catalogue limit', k, row.lim_limmag_hard, cl.lim_limmag_hard, 1e-5)


def masked(k, row, w, n=None):
    mg = w.mask.maskgals
    r = float(row.r_lambda)
    if np.any(np.abs(np.asarray(mg.r) - r) < 1e-3*r):
        ins = np.asarray(mg.r) < r
        tol = 3.0*np.mean(np.abs(np.asarray(mg.r) - r) < 1e-3*r)/max(np.mean(ins), 1e-3)
    else:
        tol = 0
    close('mask fraction', k, row.maskfrac, w.frac(r), 1e-6 + tol)


def positions(w, zcol, extra=True):
    """Seed rows: galaxies of the clusters, some of them at unusual redshifts or away from any galaxy."""
    case, rs = w.case, w.rs
    pick, z = [], []
    for i, r in enumerate(w.rows):
        for j in range(min(1 + case['clusters'][i]['extra'], r.size)):
            pick.append(r[j])
            z.append(w.specs[i][2] + (0.0 if j == 0 else 0.004*rs.normal()))
    return np.array(pick), np.array(z)


def perturb(c, w):
    for k in w.case['spoil']:
        i, what = k % c.size, (k // c.size) % 3
        if what == 0:
            c['ra'][i], c['dec'][i] = W.offset(c['ra'][i], c['dec'][i], w.rs.uniform(-0.1, 0.1), w.rs.uniform(-0.1, 0.1))
        elif what == 1:
            c['z'][i] = w.rs.choice([0.13, 0.15, 0.37, 0.35])
        else:
            c['ra'][i], c['dec'][i] = W.offset(w.ra0, w.dec0, 0.0, 3.0)


def t_runcat(case):
    kw = {}
    if case['bkgloc']:
        kw = dict(bkg_local_compute=True, bkg_local_annuli=[0.8, 1.6] if case['seed'] % 3 == 0 else [1.2, 2.6])
    w = World(case, catfile='in.fit', **kw)
    pick, z = positions(w, 'z')
    ids = w.rs.permutation(pick.size) + 50 if case['ids'] else None
    c = S.seed_cat('in.fit', w.g, pick, z, 1.0, 0.0, ids)
    perturb(c, w)
    fitsio.write('in.fit', c, clobber=True)
    opts = {k: v for k, v in (('do_percolation_masking', case['perc']), ('converge_zlambda', case['conv']), ('maxiter', case['maxiter']), ('tol', case['tol'])) if v is not None}
    r = w.go(RunCatalog, **opts)
    conf = w.conf
    require(r.cat is not None and r.cat.size == c.size, 'catalogue of %s rows for %d positions', None if r.cat is None else r.cat.size, c.size)
    w.measure(conf.percolation_r0, conf.percolation_beta, True, False)
    w.limlum = min(w.limlum, conf.percolation_lmask)
    corr = ZlambdaCorrectionPar(parfile='corr.fit', zlambda_pivot=30.0) if case.get('corr') else None
    taken = np.zeros(w.gals.size) if case['perc'] else None
    want_ids = ids if case['ids'] else (1 + np.arange(c.size))
    good = 0
    gid = np.asarray(w.gals.id)
    if r.members is not None:
        require(np.all(np.isin(r.members.mem_match_id, want_ids)), 'members of unknown clusters')
    maxiter = case['maxiter'] or 5
    tol = case['tol'] or 0.005
    fuzz = 1.0
    for k in range(c.size):
        row = r.cat[k]
        require(int(row.mem_match_id) == want_ids[k], 'row %d has identifier %d, expected %d', k, row.mem_match_id, want_ids[k])
        same_row(k, row, c[k], ('ra', 'dec', 'z'))
        m = r.members._ndarray[r.members.mem_match_id == want_ids[k]] if r.members is not None else []
        d = W.sep(c['ra'][k], c['dec'][k], w.gals.ra, w.gals.dec)*3600
        near = np.flatnonzero(d < 1.0)
        if near.size == 1:
            for n in ('refmag', 'refmag_err', 'mag', 'mag_err'):
                require(np.array_equal(getattr(row, n), getattr(w.gals, n)[near[0]]), 'row %d: %s is not that of the galaxy at its position', k, n)
        elif near.size == 0:
            same_row(k, row, c[k], ('refmag', 'refmag_err', 'mag', 'mag_err'))
        cl, frac = w.at(c['ra'][k], c['dec'][k], c['z'][k], taken)
        bad = False
        if frac is None:
            bad = True
        else:
            limits(k, row, cl, w)
            edge(frac, 0.7, 0.01)
            if frac > 0.7:
                bad = True
            else:
                for it in range(maxiter):
                    lam = cl.calc_richness(w.mask)
                    edge(lam, 3.0, 0.05*fuzz)
                    if lam < 3:
                        bad = True
                        break
                    zl = Zlambda(cl)
                    zz, ee = zl.calc_zlambda(cl.redshift, w.mask, calc_err=True, calcpz=True)
                    if zz < 0:
                        bad = True
                        break
                    if not case['conv']:
                        break
                    edge(abs(cl.redshift - zz), tol, 1e-4)
                    done = abs(cl.redshift - zz) < tol
                    cl.redshift = zz
                    if done:
                        break
        if bad:
            for n, v in BAD.items():
                require(float(getattr(row, n)) == v, 'row %d cannot be measured but has %s %g', k, n, getattr(row, n))
            require(len(m) == 0, 'row %d cannot be measured but has members', k)
            continue
        good += 1
        richness(k, row, cl, f=fuzz)
        masked(k, row, w)
        raw = zz, ee, np.array(zl.pzbins), np.array(zl.pz)
        if corr is not None:
            raw = corr.apply_correction(float(row.Lambda), zz, ee, pzbins=raw[2].copy(), pzvals=raw[3].copy())
        close('redshift', k, row.z_lambda, raw[0], 2e-4*fuzz)
        close('redshift error', k, row.z_lambda_e, raw[1], 2e-4*fuzz, 0.01*fuzz)
        close('p(z) bins', k, row.pzbins, raw[2], 5e-4*fuzz)
        close('p(z)', k, row.pz, raw[3], 0.03*fuzz*np.max(raw[3]))
        if case['bkgloc']:
            close('local background', k, row.bkg_local, cl.compute_bkg_local(w.mask, w.depth), 0.01*fuzz, 0.03*fuzz)
        # derivatives
        eps, t = conf.zlambda_epsilon, cl.copy()
        t.redshift = float(row.z_lambda) - eps
        a, ae = t.calc_richness(w.mask), float(t.Lambda_e)
        t.redshift = float(row.z_lambda) + eps
        b, be = t.calc_richness(w.mask), float(t.Lambda_e)
        if a > 0 and b > 0 and fuzz == 1.0:
            L, E = float(row.Lambda), float(row.Lambda_e)
            close('d lambda/dz', k, row.dlambda_dz, (np.log(b) - np.log(a))/(2*eps), 0.06/min(a, b)/eps)
            close('d2 lambda/dz2', k, row.dlambda_dz2, (np.log(b) + np.log(a) - 2*np.log(L))/eps**2, 0.2/min(a, b)/eps**2)
            close('d variance/dz', k, row.dlambdavar_dz, (be**2 - ae**2)/(2*eps), 0.1*max(ae, be)/eps + 1e-3/eps)
            close('d2 variance/dz2', k, row.dlambdavar_dz2, (be**2 + ae**2 - 2*E**2)/eps**2, 0.5*max(ae, be, 1)/eps**2)
        nb = cl.neighbors
        pm = np.asarray(nb.pmem, 'f8')
        if taken is not None:
            lam, rl = float(row.Lambda), float(row.r_lambda)
            rm = max(conf.percolation_rmask_0*(lam/100.)**conf.percolation_rmask_beta*((1 + cl.redshift)/(1 + conf.percolation_rmask_zpivot))**conf.percolation_rmask_gamma, rl)
            close('mask radius', k, row.r_mask, rm, 1e-3)
            lim = cl.mstar - 2.5*np.log10(conf.percolation_lmask)
            p = np.asarray(nb.p, 'f8')
            if np.any((p > 0) & ((np.abs(nb.r - rm) < 2e-3) | (np.abs(nb.refmag - lim) < 1e-4))):
                raise Edge
            u = (p > 0) & (nb.r < rm) & (nb.refmag < lim)
            fr = np.asarray(nb.pfree)
            if np.any((fr > 0.01) & (fr < 0.99)):
                fuzz = 2.0
            taken[nb.index[u]] += p[u]
        # members
        mn = {} if len(m) == 0 else {n.lower(): n for n in m.dtype.names}
        have = set() if len(m) == 0 else set(int(i) for i in m[mn['id']])
        require(len(have) == len(m), 'row %d lists a member twice', k)
        fr = np.asarray(nb.pfree)
        want = set(int(i) for i in gid[nb.index[(pm > 0.01) & (fr > 0.01)]])
        unsure = set(int(i) for i in gid[nb.index[(np.abs(pm - 0.01) < 1e-3*fuzz) | (np.abs(fr - 0.01) < 2e-3*fuzz)]])
        diff = (have ^ want) - unsure
        require(not diff, 'row %d: members differ for galaxies %s', k, sorted(diff)[:5])
        q = {int(i): n for n, i in enumerate(gid[nb.index])}
        for x in m:
            i = q[int(x[mn['id']])]
            for n in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'ebv'):
                require(np.array_equal(x[mn[n]], getattr(nb, n)[i]), 'row %d: member %d has %s %s', k, x[mn['id']], n, x[mn[n]])
            for n, tl in (('r', 1e-4), ('p', 5e-3*fuzz), ('pcol', 5e-3*fuzz), ('theta_i', 1e-3), ('theta_r', 2e-2*fuzz), ('chisq', 0.02*fuzz)):
                close('member ' + n, k, x[mn[n]], getattr(nb, n)[i], tl, tl)
            if int(x[mn['id']]) not in unsure:
                close('member pfree', k, x[mn['pfree']], fr[i], 5e-3*fuzz)
            close('member z', k, x[mn['z']], cl.redshift, 1e-4*fuzz)
    if case['write']:
        r.output(savemembers=True, withversion=False, clobber=True)
        a = fitsio.read(r.filename, ext=1, upper=True)
        for n in r.cat.dtype.names:
            require(np.array_equal(a[n.upper()], r.cat._ndarray[n]), 'written column %s', n)
    return 'measured %d' % min(good, 3) if good > 1 else 'trivial'


def t_firstpass(case):
    w = World(case, firstpass_niter=case['niter'], firstpass_r0=case['r0'], firstpass_minlambda=case['minlam'], firstpass_beta=case['beta'],
              seedfile='in.fit' if case['mode'] != 'zreds' else None)
    conf, s = w.conf, w.s
    n = 0
    if case['mode'] != 'zreds':
        pick, z = positions(w, 'zspec')
        n = pick.size
        c = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('mag', 'f4', 4), ('mag_err', 'f4', 4), ('refmag', 'f4'), ('refmag_err', 'f4'), ('zred', 'f4'), ('zred_e', 'f4'),
                               ('zred_chisq', 'f4'), ('ebv', 'f4'), ('zspec', 'f4')])
        for k in c.dtype.names:
            if k in w.g.dtype.names:
                c[k] = w.g[k][pick]
        c['zred_chisq'] = w.g['chisq'][pick]
        c['zred'] = z + 0.003*w.rs.normal(size=n)
        c['zspec'] = z
        for k in case['spoil']:
            i, what = k % n, (k // n) % 4
            if what == 0:
                c['zred'][i] = w.rs.choice([0.119, 0.05, 0.39, 0.381])
            elif what == 1:
                c['zred_chisq'][i] = w.rs.choice([19.9, 20.1, 50.])
            elif what == 2:
                c['zspec'][i] = w.rs.choice([0.13, 0.37])
            else:
                c['ra'][i], c['dec'][i] = W.offset(c['ra'][i], c['dec'][i], 0.05, 0.05)
        if n > 2:
            c['zred_chisq'][w.rs.randint(1, n)] = w.rs.choice([19.9, 20.1, 50.])
            c['zred'][w.rs.randint(1, n)] = w.rs.choice([0.119, 0.381, 0.25])
        fitsio.write('in.fit', c, clobber=True)
        ok = (c['zred'] >= np.float32(0.12)) & (c['zred'] <= np.float32(0.38)) & (c['zred_chisq'] < conf.chisq_max)
        if case['clean'] and case['depth']:
            ok &= ~np.isin(hpg.angle_to_pixel(512, c['ra'], c['dec'], nest=True), w.hole) & (W.sep(c['ra'], c['dec'], w.ra0, w.dec0) < 1.0)
        z0 = c['zspec'] if case['mode'] == 'spec' else c['zred']
        src = c
    r = w.go(RunFirstPass, init=dict(specmode=True) if case['mode'] == 'spec' else {}, keepz=case['keepz'], cleaninput=bool(case['clean']))
    w.measure(conf.firstpass_r0, conf.firstpass_beta, True, True)
    if case['mode'] == 'zreds':
        g = w.gals._ndarray
        nm = {k.lower(): k for k in g.dtype.names}
        zr = g[nm['zred']].astype('f8')
        inr = (zr >= 0.12) & (zr <= 0.38)
        ml = np.full(zr.size, -99.)
        ml[inr] = [float(s.zredstr.mstar(x)) for x in zr[inr]]
        ml -= 2.5*np.log10(conf.lval_reference)
        ok = inr & (g[nm['refmag']] < ml)
        src, z0 = {k: g[nm[k]] for k in nm}, g[nm['zred']]
        src['zred_chisq'] = g[nm['chisq']]
    sel = np.flatnonzero(ok)
    if sel.size == 0:
        require(r.cat is None, 'a catalogue without usable seeds')
        return 'trivial-none'
    require(r.cat is not None, 'no catalogue for %d usable seeds', sel.size)
    rc = r.cat
    require(np.all(np.asarray(rc.Lambda) >= case['minlam'] - 1e-4), 'a row below the richness cut')
    used, good = 0, 0
    niter = 1 if case['mode'] == 'spec' else case['niter']
    where = {}
    for i in range(rc.size):
        where.setdefault((float(rc.ra[i]), float(rc.dec[i])), []).append(i)
    require(all(len(v) == 1 for v in where.values()), 'a position is listed twice')
    last = -1
    todo = sel if sel.size <= 12 else np.sort(w.rs.choice(sel, 12, replace=False))
    allowed = set((float(src['ra'][i]), float(src['dec'][i])) for i in sel)
    require(set(where) <= allowed, 'rows %s were not among the usable seeds', sorted(set(where) - allowed)[:3])
    order = [next(iter(where[(float(src['ra'][i]), float(src['dec'][i]))])) for i in sel if (float(src['ra'][i]), float(src['dec'][i])) in where]
    require(np.all(np.diff(order) > 0) if len(order) > 1 and case['mode'] != 'zreds' else True, 'rows are not in input order')
    for k in todo:
        key = (float(src['ra'][k]), float(src['dec'][k]))
        try:
            out = first(w, key[0], key[1], float(z0[k]), niter, case['keepz'], case['minlam'])
        except Edge:
            continue
        if out is None:
            require(key not in where, 'seed %d cannot be measured but is in the catalogue', k)
            continue
        require(key in where, 'seed %d at z=%g with richness %g is not in the catalogue', k, z0[k], out[0].Lambda)
        cl, zz, ee, nit = out
        row = rc[where[key][0]]
        good += 1
        for a, b in (('refmag', 'refmag'), ('refmag_err', 'refmag_err'), ('mag', 'mag'), ('mag_err', 'mag_err'), ('zred', 'zred'), ('zred_e', 'zred_e'), ('zred_chisq', 'zred_chisq')):
            require(np.array_equal(getattr(row, a), src[b][k]), 'seed %d: %s is %s, was %s', k, a, getattr(row, a), src[b][k])
        require(float(row.z_init) == float(z0[k]), 'seed %d: initial redshift %g, was %g', k, row.z_init, z0[k])
        if case['mode'] != 'zreds':
            require(float(row.z_spec_init) == float(c['zspec'][k]) and float(row.ebv_mean) == float(c['ebv'][k]), 'seed %d: spectroscopic redshift or extinction', k)
        limits(k, row, cl, w)
        richness(k, row, cl, err=False)
        masked(k, row, w)
        close('redshift', k, row.z_lambda, zz, 2e-4)
        close('redshift error', k, row.z_lambda_e, ee, 2e-4, 0.02)
        close('output redshift', k, row.z, c['zspec'][k] if case['mode'] == 'spec' else zz, 2e-4)
        close('central chi-squared', k, row.chisq, cl.neighbors.chisq[np.argmin(cl.neighbors.r)], 0.02, 0.02)
    return 'measured' if good > 1 else 'trivial'


def first(w, ra, dec, z, niter, keepz, minlam):
    conf = w.conf
    cl, frac = w.at(ra, dec, z)
    if frac is None:
        return None
    edge(frac, 1.0, 1e-9) if frac < 1 else None
    if frac == 1.0:
        return None
    for i in range(niter):
        lam = cl.calc_richness(w.mask, calc_err=False)
        if lam < 0:
            return None
        edge(lam, minlam/float(cl.scaleval), 0.05)
        edge(lam, minlam, 0.05)
        if lam < minlam/float(cl.scaleval):
            return None
        zl = Zlambda(cl)
        zz, ee = zl.calc_zlambda(cl.redshift, w.mask, calc_err=True, calcpz=False)
        edge(zz, 0.12, 3e-4)
        edge(zz, 0.38, 3e-4)
        if zz < 0.12 or zz > 0.38:
            return None
        if not keepz and i < niter - 1:
            cl.redshift = zz
    if lam < minlam:
        return None
    if not keepz:
        cl.redshift = zz
    return cl, zz, ee, zl.niter


def t_like(case):
    on = case['wcen']
    kw = {} if on else {k: None for k in S.WCEN}
    if on and case['sharp']:
        kw = dict(wcen_sigma_m=case['sharp'])
    if on and case['seed'] % 2:
        kw['wcen_maxlambda'] = 8.0
    w = World(case, catfile='in.fit', likelihoods_use_zred=case['usez'], likelihoods_minlambda=case['minlam'], **kw)
    conf, s = w.conf, w.s
    pick, z = positions(w, 'z')
    c0 = S.seed_cat('in.fit', w.g, pick, z, 10.0, 0.0, 1 + np.arange(pick.size))
    c = np.zeros(c0.size, dtype=c0.dtype.descr + [('z_lambda', 'f4')])
    for k in c0.dtype.names:
        c[k] = c0[k]
    perturb(c, w)
    c['z_lambda'] = c['z'] + 0.002*w.rs.normal(size=c.size)*case['zoff']
    for k in case['spoil']:
        i, what = k % c.size, (k // c.size) % 5
        if what == 0:
            c['lambda'][i] = w.rs.choice([-1.0, 0.0])
        elif what == 1:
            c['z'][i] = w.rs.choice([0.119, 0.06, 0.39, 0.381, 0.44])
        elif what == 2:
            c['refmag'][i] += 3.0
    fitsio.write('in.fit', c, clobber=True)
    r = w.go(RunLikelihoods, keepz=case['keepz'], cleaninput=case['clean'])
    w.measure(conf.likelihoods_r0, conf.likelihoods_beta, True, case['usez'])
    lo, hi = (max(0.12 - conf.calib_zrange_cushion, 0.05), 0.38 + conf.calib_zrange_cushion) if case['keepz'] else (0.12, 0.38)
    ml = np.array([float(s.zredstr.mstar(x)) for x in c['z']]) - 2.5*np.log10(w.limlum)
    ok = (c['z'] > lo) & (c['z'] < hi) & (c['lambda'] > 0) & (c['refmag'] < ml)
    if case['clean'] and case['depth']:
        ok &= ~np.isin(hpg.angle_to_pixel(512, c['ra'], c['dec'], nest=True), w.hole) & (W.sep(c['ra'], c['dec'], w.ra0, w.dec0) < 1.0)
    sel = np.flatnonzero(ok)
    if sel.size == 0:
        require(r.cat is None, 'a catalogue without usable input')
        return 'trivial-none'
    require(r.cat is not None, 'no catalogue for %d usable rows', sel.size)
    corr = ZlambdaCorrectionPar(parfile='corr.fit', zlambda_pivot=30.0) if case.get('corr') else None
    out = {int(i): k for k, i in enumerate(r.cat.mem_match_id)}
    require(len(out) == r.cat.size and set(out) <= set(int(i) for i in c['mem_match_id'][sel]), 'output rows %s', list(r.cat.mem_match_id))
    require(np.all(np.diff(r.cat.mem_match_id) > 0), 'output rows are not in input order')
    good = 0
    for k in sel:
        i = int(c['mem_match_id'][k])
        try:
            cl, frac = w.at(c['ra'][k], c['dec'][k], c['z'][k])
            bad = frac is None or frac == 1.0
            if not bad:
                lam = float(cl.calc_richness(w.mask))
                nb = cl.neighbors
                pm, rr = np.asarray(nb.pmem, 'f8'), np.asarray(nb.r, 'f8')
                ic = np.argmin(rr)
                cut = (pm > 0) & (rr > rr[ic])
                edge(lam, conf.likelihoods_minlambda, 0.05)
                bad = lam < conf.likelihoods_minlambda or cut.sum() < 3
                if np.any(cut & (pm < 1e-4)) and cut.sum() < 6:
                    raise Edge
        except Edge:
            continue
        if bad:
            require(i not in out, 'row %d cannot be measured but is in the catalogue', i)
            continue
        require(i in out, 'row %d with richness %g is not in the catalogue', i, lam)
        row = r.cat[out[i]]
        same_row(i, row, c[k], ('ra', 'dec', 'z', 'refmag', 'refmag_err', 'mag', 'mag_err', 'z_lambda'))
        good += 1
        limits(i, row, cl, w)
        richness(i, row, cl)
        masked(i, row, w)
        lnl = -lam/float(cl.scaleval) - np.sum(np.log(1 - pm[cut]))
        close('likelihood of the richness', i, row.lnlamlike, lnl, 0.02*(1 + lam/20), 5e-3)
        if not on:
            close('likelihood of the centre', i, row.lncglike, 0.0, 0.0)
        else:
            lg, m = np.log(lam/conf.wcen_pivot), float(nb.refmag[ic])
            mbar = cl.mstar + conf.wcen_Delta0 + conf.wcen_Delta1*lg
            lnphi = -0.5*((m - mbar)/conf.wcen_sigma_m)**2 - np.log(np.sqrt(2*np.pi)*conf.wcen_sigma_m)
            if case['usez']:
                zr = float(c['z_lambda'][k])
                if corr is not None:
                    zr = float(np.interp(zr, corr.z, corr.zred_uncorr))
                sg = float(nb.zred_e[ic])
                lng = -0.5*((float(nb.zred[ic]) - zr)/sg)**2 - np.log(np.sqrt(2*np.pi)*sg)
            else:
                x, dof = float(nb.chisq[ic]), 3
                from scipy.stats import chi2
                lng = chi2.logpdf(x, dof)
            lng = max(lng, np.log(1e-10))
            lum = 10**((cl.mstar - np.asarray(nb.refmag, 'f8'))/2.5)
            u = (pm > 0) & (rr > 1e-5)
            W0 = np.sum(pm[u]*lum[u]/np.sqrt(rr[u]**2 + conf.wcen_rsoft**2))/(np.sum(pm[u]*lum[u])/float(cl.r_lambda))
            lw = np.log(np.log(W0)) if W0 > 1 else np.nan
            sig = conf.lnw_cen_sigma/np.sqrt(min(lam, conf.wcen_maxlambda)/float(cl.scaleval)/conf.wcen_pivot)
            lnf = -0.5*((lw - conf.lnw_cen_mean)/sig)**2 - np.log(np.sqrt(2*np.pi)*sig)
            tot = lnphi + lng + lnf
            if np.isfinite(tot) and tot > -600 and np.log(W0) > 0.02:
                close('likelihood of the centre', i, row.lncglike, tot, 0.03, 0.01)
            elif W0 < 0.98 or tot < -900:
                require(not np.isfinite(row.lncglike) or row.lncglike < -500, 'row %d: centre likelihood %g for %g', i, row.lncglike, tot)
        tot = float(row.lnlamlike) + float(row.lncglike)
        if np.isfinite(tot):
            close('likelihood', i, row.lnlike, tot, 1e-4, 1e-5)
        else:
            require(not np.isfinite(row.lnlike), 'row %d: likelihood %g of an impossible centre', i, row.lnlike)
    return 'measured' if good > 1 else 'trivial'


def t_zscan(case):
    w = World(case, catfile='in.fit', zscan_zstep=case['step'], zscan_r0=case['r0'], zscan_minlambda=case['minlam'], centerclass=case['center'], zrange=[0.12, case['zmax']])
    conf, s = w.conf, w.s
    pick, z = positions(w, 'z')
    pick, z = pick[:4], z[:4]
    c = S.seed_cat('in.fit', w.g, pick, z, 1.0, 0.0, None)
    perturb(c, w)
    fitsio.write('in.fit', c, clobber=True)
    r = w.go(RunZScan)
    w.measure(conf.zscan_r0, conf.zscan_beta, False, True, rmask=False)
    nz = int(np.ceil((conf.zrange[1] - conf.zrange[0])/conf.zscan_zstep))
    zs = conf.zrange[0] + conf.zscan_zstep*np.arange(nz)
    out = {int(i): k for k, i in enumerate(r.cat.mem_match_id)}
    require(len(out) == r.cat.size and set(out) <= set(range(1, c.size + 1)), 'identifiers %s', list(r.cat.mem_match_id))
    require(np.all(np.asarray(r.cat.Lambda) >= case['minlam']*0.999), 'a row below the richness cut')
    corr = ZlambdaCorrectionPar(parfile='corr.fit', zlambda_pivot=30.0) if case.get('corr') else None
    good = 0
    for k in range(c.size):
        try:
            v = scan(w, c[k], zs, case)
        except Edge:
            continue
        i = k + 1
        if v is None:
            require(i not in out, 'row %d cannot be measured but is in the catalogue', i)
            continue
        require(i in out, 'row %d (richness %g at %g) is not in the catalogue', i, v.cl.Lambda, v.zz)
        row = r.cat[out[i]]
        good += 1
        same_row(i, row, c[k], ('ra', 'dec'))
        require(float(row.ra_orig) == c['ra'][k] and float(row.dec_orig) == c['dec'][k], 'row %d: original position', i)
        close('scan redshifts', i, row.z_steps, zs, 1e-6)
        # compare steps away from thresholds
        ok = ~v.unsure
        close('scan richness', i, np.asarray(row.lambda_steps)[ok], v.lam[ok], 0.05, 2e-3)
        close('scan likelihood', i, np.asarray(row.likelihood_steps)[ok], v.like[ok], 0.1, 1e-2)
        j = int(row.max_ind)
        require(0 <= j < nz and abs(float(row.lmax) - np.max(row.likelihood_steps)) < 1e-5 and float(row.lmax) == row.likelihood_steps[j] and float(row.zmax) == row.z_steps[j], 'row %d: maximum at %d', i, j)
        if j != v.j:
            continue
        richness(i, row, v.cl)
        zz, ee = v.zz, v.ee
        b, p = v.pzbins, v.pz
        if corr is not None:
            zz, ee, b, p = corr.apply_correction(float(row.Lambda), zz, ee, pzbins=b.copy(), pzvals=p.copy())
        close('redshift', i, row.z_lambda, zz, 3e-4)
        close('redshift error', i, row.z_lambda_e, ee, 3e-4, 0.02)
        close('p(z) bins', i, row.pzbins, b, 1e-3)
        close('p(z)', i, row.pz, p, 0.05*np.max(p))
        m = r.members._ndarray[r.members.mem_match_id == i] if r.members is not None else np.zeros(0)
        if v.cent is None:
            continue
        cand = np.atleast_1d(row.ra_cent)
        best = v.cent
        if best.ngood > 1 and abs(best.p_cen[0] - best.p_cen[1]) < 0.02:
            continue
        require(float(row.ra_opt) == best.ra[0] and float(row.dec_opt) == best.dec[0], 'row %d: optical centre %g %g, expected %g %g', i, row.ra_opt, row.dec_opt, best.ra[0], best.dec[0])
        require(int(row.ncent_good) == best.ngood, 'row %d: %d centres, expected %d', i, row.ncent_good, best.ngood)
        close('centre probabilities', i, row.p_cen, best.p_cen, 0.02)
        q = int(best.index[0])
        if q >= 0:
            nb = v.cl.neighbors
            for n in ('mag', 'mag_err', 'refmag', 'refmag_err', 'zred', 'zred_e'):
                require(np.array_equal(getattr(row, n), getattr(nb, n)[q]), 'row %d: %s is not that of the optical centre', i, n)
            require(int(np.atleast_1d(row.id_cent)[0]) == int(nb.id[q]), 'row %d: centre identifier', i)
        close('optical richness', i, row.lambda_opt, v.lopt, 0.06, 5e-3)
        close('optical richness error', i, row.lambda_opt_e, v.lopt_e, 0.06, 2e-2)
        close('optical redshift', i, row.z_lambda_opt, v.zopt, 1e-3)
        close('optical redshift error', i, row.z_lambda_opt_e, v.zopt_e, 1e-3, 0.05)
        if len(m):
            mn = {n.lower(): n for n in m.dtype.names}
            nb = v.cl.neighbors
            pm = np.asarray(nb.pmem)
            have = set(int(x) for x in m[mn['id']])
            want = set(int(x) for x in nb.id[pm > 0.01])
            fuzz = set(int(x) for x in nb.id[np.abs(pm - 0.01) < 2e-3]) | set(int(x) for x in np.atleast_1d(row.id_cent))
            require(len(have) == len(m) and not (have ^ want) - fuzz, 'row %d: members %s', i, sorted((have ^ want) - fuzz)[:5])
    return 'scanned' if good else 'trivial'


def scan(w, c, zs, case):
    """The redshift scan at one position."""
    conf, s = w.conf, w.s
    w.r0, w.beta, w.maxrad = conf.zscan_r0, conf.zscan_beta, (1.2*conf.zscan_r0 if conf.zscan_beta == 0 else conf.zscan_r0*3.0**conf.zscan_beta)
    cl, frac = w.at(c['ra'], c['dec'], zs[0], maxmag=False)
    if frac is None or frac == 1.0:
        return None
    v = types.SimpleNamespace(lam=np.full(zs.size, -1.0), like=np.full(zs.size, -1.0), unsure=np.zeros(zs.size, bool), cent=None)
    for i, z in enumerate(zs):
        cl.redshift = z
        cl.update_neighbors_dist()
        mm = cl.mstar - 2.5*np.log10(w.limlum)
        nb = cl.neighbors
        lc = np.flatnonzero((nb.refmag < mm) & (nb.r < w.maxrad))
        v.unsure[i] = np.any(np.abs(nb.r - w.maxrad) < 1e-4)
        if lc.size < 2:
            continue
        w.mask.set_radmask(cl)
        if case['depth']:
            w.set_depth(cl)
        lam = float(cl.calc_richness(w.mask, index=lc, calc_err=False))
        v.unsure[i] |= abs(lam - case['minlam']) < 0.05
        if lam < case['minlam']:
            continue
        pm = np.asarray(nb.pmem, 'f8')
        cut = (pm > 0) & (nb.r > 1e-6) & (pm < 1)
        v.lam[i] = lam
        if cut.any():
            v.like[i] = -lam/float(cl.scaleval) - np.sum(np.log(1 - pm[cut]))
        # galaxies at the position itself
        v.unsure[i] |= bool(np.any((nb.r < 2e-6) & (nb.r > 0.5e-6) & (nb.dist > 0) & (pm > 0)))
    if v.unsure.all():
        raise Edge
    v.j = int(np.argmax(v.like))
    top = np.sort(v.like)
    if v.unsure[v.j] or (top.size > 1 and top[-1] - top[-2] < 0.2):
        raise Edge
    if v.lam[v.j] < case['minlam']:
        return None
    cl.r0, cl.beta = conf.percolation_r0, conf.percolation_beta
    rm = 1.2*cl.r0 if cl.beta == 0 else cl.r0*3.0**cl.beta
    zu = float(np.float32(zs[v.j]))
    cl.redshift = zu
    cl.find_neighbors(2*rm, w.gals, megaparsec=True, maxmag=cl.mstar - 2.5*np.log10(w.limlum))
    for i in range(2):
        cl.redshift = zu
        w.mask.set_radmask(cl)
        if case['depth']:
            w.set_depth(cl)
        lam = float(cl.calc_richness(w.mask))
        if lam < 0:
            return None
        edge(lam/float(cl.scaleval), case['minlam'], 0.05)
        if lam/float(cl.scaleval) < case['minlam']:
            return None
        if i == 0:
            zl = Zlambda(cl)
            zz, ee = zl.calc_zlambda(cl.redshift, w.mask, calc_err=True, calcpz=True)
            if zz < 0:
                return None
            v.pzbins, v.pz = np.array(zl.pzbins), np.array(zl.pz)
            zu = zz
    edge(lam, case['minlam'], 0.05)
    v.zz, v.ee = zz, ee
    cl.z_lambda, cl.z_lambda_e = zz, ee
    cl.redshift = float(np.float32(zz))
    v.cl = cl
    import redmapper.centering as ce
    cent = getattr(ce, case['center'])(cl)
    if not cent.find_center() or cent.ngood == 0:
        return v
    v.cent = cent
    o = cl.copy()
    o.ra, o.dec = cent.ra[0], cent.dec[0]
    o.update_neighbors_dist()
    o.calc_richness(w.mask)
    v.lopt, v.lopt_e = float(o.Lambda), float(o.Lambda_e)
    v.zopt, v.zopt_e = [float(x) for x in Zlambda(o).calc_zlambda(o.redshift, w.mask, calc_err=True, calcpz=False)]
    return v


def t_zmask(case):
    w = World(case, randfile='./rand_master_table.fit')
    conf, s = w.conf, w.s
    n = case['nrand']
    q = np.zeros(n, dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
    th, rr = w.rs.uniform(0, 2*np.pi, n), 0.6*np.sqrt(w.rs.uniform(size=n))
    q['ra'], q['dec'] = W.offset(w.ra0, w.dec0, rr*np.cos(th), rr*np.sin(th))
    q['ra'][-1], q['dec'][-1] = (w.ra0 + 90) % 360, -10.0
    q['id'], q['id_input'] = w.rs.permutation(n) + 1, w.rs.randint(1, 1000, n)
    q['z'], q['lambda'] = w.rs.uniform(0.13, 0.37, n), w.rs.uniform(5, 150, n)
    mk = RandomCatalogMaker('./rand', {}, nside=case['nside'])
    mk.split_randoms(q)
    r = w.go(RunRandomsZmask)
    w.measure(conf.percolation_r0, conf.percolation_beta, False, False)
    out = {int(i): k for k, i in enumerate(r.cat.mem_match_id)}
    require(len(out) == r.cat.size and set(out) <= set(int(i) for i in q['id']), 'output points')
    good = 0
    if case['depth']:
        mask, depth = w.mask, w.depth
    for k in range(n):
        cl = Cluster(config=conf, zredstr=s.zredstr, bkg=s.bkg, r0=conf.percolation_r0, beta=conf.percolation_beta)
        cl.ra, cl.dec = q['ra'][k], q['dec'][k]
        cl.redshift = q['z'][k]
        i = int(q['id'][k])
        require(i in out, 'point %d is missing', i)
        row = r.cat[out[i]]
        same_row(i, row, dict(ra=q['ra'][k], dec=q['dec'][k], z=q['z'][k], z_in=q['z'][k], lambda_in=q['lambda'][k], id_input=q['id_input'][k]), ('ra', 'dec', 'z', 'z_in', 'lambda_in', 'id_input'))
        bad = False
        if not case['depth']:
            w.limlum = max(conf.lval_reference - 0.1, 0.01)
            # galaxies are not cut to the range of the background here
            full = w.g
            mm = cl.mstar - 2.5*np.log10(w.limlum)
            d = W.sep(cl.ra, cl.dec, full['ra'], full['dec'])*cl.mpc_scale
            nb = (d < w.maxrad) & (full['refmag'] <= mm)
            if np.any(np.abs(d - w.maxrad) < 1e-4):
                continue
            if not nb.any():
                bad = True
            else:
                # order does not matter to the depth fit
                DepthLim(full['refmag'], full['refmag_err']).calc_maskdepth(w.mask.maskgals, full['refmag'][nb], full['refmag_err'][nb])
        else:
            w.set_depth(cl)
        if not bad:
            med = np.median(w.mask.maskgals.limmag)
            w.mask.set_radmask(cl)
            bad = w.frac(1.0) == 1.0 or med <= 1.0
        if bad:
            require(float(row.Lambda) == -1.0 and float(row.scaleval) == -1.0, 'point %d is not covered but has scale %g', i, row.scaleval)
            continue
        lam = float(q['lambda'][k])
        rl = conf.percolation_r0*(lam/100.)**conf.percolation_beta
        close('richness', i, row.Lambda, lam, 1e-5*lam)
        close('radius', i, row.r_lambda, rl, 1e-5)
        close('mask radius', i, row.r_mask, rl, 1e-5)
        mx = cl.mstar - 2.5*np.log10(conf.lval_reference)
        cp = w.mask.calc_maskcorr(cl.mstar, mx, s.zredstr.limmag)
        cv = float(np.polyval(cp, rl))
        close('scale', i, row.scaleval, 1/(1 - cv), 1e-4, 1e-3)
        masked(i, row, w)
        if cv > 0.01 or row.maskfrac > 0:
            good += 1
    return 'masked' if good else 'trivial'


clus = st.fixed_dictionaries(dict(dx=st.floats(-1.2, 1.2), dy=st.floats(-1.2, 1.2), dz=st.sampled_from([0.0, 0.0, 0.01, 0.02, -0.02, 0.05]), n=st.integers(12, 45), extra=st.sampled_from([1, 2, 0])))
base = dict(seed=st.integers(1, 2**20), where=st.sampled_from(['mid', 'mid', 'wrap', 'high']), z=st.sampled_from([0.16, 0.2, 0.25, 0.3]), clusters=st.lists(clus, min_size=1, max_size=3),
            nfield=st.integers(20, 200), spoil=st.lists(st.integers(0, 60), max_size=3), nside=st.sampled_from([4, 32]), depth=st.booleans(), holes=st.sampled_from([0.0, 0.3, 0.6]))
runcat = st.fixed_dictionaries(dict(base, ids=st.booleans(), perc=st.sampled_from([None, True, True, False]), conv=st.sampled_from([None, True, False]), maxiter=st.sampled_from([None, 2, 1]),
                                    tol=st.sampled_from([None, 0.002]), corr=st.sampled_from([False, False, True]), bkgloc=st.sampled_from([False, False, True]), write=st.booleans()))
firsts = st.fixed_dictionaries(dict(base, mode=st.sampled_from(['seeds', 'zreds', 'spec']), niter=st.sampled_from([2, 1, 3]), r0=st.sampled_from([0.5, 0.8, 0.3]), beta=st.sampled_from([0.0, 0.0, 0.2]),
                                    minlam=st.sampled_from([3.0, 3.0, 8.0]), keepz=st.sampled_from([False, False, True]), clean=st.booleans()))
likes = st.fixed_dictionaries(dict(base, wcen=st.sampled_from([True, True, False]), sharp=st.sampled_from([None, None, 0.1, 0.05]), usez=st.sampled_from([True, True, False]), minlam=st.sampled_from([3.0, 3.0, 8.0]), zoff=st.sampled_from([0, 1, 5]),
                                   keepz=st.sampled_from([False, True]), clean=st.booleans(), corr=st.sampled_from([False, False, True])))
scans = st.fixed_dictionaries(dict(base, step=st.sampled_from([0.011, 0.021, 0.007]), r0=st.sampled_from([0.5, 0.8]), minlam=st.sampled_from([3.0, 6.0]), center=st.sampled_from(['CenteringBCG', 'CenteringWcenZred']),
                                   zmax=st.sampled_from([0.38, 0.3]), corr=st.sampled_from([False, False, True])))
zmasks = st.fixed_dictionaries(dict(base, nrand=st.integers(2, 30)))


def guarded(f):
    def g(case):
        try:
            with repeatable():
                return f(case)
        except Edge:
            return 'trivial-edge'
    g.__doc__ = f.__doc__
    return g


TESTS = [T('runcat', runcat, guarded(t_runcat), quick=80, thorough=800, rule='at least two positions have a measured cluster'),
         T('firstpass', firsts, guarded(t_firstpass), quick=24, thorough=800, rule='at least two seeds are measured'),
         T('firstpass2', firsts, guarded(t_firstpass), quick=24, thorough=800, rule='at least two seeds are measured'),
         T('likelihoods', likes, guarded(t_like), quick=120, thorough=1000, rule='at least two clusters have a likelihood'),
         T('zscan', scans, guarded(t_zscan), quick=50, thorough=400, rule='at least one position is measured'),
         T('randoms', zmasks, guarded(t_zmask), quick=100, thorough=1000, rule='at least one point is masked')]
