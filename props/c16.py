"""C16: percolation bookkeeping."""
import contextlib
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W, synth as S
import redmapper.cluster_runner as cr
from redmapper.cluster import Cluster
from redmapper.run_percolation import RunPercolation

ASSUMPTIONS = ['richness and redshift of each cluster are those the run itself computed (decided by C01-C04, C17); the bookkeeping is recomputed from them',
               'clusters are observed through the public methods Cluster.find_neighbors and Cluster.calc_richness']


@contextlib.contextmanager
def watch():
    """Record every cluster a run processes and the free probabilities it first uses."""
    log = []
    fn, rich = Cluster.find_neighbors, Cluster.calc_richness

    def find(self, *a, **k):
        out = fn(self, *a, **k)
        log.append(dict(c=self, pfree=None, n=self.neighbors.size, id=int(self.mem_match_id)))
        return out

    def calc(self, *a, **k):
        for e in log:
            if e['c'] is self and e['pfree'] is None:
                e['pfree'] = np.array(self.neighbors.pfree, copy=True)
                e['idx'] = np.array(self.neighbors.index, copy=True)
        return rich(self, *a, **k)
    Cluster.find_neighbors, Cluster.calc_richness = find, calc
    try:
        yield log
    finally:
        Cluster.find_neighbors, Cluster.calc_richness = fn, rich


def build(case, s):
    rs = np.random.RandomState(case['seed'])
    ra0, dec0 = {'mid': (40.0, 10.0), 'wrap': (0.02, -3.0), 'high': (120.0, 70.0)}[case['where']]
    cosmo = S.conf(s).cosmo
    specs = [(c['dx'], c['dy'], case['z'] + c['dz'], c['n']) for c in case['clusters']]
    specs[0] = (0.0, 0.0, case['z'], specs[0][3])
    g, rows = S.sky(rs, s, cosmo, ra0, dec0, specs, nfield=case['nfield'])
    # some faint members
    for r, sp in zip(rows, specs):
        q = r[-(len(r)//5):] if len(r) >= 10 else r[:0]
        d = float(s.zredstr.mstar(sp[2])) + rs.uniform(2.0, 3.4, q.size) - g['refmag'][q]
        g['refmag'][q] += d
        g['mag'][q] += d[:, None]
    pick, zz, ll, lam = [], [], [], []
    for i, r in enumerate(rows):
        for j in range(1 + case['clusters'][i]['extra']):
            pick.append(r[j])
            zz.append(specs[i][2] + (0.0 if j == 0 else 0.004*rs.normal()))
            lam.append(float(specs[i][3])*(1.0 if j == 0 else 0.8))
            ll.append(float(specs[i][3])*(2.0 if j == 0 else 0.5) + rs.uniform(0, 20))
    n = len(pick)
    zz, lam, ll = np.array(zz), np.array(lam), np.array(ll)
    # some unusable seeds
    for k in case['spoil']:
        i = k % n
        if i == 0:
            continue
        what = (k // n) % 4
        if what == 0:
            zz[i] = rs.choice([0.05, 0.119, 0.381, 0.45])
        elif what == 1:
            lam[i] = rs.choice([-1.0, 1.0, 2.9])
        elif what == 2:
            ll[i] = rs.choice([np.nan, np.inf, -np.inf])
        elif what == 3:
            g['refmag'][pick[i]] += 3.0
    ids = rs.permutation(n) + 100 if case['ids'] else None
    return rs, g, np.array(pick), zz, lam, ll, ids, ra0, dec0


def run(case, **more):
    s = S.survey()
    rs, g, pick, zz, lam, ll, ids, ra0, dec0 = build(case, s)
    gf, zf = S.write_sky(g, s, nside=case['nside'])
    c = S.seed_cat('seeds.fit', g, pick, zz, lam, ll, ids)
    kw = dict(galfile=gf, zredfile=zf, catfile='seeds.fit', maskgalfile='mg.fit', percolation_niter=case['niter'], percolation_rmask_0=case['rmask0'],
              percolation_lmask=case['lmask'], percolation_minlambda=case['minlam'], centerclass=case['center'], percolation_pbcg_cut=case['cut'],
              percolation_rmask_gamma=case["gamma"], **S.WCEN)
    if case['memradius']:
        kw['percolation_memradius'] = case['memradius']
    if case.get('memlum'):
        kw['percolation_memlum'] = case['memlum']
    kw.update(more)
    hole = None
    if case['depth'] or case['holes']:
        ns = 512
        ctr = hpg.query_circle(ns, ra0 % 360, dec0, 1.2, nest=True, inclusive=True)
        hole = ctr[rs.uniform(size=ctr.size) < case['holes']] if case['holes'] else ctr[:0]
        good = ctr[~np.isin(ctr, hole)]
        v = np.zeros(ctr.size, dtype=S.DEPTH_DT)
        v['exptime'], v['limmag'], v['m50'], v['fracgood'] = 100., s.limmag, s.limmag, 1.0
        S.hs_depth('d.hsp', ns, ctr, v)
        S.hs_mask('m.hsp', ns, {int(p): 1.0 for p in good})
        kw.update(depthfile='d.hsp', maskfile='m.hsp', mask_mode=3)
    np.random.seed(case['seed'] % 2**31)
    conf = S.conf(s, **kw)
    S.maskgals(conf, 'mg.fit')
    saved = {k: getattr(cr, k) for k in ('Background', 'ZredBackground', 'RedSequenceColorPar') if hasattr(cr, k)}
    try:
        for k, v in (('Background', s.bkg), ('ZredBackground', s.zredbkg), ('RedSequenceColorPar', s.zredstr)):
            if k in saved:
                setattr(cr, k, lambda *a, _v=v, **kk: _v)
        with watch() as log:
            r = RunPercolation(conf)
            r.run(keepid=bool(case['ids']), cleaninput=bool(case['holes']), keepz=case['keepz'])
    finally:
        for k, v in saved.items():
            setattr(cr, k, v)
    return s, conf, g, c, r, log, hole


def eligible(case, s, conf, c, hole):
    z = c['z'].astype('f8')
    lo, hi = 0.12, 0.38
    if case['keepz']:
        cu = conf.calib_zrange_cushion
        lo, hi = max(lo - cu, 0.05), hi + cu
    mlim = np.array([float(s.zredstr.mstar(x)) for x in z]) - 2.5*np.log10(max(conf.lval_reference - 0.1, 0.01))
    ok = (z > lo) & (z < hi) & np.isfinite(c['lnlike']) & (c['lambda'] > case['minlam']) & (c['refmag'] < mlim)
    if hole is not None and case['holes']:
        pix = hpg.angle_to_pixel(512, c['ra'], c['dec'], nest=True)
        ok &= ~np.isin(pix, hole)
    return ok


def check(case):
    s, conf, g, c, r, log, hole = run(case)
    ok = np.flatnonzero(eligible(case, s, conf, c, hole))
    if ok.size == 0:
        require(r.cat is None, 'a catalogue without usable seeds')
        return 'trivial-no-seeds'
    order = ok[np.argsort(c['mem_match_id'][ok])] if case['ids'] else ok[np.argsort(-c['lnlike'][ok].astype('f8'), kind='stable')]
    require(len(log) == order.size, '%d clusters were processed for %d usable seeds', len(log), order.size)
    want_ids = c['mem_match_id'][order] if case['ids'] else 1 + np.arange(order.size)
    for k, e in enumerate(log):
        if e['id'] != want_ids[k]:
            raise Violation('the seed at rank %d has identifier %d, expected %d' % (k, e['id'], want_ids[k]))
    cat = r.cat
    ids = np.asarray(cat.mem_match_id)
    require(np.unique(ids).size == ids.size and np.all(np.diff(np.searchsorted(want_ids, ids, sorter=np.argsort(want_ids))) >= 0), 'catalogue identifiers %s', ids)
    rank = {int(i): k for k, i in enumerate(want_ids)}
    require(np.all(np.diff([rank[int(i)] for i in ids]) > 0) if ids.size > 1 else True, 'catalogue is not in rank order: %s', ids)
    require(np.all(cat.Lambda >= case['minlam'] - 1e-5), 'a cluster below the richness cut: %s', cat.Lambda)
    by = {int(g['id'][i]): i for i in range(g.size)}
    taken = np.zeros(g.size)
    got = np.zeros(g.size)
    mem = r.members
    mid = np.asarray(mem.mem_match_id) if mem is not None else np.zeros(0, int)
    require(np.all(np.isin(mid, ids)), 'members of clusters that are not in the catalogue')
    dropped = overlap = 0
    for k, e in enumerate(log):
        cl = e['c']
        nb = cl.neighbors
        alive = bool(np.isin(want_ids[k], ids))
        if e['n'] == 0:
            require(not alive, 'a cluster without galaxies survives')
            continue
        gi = np.array([by[int(i)] for i in nb.id])
        free = np.clip(1 - taken[gi], 0, 1)
        # every galaxy that can count is considered
        src = c[order[k]]
        lum = min([conf.lval_reference] + [x for x in (case['lmask'], case['memlum']) if x and x > 0])
        zs = float(src['z'])
        must = (W.sep(src['ra'], src['dec'], g['ra'], g['dec'])*S.mpc_per_deg(conf.cosmo, zs) < 0.98*max(1.0, case['rmask0'])) & (g['refmag'] < float(s.zredstr.mstar(zs)) - 2.5*np.log10(lum) - 0.02) & (g['refmag'] < s.limmag - 0.02)
        miss = np.setdiff1d(np.flatnonzero(must), gi)
        require(miss.size == 0, 'cluster %d does not consider galaxies %s', k, g['id'][miss[:4]])
        seen = e['pfree']
        if seen is not None:
            require(seen.size == free.size, 'neighbours changed')
            bad = np.flatnonzero(np.abs(seen - free) > 1e-5)
            require(bad.size == 0, 'cluster %d sees free probability %s of galaxies whose taken probability is %s', k, seen[bad[:4]], taken[gi][bad[:4]])
            overlap += int(np.any(free < 0.9))
        src = c[order[k]]
        d = W.sep(src['ra'], src['dec'], g['ra'][gi], g['dec'][gi])
        j = np.argmin(d)
        if np.all(free[d < d[j] + 3e-6] < case['cut'] - 1e-4):   # (positions closer than the resolution of separations are not told apart)
            dropped += 1
            require(not alive, 'seed %d survives although %.3g of its central galaxy is taken', k, taken[gi[j]])
        if not alive:
            continue
        row = cat._ndarray[np.flatnonzero(ids == want_ids[k])[0]]
        names = {n.lower(): n for n in row.dtype.names}
        val = lambda n: row[names[n]]
        lam, rl, z = float(val('lambda')), float(val('r_lambda')), float(val('z' if case['keepz'] else 'z_lambda'))
        p, rr = np.asarray(nb.p, 'f8'), np.asarray(nb.r, 'f8')
        mst = float(s.zredstr.mstar(z))
        # centre
        cen = int(val('id_cent')[0])
        require(cen in by, 'central galaxy %d unknown', cen)
        ci = by[cen]
        require(abs(val('dec') - g['dec'][ci]) < 1e-9 and abs(val('ra') - g['ra'][ci]) < 1e-9 and val('refmag') == g['refmag'][ci] and np.array_equal(val('mag'), g['mag'][ci]) and
                np.array_equal(val('mag_err'), g['mag_err'][ci]) and val('refmag_err') == g['refmag_err'][ci] and abs(val('ebv_mean') - g['ebv'][ci]) < 1e-7 and
                val('zred') == g['zred'][ci] and val('zred_e') == g['zred_e'][ci] and val('zred_chisq') == g['chisq'][ci], 'cluster %d: position or photometry is not that of its central galaxy', k)
        for q in range(int(val('ncent_good'))):
            qi = by.get(int(val('id_cent')[q]), -1)
            require(qi >= 0 and abs(val('ra_cent')[q] - g['ra'][qi]) < 1e-9 and abs(val('dec_cent')[q] - g['dec'][qi]) < 1e-9, 'cluster %d: candidate %d is not at the position of galaxy %d', k, q, val('id_cent')[q])
        require(val('ra_orig') == src['ra'] and val('dec_orig') == src['dec'], 'original position')
        fc = free[np.flatnonzero(gi == ci)[0]]
        require(fc >= case['cut'] - 1e-4, 'cluster %d is centred on a galaxy with free probability %.3g', k, fc)
        sc = S.mpc_per_deg(conf.cosmo, z)
        require(lam/float(val('scaleval')) >= case['minlam'] - 1e-4, 'cluster %d: unscaled richness below the cut', k)
        # what it takes
        rmask = max(case['rmask0']*(lam/100.)**0.2*((1 + z)/1.3)**case['gamma'], rl)
        require(abs(float(val('r_mask')) - rmask) < 1e-4*rmask, 'mask radius %g, expected %g', val('r_mask'), rmask)
        lim = mst - 2.5*np.log10(case['lmask'] if case['lmask'] > 0 else 0.2)
        use = (g['refmag'][gi] < lim) & (rr < rmask) & (p > 0)
        near = (np.abs(rr - rmask) < 1e-4) | (np.abs(g['refmag'][gi] - lim) < 1e-4)
        if np.any(near & (p > 0)):
            return 'trivial-edge'
        taken[gi[use]] += p[use]
        # members
        pm = p*np.asarray(nb.theta_i, 'f8')*np.asarray(nb.theta_r, 'f8')*free
        far, faint = bool(case['memradius'] and case['memradius'] > 1), bool(case['memlum'] and case['memlum'] < conf.lval_reference)
        if far or faint:
            keep = p > 0.01
            margin = np.abs(p - 0.01) < 1e-5
            if far:
                keep &= rr < case['memradius']*rl
                margin |= np.abs(rr - case['memradius']*rl) < 1e-5
            if faint:
                ml = mst - 2.5*np.log10(case['memlum'])
                keep &= g['refmag'][gi] < ml
                margin |= np.abs(g['refmag'][gi] - ml) < 1e-4
        else:
            keep = pm > 0.01
            margin = np.abs(pm - 0.01) < 5e-4   # (factors are those of the last step of the solver)
        cand = np.isin(g['id'][gi], [int(x) for x in np.atleast_1d(val('id_cent')) if x > 0])
        pf = np.where(keep, free, 0.0)
        lst = (pf > 0.01) | cand
        margin |= np.abs(free - 0.01) < 1e-5
        m = mem._ndarray[mid == want_ids[k]]
        mn = {n.lower(): n for n in m.dtype.names}
        have = np.array(sorted(int(i) for i in m[mn['id']]))
        require(have.size == np.unique(have).size, 'a galaxy is listed twice as member of cluster %d', k)
        want = set(int(i) for i in g['id'][gi[lst]])
        fuzz = set(int(i) for i in g['id'][gi[margin]])
        diff = (want ^ set(have)) - fuzz
        require(not diff, 'cluster %d: members differ for galaxies %s', k, sorted(diff)[:5])
        pos = {int(i): q for q, i in enumerate(g['id'][gi])}
        q = np.array([pos[int(i)] for i in m[mn['id']]])
        for nm, ref, tol in (('ra', g['ra'][gi[q]], 0), ('dec', g['dec'][gi[q]], 0), ('refmag', g['refmag'][gi[q]], 0), ('refmag_err', g['refmag_err'][gi[q]], 0), ('mag', g['mag'][gi[q]], 0),
                             ('mag_err', g['mag_err'][gi[q]], 0), ('zred', g['zred'][gi[q]], 0), ('zred_e', g['zred_e'][gi[q]], 0), ('ebv', g['ebv'][gi[q]], 0), ('p', p[q], 1e-5),
                             ('pfree', pf[q], 1e-4), ('theta_i', np.asarray(nb.theta_i)[q], 1e-5), ('theta_r', np.asarray(nb.theta_r)[q], 1e-5), ('pcol', np.asarray(nb.pcol)[q], 1e-5),
                             ('chisq', np.asarray(nb.chisq)[q], 1e-3), ('r', W.sep(val('ra'), val('dec'), g['ra'][gi[q]], g['dec'][gi[q]])*sc, 3e-6*sc + 1e-5), ('z', z, 1e-6)):
            x = m[mn[nm]].astype('f8')
            if nm == 'pfree':
                sel = ~margin[q]
                x, ref = x[sel], np.asarray(ref)[sel]
            require(np.all(np.abs(x - ref) <= tol + 1e-6*np.abs(ref)*(tol > 0)), 'cluster %d: member column %s', k, nm)
        tot = m[mn['p']].astype('f8')*m[mn['pfree']]*m[mn['theta_i']]*m[mn['theta_r']]
        require(np.all(m[mn['pfree']] >= 0) and np.all(m[mn['p']] >= 0) and np.all(m[mn['p']] <= 1 + 1e-6), 'probabilities out of range')
        got[gi[q]] += tot*use[q]
        # the richness is that of the memberships
        require(abs(pm.sum()*float(val('scaleval')) - lam) < 0.05 + 2e-3*lam, 'cluster %d: richness %g, memberships sum to %g', k, lam, pm.sum()*float(val('scaleval')))
    require(np.all(got <= 1 + 1e-4), 'a galaxy is assigned %g times over all clusters', got.max())
    if case['clusters'][0]['n'] >= 25 and not case['holes'] and order[0] == 0 and case['minlam'] <= 5 and case['center'] == 'CenteringBCG':
        require(want_ids[0] in ids, 'the first-ranked rich cluster was dropped')
    if case['write']:
        r.output(savemembers=True, withversion=False, clobber=True)
        f = conf.redmapper_filename('final_catalog', withversion=False)
        a = fitsio.read(f, ext=1, upper=True)
        for nm in cat.dtype.names:
            require(np.array_equal(a[nm.upper()], cat._ndarray[nm], equal_nan=True) if a[nm.upper()].dtype.kind == 'f' else np.array_equal(a[nm.upper()], cat._ndarray[nm]), 'written column %s', nm)
        if mem is not None:
            b = fitsio.read(conf.redmapper_filename('final_catalog_members', withversion=False), ext=1, upper=True)
            for nm in mem.dtype.names:
                require(np.array_equal(b[nm.upper()], mem._ndarray[nm]), 'written member column %s', nm)
    if overlap and dropped:
        return 'overlap+dropped'
    return 'overlap' if overlap else ('dropped' if dropped else 'trivial')


clus = st.fixed_dictionaries(dict(dx=st.floats(-1.2, 1.2), dy=st.floats(-1.2, 1.2), dz=st.sampled_from([0.0, 0.0, 0.01, 0.02, -0.02, 0.05]), n=st.integers(8, 45),
                                  extra=st.integers(0, 3)))
cases = st.fixed_dictionaries(dict(
    seed=st.integers(1, 2**20), where=st.sampled_from(['mid', 'wrap', 'high']), z=st.sampled_from([0.16, 0.2, 0.25, 0.3]), clusters=st.lists(clus, min_size=1, max_size=4),
    nfield=st.integers(20, 200), spoil=st.lists(st.integers(0, 40), max_size=3), ids=st.sampled_from([False, False, True]), nside=st.sampled_from([4, 32]),
    niter=st.sampled_from([2, 2, 1, 3]), rmask0=st.sampled_from([1.5, 1.5, 0.7, 1.0]), lmask=st.sampled_from([0.1, 0.2, 0.5, -1.0]), minlam=st.sampled_from([3.0, 3.0, 5.0, 10.0]),
    center=st.sampled_from(['CenteringBCG', 'CenteringBCG', 'CenteringWcenZred']), cut=st.sampled_from([0.5, 0.5, 0.2, 0.8]), gamma=st.sampled_from([0.0, 0.0, 1.0]),
    memradius=st.sampled_from([None, None, 1.5]), memlum=st.sampled_from([None, None, 0.15, 0.05, 0.5]), depth=st.booleans(), holes=st.sampled_from([0.0, 0.0, 0.3]), keepz=st.sampled_from([False, False, True]), write=st.booleans()))

TESTS = [T('percolation-%d' % i, cases, check, quick=60, thorough=800, rule='at least two clusters reach a common galaxy, or a seed is dropped because its central galaxy is taken') for i in range(6)]
