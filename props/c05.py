"""C05: photometric redshifts."""
import os
import numpy as np
import fitsio
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from redmapper.redsequence import RedSequenceColorPar
from redmapper.zred_color import ZredColor
from redmapper.zred_runner import ZredRunCatalog, ZredRunPixels
from redmapper.galaxy import GalaxyCatalog

ASSUMPTIONS = ['redshift samples are random draws and only checked for range',
               'single-galaxy and catalogue modes iterate the correction differently: agree to 2e-3']


def galaxies(case, m, ref_ind):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    g = np.zeros(n, dtype=W.gal_dtype(m.nmag))
    g['id'] = np.arange(n) + 1
    g['ra'] = rs.uniform(100, 110, n)
    g['dec'] = rs.uniform(-5, 5, n)
    z = rs.uniform(m.z[0], m.z[-2], n)
    kind = rs.randint(0, 6, n)      # 0-2 on the sequence, 3 off, 4 too bright/faint, 5 edge
    ms = m.mstar(z) if n > 1 else np.atleast_1d(m.mstar(z))
    g['refmag'] = ms + rs.uniform(-0.8, 1.5, n)
    g['refmag'] = np.clip(g['refmag'], np.interp(z, m.z[:-1], m.minrefmag[:-1]) + 0.05,
                          np.interp(z, m.z[:-1], m.maxrefmag[:-1]) - 0.05)
    z[kind == 5] = np.where(rs.uniform(size=np.sum(kind == 5)) < 0.5, m.z[0], m.z[-2])
    g['refmag'][kind == 4] = np.where(rs.uniform(size=np.sum(kind == 4)) < 0.5, 11.0, 29.0)
    g['refmag_err'] = 0.02
    g['mag'] = W.red_mags(m, z, g['refmag'], ref_ind)
    off = kind == 3
    g['mag'][off] += rs.normal(size=(off.sum(), m.nmag)) * case['off']
    g['mag_err'] = 10.**rs.uniform(-2.2, -1.2, size=g['mag_err'].shape)
    return g, z, kind


def model(case, dirname='.'):
    p = W.nice_pars(ncol=case['ncol'], zrange=(0.1, 0.4), corr=case['corr'], limmag=21.0, seed=case['pseed'],
                    zbincoarse=case['zbin'])
    fn = os.path.abspath(os.path.join(dirname, 'pars.fit'))
    W.write_parfile(fn, p)
    return p, fn


def run(m, g, do_corr=True, nsamp=4):
    c = GalaxyCatalog(g.copy())
    c.add_zred_fields(nsamp)
    ZredColor(m, do_correction=do_corr).compute_zreds(c)
    return c


def values(c):
    return {k: np.array(getattr(c, k), dtype='f8') for k in W.ZRED_NAMES}


def same(a, b, ia, ib, tol=1e-6, names=W.ZRED_NAMES, what=''):
    for k in names:
        d = np.abs(a[k][ia] - b[k][ib])
        require(np.all(d <= tol*(1 + np.abs(b[k][ib]))), '%s: %s of galaxy %s changes from %s to %s', what, k,
                np.flatnonzero(d > tol*(1 + np.abs(b[k][ib])))[:1], b[k][ib][:4], a[k][ia][:4])


def edge(x, lo, hi):
    return np.clip(x, lo, hi)


def check(case):
    p, fn = model(case)
    m = RedSequenceColorPar(fn)
    g, z, kind = galaxies(case, m, p['ref_ind'])
    n = g.size
    if n == 0:
        return False
    full = run(m, g)
    v = values(full)
    require(np.array_equal(full.mag, g['mag']) and np.array_equal(full.refmag, g['refmag']) and
            np.array_equal(full.mag_err, g['mag_err']) and np.array_equal(full.id, g['id']), 'input photometry changed')
    # batch independence
    rs = np.random.RandomState(case['seed'] + 1)
    perm = rs.permutation(n)
    same(values(run(m, g[perm])), v, np.arange(n), perm, what='reordered')
    cut = rs.randint(0, n + 1)
    for sl in (np.arange(0, cut), np.arange(cut, n)):
        if sl.size:
            same(values(run(m, g[sl])), v, np.arange(sl.size), sl, what='split batch')
    i = rs.randint(n)
    same(values(run(m, g[i:i+1])), v, np.array([0]), np.array([i]), what='alone')
    # single-galaxy interface
    c1 = GalaxyCatalog(g.copy())
    c1.add_zred_fields(4)
    zc = ZredColor(m)
    for gal in c1:
        zc.compute_zred(gal)
    v1 = values(c1)
    same(v1, v, np.arange(n), np.arange(n), names=('zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq'), what='one by one')
    ins, = np.where((v['zred_uncorr'] < 0) | ((v['zred_uncorr'] > m.z[0] + 0.02) & (v['zred_uncorr'] < m.z[-2] - 0.02)))
    same(v1, v, ins, ins, tol=2e-3, names=('zred', 'zred_e'), what='one by one')
    same(v1, v, ins, ins, tol=1e-5, names=('zred2', 'zred2_e'), what='one by one')
    # no correction: the uncorrected value
    v0 = values(run(m, g, do_corr=False))
    same(v0, v, np.arange(n), np.arange(n), names=('zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq'), what='uncorrected')
    same(dict(zred_uncorr=v0['zred'], zred_uncorr_e=v0['zred_e']), v0, np.arange(n), np.arange(n),
         names=('zred_uncorr', 'zred_uncorr_e'), what='corrections off')
    # reference
    zz = m.z[:-1]
    samp = np.array(full.zred_samp)
    nbad = 0
    good = np.zeros(n, dtype=bool)
    for i in range(n):
        rm = float(g['refmag'][i])
        lim = np.flatnonzero((rm < m.maxrefmag[:-1]) & (rm > m.minrefmag[:-1]))
        if lim.size < 2:
            nbad += 1
            for k in W.ZRED_NAMES:
                want = -1000. if k == 'lkhd' else -1.
                require(v[k][i] == want, 'unfittable galaxy has %s=%g', k, v[k][i], sig='bad-values')
            require(np.all(samp[i] == -1.0), 'unfittable galaxy has redshift samples %s', samp[i], sig='bad-samp')
            continue
        good[i] = True
        lo, hi = max(lim[0] - 10, 0), min(lim[-1] + 10, zz.size)
        bins = np.arange(lo, hi)
        J = np.zeros((m.ncol, m.nmag))
        for j in range(m.ncol):
            J[j, j], J[j, j+1] = 1., -1.
        obs = np.dot(J*g['mag_err'][i].astype('f8')**2, J.T)
        chi = np.zeros(bins.size)
        for q, b in enumerate(bins):
            C = m.covmat[:, :, b] + obs + np.outer(m.slope[b], m.slope[b])*float(g['refmag_err'][i])**2
            d = m.c[b] + m.slope[b]*(rm - m.pivotmag[b]) - (g['mag'][i, :-1].astype('f8') - g['mag'][i, 1:].astype('f8'))
            chi[q] = np.dot(d, np.linalg.solve(C, d))
        ms = np.array([float(m.mstar(zz[b])) for b in bins])
        ln = -0.5*chi + np.log(10.**(0.4*(m.alpha+1)*(ms-rm)) * np.exp(-10.**(0.4*(ms-rm))) * m.volume_factor[bins])
        w = np.exp(ln - ln.max())
        use = w > 1e-5
        if use.sum() >= 3:
            x, y = zz[bins][use], w[use]
            tz = lambda f: np.sum(0.5*(f[1:]+f[:-1])*np.diff(x))
        else:
            x, y = zz[bins][use], w[use]
            tz = np.sum
        mean = tz(y*x)/tz(y)
        sg = max(np.sqrt(max(tz(y*x*x)/tz(y) - mean**2, 0.0)), 0.005)
        zu, ze = v['zred_uncorr'][i], v['zred_uncorr_e'][i]
        require(abs(ze - sg) < 1e-3*sg + 2e-5, 'galaxy %d: redshift error %g, posterior width %g', i, ze, sg)
        require(abs(zu - mean) <= 2*sg + 1e-4, 'galaxy %d: redshift %g, posterior mean %g +- %g', i, zu, mean, sg)
        pk = zz[bins][np.argmax(ln)]
        # either the posterior mean or the parabola through the 5 (6 at the upper edge) likelihoods around the peak
        cand = [mean]
        ip = int(np.argmax(ln))
        for s in range(ip-6, ip+3):
            for L in (5, 6):
                if s >= 0 and s + L <= ln.size:
                    a = np.polyfit(zz[bins][s:s+L] - pk, ln[s:s+L], 2)
                    if a[0] < 0:
                        t = pk - a[1]/(2*a[0])
                        if abs(t - mean) < 2*sg*(1 + 1e-4):
                            cand.append(t)
        require(np.min(np.abs(np.array(cand) - zu)) < 3e-5, 'galaxy %d: redshift %g is neither the posterior mean nor its peak (%s)',
                i, zu, cand[:4])
        nb = int(np.argmin(np.abs(zu - zz)))
        if lo <= nb < hi:
            k = nb - lo
            dmin = abs(zz[nb] - zu)
            opts = [chi[t] for t in (k-1, k, k+1) if 0 <= t < chi.size and abs(zz[bins[t]] - zu) < dmin + 1e-5]
            require(any(abs(v['chisq'][i] - o) <= 1e-3*(1 + o) for o in opts),
                    'galaxy %d: chisq %g, at its redshift %s', i, v['chisq'][i], opts)
        nw = np.exp(-0.5*((x - zu)/ze)**2)
        lk = tz(nw*ln[use])/tz(nw)
        require(abs(v['lkhd'][i] - lk) <= 2e-2*(1 + abs(lk)), 'galaxy %d: likelihood %g, expected %g', i, v['lkhd'][i], lk)
        # corrections
        ip_ = lambda t, q: np.interp(edge(q, zz[0], zz[-1]), zz, t[:-1])
        inside = zz[0] + 0.02 < zu < zz[-1] - 0.02
        if inside:
            dm = rm - ip_(m.pivotmag, zu)
            dz = 0.0
            for _ in range(40):
                dz = ip_(m.corr, zu+dz) + dm*ip_(m.corr_slope, zu+dz)
            require(abs(v['zred'][i] - (zu + dz)) < 1.5e-3 + 0.03*abs(dz), 'galaxy %d: corrected redshift %g, expected %g', i, v['zred'][i], zu+dz)
            require(abs(v['zred_e'][i] - ze*ip_(m.corr_r, zu+dz)) < 2e-2*ze, 'galaxy %d: corrected error', i)
            dz2 = ip_(m.corr2, zu) + dm*ip_(m.corr2_slope, zu)
            require(abs(v['zred2'][i] - (zu + dz2)) < 1e-4, 'galaxy %d: zred2 %g, expected %g', i, v['zred2'][i], zu+dz2)
            require(abs(v['zred2_e'][i] - ze*ip_(m.corr2_r, zu)) < 1e-3*ze, 'galaxy %d: zred2 error', i)
        gd = w > 1e-10
        if gd.sum() >= 3:
            require(np.all(samp[i] >= zz[bins][gd][0] - 1e-6) and np.all(samp[i] <= zz[bins][gd][-1] + 1e-6),
                    'galaxy %d: redshift sample %s outside its posterior', i, samp[i])
        if kind[i] <= 2 and zz[0] + 3*sg < z[i] < zz[-1] - 3*sg:
            require(abs(zu - z[i]) < 2*ze + m.zbinsize, 'galaxy %d on the red sequence at %g gets redshift %g +- %g', i, z[i], zu, ze)
            require(v['chisq'][i] < 6.0, 'galaxy on the red sequence has chisq %g', v['chisq'][i])
    return 'bad+good' if nbad and good.any() else ('good' if good.any() else 'bad')


def check_cat(case):
    """ZredRunCatalog: any chunk size and process count gives the batch values row by row."""
    p, fn = model(case)
    m = RedSequenceColorPar(fn)
    g, z, kind = galaxies(case, m, p['ref_ind'])
    bands = list('griz'[:m.nmag])
    gt, _, order = W.write_galtable('tab', 'gal', g, 8, m.nmag, bands, bands[p['ref_ind']], area=50.)
    conf = W.config('c.yaml', dict(galfile=gt, refmag=bands[p['ref_ind']], outbase='t', zrange=[0.1, 0.4],
                                   parfile=fn, calib_nproc=case['nproc'], zred_nsamp=3,
                                   calib_color_nodesizes=[.05]*m.ncol, calib_slope_nodesizes=[.1]*m.ncol,
                                   calib_color_maxnodes=[-1.]*m.ncol, calib_covmat_maxnodes=[-1.]*m.ncol))
    v = values(run(m, g))
    fitsio.write('gals.fit', g)
    kw = {}
    if case['nper'] is not None:
        kw['nperproc'] = case['nper']
    else:
        kw['maxperproc'] = case['maxper']
    ZredRunCatalog(conf).run('gals.fit', 'z.fit', **kw)
    o = fitsio.read('z.fit', ext=1, lower=True)
    require(o.size == g.size, 'redshift file has %d rows for %d galaxies', o.size, g.size)
    require(o['zred_samp'].shape == (g.size, 3), 'samples shape')
    same({k: o[k].astype('f8') for k in W.ZRED_NAMES}, v, np.arange(g.size), np.arange(g.size), what='catalogue run')
    good = v['zred_uncorr'] > 0
    require(np.all(np.abs(o['zred_samp'][good] - v['zred_uncorr'][good][:, None]) < 0.35), 'samples of other rows')
    return 'chunks%d' % min(5, int(np.ceil(g.size/float(kw.get('nperproc', case['maxper'])))))


def check_pix(case):
    """ZredRunPixels: every galaxy file gets an aligned redshift file and a table pointing to them."""
    p, fn = model(case)
    m = RedSequenceColorPar(fn)
    g, z, kind = galaxies(case, m, p['ref_ind'])
    if case['nside'] > 4 and g.size > 1:
        g['ra'][:2] = [100., 110.]      # at least two pixels
    else:
        return False
    bands = list('griz'[:m.nmag])
    gt, _, order = W.write_galtable('tab', 'gal', g, case['nside'], m.nmag, bands, bands[p['ref_ind']], area=50.)
    import hpgeom as hpg
    d = dict(galfile=os.path.abspath(gt), refmag=bands[p['ref_ind']], outbase='t', zrange=[0.1, 0.4], parfile=fn,
             calib_nproc=case['nproc'], zred_nsamp=3, zredfile=os.path.abspath('zr/gal_zreds_master_table.fit'),
             area=50.0,
             calib_color_nodesizes=[.05]*m.ncol, calib_slope_nodesizes=[.1]*m.ncol,
             calib_color_maxnodes=[-1.]*m.ncol, calib_covmat_maxnodes=[-1.]*m.ncol)
    sub = case['sub'] and case['nside'] > 4
    if sub:
        hp4 = int(hpg.angle_to_pixel(4, float(g['ra'][0]), float(g['dec'][0]), nest=False))
        d.update(nside=4, hpix=[hp4])
    conf = W.config('c.yaml', d)
    ZredRunPixels(conf).run(single_process=case['single'])
    v = values(run(m, g))
    t = fitsio.read(gt, ext=1, lower=True)
    zt = fitsio.read(conf.zredfile, ext=1, lower=True)
    require(fitsio.read_header(conf.zredfile, ext=1).get('PIXELS', 0) == 1, 'redshift table not marked pixelised')
    require(np.array_equal(zt['hpix'], t['hpix']) and zt['nside'][0] == t['nside'][0], 'redshift table pixels')
    off = 0
    for i in range(t['hpix'].shape[1]):
        idx = order[off:off + t['ngals'][0, i]]
        off += idx.size
        f = zt['filenames'][0, i]
        f = f.decode() if isinstance(f, bytes) else f
        inside = True
        if sub:
            th, ph = hpg.pixel_to_angle(case['nside'], t['hpix'][0, i], nest=False)
            inside = hpg.angle_to_pixel(4, th, ph, nest=False) == hp4
        if not inside:
            require(f.strip() == '' and zt['ngals'][0, i] == 0, 'pixel outside the region recorded in the redshift table')
            continue
        require(zt['ngals'][0, i] == t['ngals'][0, i], 'counts in redshift table')
        o = fitsio.read(os.path.join('zr', f.strip()), ext=1, lower=True)
        require(o.size == idx.size, 'redshift file length')
        same({k: o[k].astype('f8') for k in W.ZRED_NAMES}, v, np.arange(idx.size), idx, what='pixel run')
    return 'sub' if sub else 'all'


base = dict(seed=st.integers(0, 2**31 - 10), ncol=st.integers(2, 3), pseed=st.integers(0, 3),
            corr=st.sampled_from([0.0, 0.01, 0.02]), off=st.sampled_from([0.05, 0.3, 1.0]),
            zbin=st.sampled_from([0.005, 0.01]))
s1 = st.fixed_dictionaries(dict(base, n=st.integers(1, 9)))
s2 = st.fixed_dictionaries(dict(base, n=st.integers(1, 14), nproc=st.integers(1, 3), zbin=st.just(0.01),
                                nper=st.one_of(st.none(), st.integers(1, 15)), maxper=st.integers(1, 6)))
s3 = st.fixed_dictionaries(dict(base, n=st.integers(2, 14), nproc=st.integers(1, 3), zbin=st.just(0.01),
                                nside=st.sampled_from([8, 16]), sub=st.booleans(), single=st.booleans()))
TESTS = ([T('zred-%d' % i, s1, check, 250, 3000, 'batch with a fittable galaxy (label: with/without unfittable ones)') for i in range(4)] +
         [T('catalogue-%d' % i, s2, check_cat, 70, 800, 'chunked parallel catalogue run; label: number of chunks') for i in range(2)] +
         [T('pixels-%d' % i, s3, check_pix, 60, 800, 'pixelised run; label: whole table or sub-region') for i in range(2)])
