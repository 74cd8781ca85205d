"""C04: red-sequence model tables, look-ups and chi-squared."""
import numpy as np
import fitsio
import os
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from redmapper.redsequence import RedSequenceColorPar
from redmapper.galaxy import GalaxyCatalog
from redmapper.utilities import MStar

ASSUMPTIONS = ['bin sizes whose inverse is an integer and ranges that are multiples of the bin size, as in all callers',
               'characteristic magnitude tables are the shipped ones']


def draw_pars(case):
    rs = np.random.RandomState(case['seed'])
    ncol = case['ncol']
    zlo, zhi = case['zlo'] * 0.01, case['zhi'] * 0.01
    p = dict(ncol=ncol, zrange=[round(zlo, 4), round(zhi, 4)], limmag=case['limmag'], alpha=case['alpha'],
             zbinfine=case['fine'], zbincoarse=case['coarse'], ref_ind=case['ref_ind'] % (ncol + 1),
             dtype=case['dtype'], survey=case['survey'], band='i03')
    # node range may be narrower than the table (extrapolation) or wider
    a, b = zlo + case['e0']*0.01, zhi - case['e1']*0.01

    def nd(n):
        x = np.linspace(a, b, n)
        x[1:-1] += rs.uniform(-.2, .2, n-2) * (b - a)/(n-1)
        return x
    n = case['nn']
    p['pivotmag_z'] = nd(n)
    p['pivotmag'] = 17 + rs.uniform(0, 3, n)
    p['minrefmag'] = p['pivotmag'] - rs.uniform(1, 3, n)
    p['maxrefmag'] = p['pivotmag'] + rs.uniform(1, 3, n)
    m = case['nc']
    p['covmat_z'] = nd(m)
    s = np.zeros((ncol, ncol, m))
    for j in range(ncol):
        s[j, j] = rs.uniform(0.002, 0.15, m)
        for k in range(j):
            s[j, k] = rs.uniform(-1.1, 1.1, m)
            s[k, j] = s[j, k]
    p['sigma'] = s
    p['corr_z'] = nd(m + 1)
    p['corr'], p['corr2'] = rs.uniform(-.02, .02, m+1), rs.uniform(-.02, .02, m+1)
    p['corr_slope_z'] = nd(n)
    p['corr_slope'], p['corr2_slope'] = rs.uniform(-.02, .02, n), rs.uniform(-.02, .02, n)
    if case['corr_r'] != 'none':
        p['corr_r'], p['corr2_r'] = rs.uniform(0.2, 2, n), rs.uniform(0.2, 2, n)
        if case['corr_r'] == 'zero':
            p['corr_r'][0] = 0.0
        if case['corr_r'] == 'zero2':
            p['corr2_r'][0] = -1.0
    p['volume_factor_z'] = nd(n + 2)
    p['volume_factor'] = rs.uniform(.5, 2, n+2)
    p['z'] = [nd(4 + j) for j in range(ncol)]
    p['c'] = [rs.uniform(0, 2, 4 + j) for j in range(ncol)]
    p['zs'] = [nd(3 + (j % 2)) for j in range(ncol)]
    p['slope'] = [rs.uniform(-.1, .05, 3 + (j % 2)) for j in range(ncol)]
    if case['ratio']:
        p['err_int'] = rs.uniform(.8, 1.3, ncol + 1)
        p['err_slope'] = rs.uniform(-.02, .02, ncol + 1)
        p['err_pivot'] = 18.5
    if case['lup'] == 'yes':
        p['bvalues'] = list(10.**rs.uniform(-10.3, -9, ncol + 1))
    elif case['lup'] == 'zero':
        p['bvalues'] = [0.0]*(ncol + 1)
    if case['template']:
        p['template'] = 'bc03_colors_sdss.fit'
        p['bands'] = list('ugriz'[-(ncol+1):])
    # what the file will hold
    for k, v in list(p.items()):
        if isinstance(v, np.ndarray):
            p[k] = v.astype(case['dtype']).astype('f8')
        elif isinstance(v, list) and len(v) and isinstance(v[0], np.ndarray):
            p[k] = [x.astype(case['dtype']).astype('f8') for x in v]
    return p


def reference(p, binsize, minsig, template):
    zr = p['zrange']
    nz = int(np.round((zr[1]-zr[0])/binsize))
    z = zr[0] + binsize*np.arange(nz)
    ncol = p['ncol']
    R = dict(z=z)
    sp = W.natural_spline
    R['pivotmag'] = sp(p['pivotmag_z'], p['pivotmag'], z)
    R['maxrefmag'] = sp(p['pivotmag_z'], p['maxrefmag'], z)
    R['minrefmag'] = sp(p['pivotmag_z'], p['minrefmag'], z)
    R['c'] = np.array([sp(p['z'][j], p['c'][j], z) for j in range(ncol)]).T
    R['slope'] = np.array([sp(p['zs'][j], p['slope'][j], z) for j in range(ncol)]).T
    s = np.zeros((ncol, ncol, nz))
    for j in range(ncol):
        s[j, j] = np.clip(sp(p['covmat_z'], p['sigma'][j, j], z), minsig, None)
    for j in range(ncol):
        for k in range(j+1, ncol):
            s[j, k] = np.clip(sp(p['covmat_z'], p['sigma'][j, k], z), -0.99, 0.99)
            s[k, j] = s[j, k]
    R['sigma'] = s
    cv = np.zeros_like(s)
    for j in range(ncol):
        for k in range(ncol):
            cv[j, k] = s[j, j]*s[k, k] * (1.0 if j == k else s[j, k])
    R['covmat'] = cv
    R['volume_factor'] = sp(p['volume_factor_z'], p['volume_factor'], z)
    R['corr'] = sp(p['corr_z'], p['corr'], z)
    R['corr2'] = sp(p['corr_z'], p['corr2'], z)
    R['corr_slope'] = sp(p['corr_slope_z'], p['corr_slope'], z)
    R['corr2_slope'] = sp(p['corr_slope_z'], p['corr2_slope'], z)
    for k in ('corr_r', 'corr2_r'):
        if p.get('corr_r') is None or p[k][0] <= 0:
            R[k] = np.ones(nz)
        else:
            R[k] = np.clip(sp(p['corr_slope_z'], p[k], z), 0.5, None)
    lo, hi = p['pivotmag_z'].min(), p['pivotmag_z'].max()
    # classification of bins within rounding of the edge is left open
    R['ext_lo'] = z < lo - 1e-6
    R['ext_hi'] = z > hi + 1e-6
    R['in'] = (z > lo + 1e-6) & (z < hi - 1e-6)
    return R


def check(case):
    p = draw_pars(case)
    fn = os.path.abspath('pars.fit')
    W.write_parfile(fn, p)
    fine = case['usefine']
    binsize = p['zbinfine'] if fine else p['zbincoarse']
    kw = dict(fine=fine)
    minsig = 0.01
    if case['minsig'] is not None:
        kw['minsig'] = minsig = case['minsig']
    if case['override']:
        # ask for a sub-range / other limit explicitly
        zr = [round(p['zrange'][0] + 0.02, 4), p['zrange'][1]]
        p = dict(p, zrange=zr, limmag=p['limmag'] - 0.7)
        kw['zrange'] = np.array(zr)
        kw['limmag'] = p['limmag']
    m = RedSequenceColorPar(fn, **kw)
    R = reference(p, binsize, minsig, case['template'])
    nz = R['z'].size
    tol = 1e-7 if case['dtype'] == 'f8' else 3e-4
    require(m.ncol == p['ncol'] and m.nmag == p['ncol'] + 1, 'number of colours')
    require(np.allclose(m.z[:nz], R['z'], atol=1e-9) and m.z.size == nz + 1, 'redshift bins')
    inr = R['in']
    ext = R['ext_lo'] | R['ext_hi']
    require(not np.any(np.asarray(m.extrapolated)[:nz][inr]) and np.all(np.asarray(m.extrapolated)[:nz][ext]),
            'extrapolation flags')
    tmpl = case['template']
    for k in ('pivotmag', 'maxrefmag', 'minrefmag', 'c', 'slope', 'volume_factor', 'corr', 'corr2',
              'corr_slope', 'corr2_slope', 'corr_r', 'corr2_r'):
        x = np.asarray(getattr(m, k))[:nz]
        r = R[k]
        require(x.shape == r.shape, '%s has shape %s', k, x.shape)
        use = np.ones(nz, dtype=bool)
        if tmpl and k in ('pivotmag', 'c', 'slope'):
            use = inr
        sc = 1 + np.abs(r)
        amp = np.max(np.abs(r)) if not inr.any() else 1 + np.max(np.abs(r[inr]))
        ok = np.abs(x - r) <= tol * (sc + amp)
        if ok.ndim == 2:
            ok = ok.all(axis=1)
        require(np.all(ok[use]), '%s differs from the node spline at z=%s: %s vs %s', k,
                R['z'][use & ~ok][:1], x[use & ~ok][:1], r[use & ~ok][:1])
        # overflow bin repeats the top one
        require(np.allclose(np.asarray(getattr(m, k))[nz], x[nz-1]), '%s: overflow bin', k)
    for k in ('sigma', 'covmat'):
        x = np.asarray(getattr(m, k))[:, :, :nz]
        r = R[k]
        require(x.shape == r.shape, k)
        require(np.all(np.abs(x - r) <= tol * (1 + np.abs(r).max())), '%s differs from the node spline', k)
        require(np.array_equal(x, x.transpose(1, 0, 2)), '%s not symmetric', k)
    d = np.array([m.covmat[j, j, :] for j in range(m.ncol)])
    require(np.all(d >= minsig**2*(1 - 1e-9)), 'intrinsic scatter below its minimum')
    for j in range(m.ncol):
        for k in range(j):
            rho = m.covmat[j, k] / np.sqrt(m.covmat[j, j]*m.covmat[k, k])
            require(np.all(np.abs(rho) <= 0.99 + 1e-9), 'correlation above one')
    if tmpl and (inr.any()):
        ii = np.flatnonzero(~np.asarray(m.extrapolated)[:nz])
        for sel, edge in ((R['ext_lo'], ii[0]), (R['ext_hi'], ii[-1])):
            if sel.any():
                require(np.allclose(m.pivotmag[:nz][sel], m.pivotmag[edge]), 'pivot magnitude not pinned outside')
                require(np.allclose(m.slope[:nz][sel], m.slope[edge]), 'slope not pinned outside')
        t = fitsio.read(os.path.join(os.path.dirname(__import__('redmapper').__file__),
                                     'data', 'initcolors', p['template']), ext=1, lower=True)
        th = fitsio.read_header(os.path.join(os.path.dirname(__import__('redmapper').__file__),
                                             'data', 'initcolors', p['template']), ext=1)
        tb = th['BANDS'].strip()
        tb = tb.split(',') if ',' in tb else list(tb)
        for j in range(m.ncol):
            if p['bands'][j] not in tb or tb.index(p['bands'][j]) == len(tb) - 1:
                continue
            i0 = tb.index(p['bands'][j])
            col = lambda zz: np.interp(zz, t['z'], t['color'][:, i0])
            for sel, edge in ((R['ext_lo'], ii[0]), (R['ext_hi'], ii[-1])):
                sel = sel & (R['z'] > t['z'].min()) & (R['z'] < t['z'].max())
                if sel.any():
                    e = m.c[edge, j] + col(R['z'][sel]) - col(R['z'][edge])
                    require(np.allclose(m.c[:nz][sel, j], e, atol=1e-5),
                            'colour %d outside the nodes does not follow the template', j)
    # characteristic magnitude and luminosity normalisation
    ms = fitsio.read(MStar(p['survey'], 'i03').mstar_file, ext=1, upper=True)
    mst = W.natural_spline(ms['Z'], ms['MSTAR'], R['z'])
    require(np.allclose(m.mstar(R['z']), mst, atol=2e-4), 'mstar table %g', np.max(np.abs(m.mstar(R['z'])-mst)))
    lb = np.asarray(m.lumrefmagbins)
    require(abs(lb[0] - 12.0) < 1e-6 and np.allclose(np.diff(lb[:-1]), 0.01), 'luminosity bins')
    for iz in set([0, nz//2, nz-1]):
        f = 10.**(0.4*(p['alpha']+1)*(mst[iz]-lb[:-1])) * np.exp(-10.**(0.4*(mst[iz]-lb[:-1])))
        require(np.allclose(m.lumnorm[:-1, iz], 0.01*np.cumsum(f), rtol=2e-3, atol=1e-12), 'luminosity normalisation')
    # look-ups
    rs = np.random.RandomState(case['seed'] + 5)
    z = np.concatenate((rs.uniform(p['zrange'][0] - 0.05, p['zrange'][1] + 0.05, 12), R['z'][[0, nz//2, nz-1]],
                        np.array(p['zrange'])))
    z = z[np.abs((z/binsize) % 1.0 - 0.5) > 1e-3]
    zi = np.atleast_1d(m.zindex(z))
    require(zi.shape == z.shape, 'zindex shape')
    for a, i in zip(z, zi):
        one = m.zindex(a)
        require(np.ndim(one) == 0 and one == i, 'zindex scalar and array disagree at %g', a)
        require(0 <= i <= nz, 'index out of table')
        near = int(np.argmin(np.abs(R['z'] - a)))
        if a > R['z'][-1] + 0.5*binsize:
            require(i in (nz - 1, nz), 'redshift %g above the table looked up at bin %d', a, i)
        else:
            require(i == near, 'redshift %g looked up in bin %d (z=%g), nearest is %d', a, i, m.z[i], near)
        require(abs(float(m.mstar(a)) - mst[min(i, nz-1)]) < 2e-4, 'mstar look-up')
    for fun, bins, lo, hi in ((m.refmagindex, np.asarray(m.refmagbins), 12.0, p['limmag']),
                              (m.lumrefmagindex, lb, 12.0, lb[-2])):
        nb = bins.size - 1
        require(abs(bins[0] - lo) < 1e-6 and abs(bins[nb-1] - hi) < 0.0201 and np.allclose(np.diff(bins[:nb]), 0.01),
                'magnitude bins do not span the range')
        q = np.concatenate((rs.uniform(lo - 1, hi + 1, 12), [bins[0], bins[nb//2], bins[nb-1]]))
        q = q[np.abs((q*100) % 1.0 - 0.5) > 1e-2]
        qi = np.atleast_1d(fun(q))
        for a, i in zip(q, qi):
            require(fun(a) == i, 'magnitude look-up of scalar and array disagree')
            if a > bins[nb-1] + 0.005:
                require(i in (nb - 1, nb), 'magnitude %g above the table looked up at %d', a, i)
            else:
                near = int(np.argmin(np.abs(bins[:nb] - a)))
                require(i == near, 'magnitude %g looked up in bin %d, nearest is %d', a, i, near)
    # chi-squared of galaxies
    n = case['ngal']
    g = np.zeros(n, dtype=W.gal_dtype(m.nmag))
    g['refmag'] = rs.uniform(12.5, p['limmag'] + 0.3, n)
    g['refmag_err'] = rs.uniform(.005, .2, n)
    zg = rs.uniform(p['zrange'][0], p['zrange'][1] - binsize, n)
    g['mag'] = W.red_mags(m, zg, g['refmag'], p['ref_ind']) + rs.normal(size=(n, m.nmag))*0.1
    g['mag_err'] = rs.uniform(.01, .2, (n, m.nmag))
    gal = GalaxyCatalog(g)
    before = g.copy()
    zi = np.atleast_1d(m.zindex(zg)) if n > 1 else np.array([m.zindex(zg)])
    E = np.zeros((n, n))
    L = np.zeros((n, n))
    er = np.asarray(p['err_int']) if 'err_int' in p else np.ones(m.nmag)
    es = np.asarray(p['err_slope']) if 'err_slope' in p else np.zeros(m.nmag)
    piv = p.get('err_pivot', 20.0)
    J = np.zeros((m.ncol, m.nmag))
    for j in range(m.ncol):
        J[j, j], J[j, j+1] = 1., -1.
    lupmax = 0.0
    for i in range(n):         # galaxy i at redshift bin zi[j]
        err = g['mag_err'][i].astype('f8') * (er + es*(float(g['refmag'][i]) - piv))
        for j in range(n):
            k = zi[j]
            C = m.covmat[:, :, k] + np.dot(J*err**2, J.T) + np.outer(m.slope[k], m.slope[k])*float(g['refmag_err'][i])**2
            lup = np.zeros(m.ncol)
            if case['lup'] == 'yes':
                rb = m.refmagbins[min(m.refmagindex(g['refmag'][i]), len(m.refmagbins)-2)]
                mm = np.zeros(m.nmag)
                mm[p['ref_ind']] = rb
                col = m.c[k] + m.slope[k]*(rb - m.pivotmag[k])
                for b in range(p['ref_ind']+1, m.nmag):
                    mm[b] = mm[b-1] - col[b-1]
                for b in range(p['ref_ind']-1, -1, -1):
                    mm[b] = mm[b+1] + col[b]
                bv = np.array(p['bvalues'])
                lu = 2.5*np.log10(1./bv) - np.arcsinh(0.5*10.**((mm-22.5)/-2.5)/(bv*1e9))/(0.4*np.log(10.))
                lup = (lu[:-1]-lu[1:]) - (mm[:-1]-mm[1:])
                lupmax = max(lupmax, np.max(np.abs(lup)))
            dv = m.c[k] + m.slope[k]*(float(g['refmag'][i]) - m.pivotmag[k]) + lup - (
                g['mag'][i, :-1].astype('f8') - g['mag'][i, 1:].astype('f8'))
            w, v = np.linalg.eigh(C)
            w = np.clip(w, 1e-6, None)
            E[i, j] = np.sum(np.dot(v.T, dv)**2/w)
            L[i, j] = -0.5*E[i, j] - 0.5*np.sum(np.log(w))

    def cmp(x, e, what):
        x = np.asarray(x)
        require(x.shape == e.shape and np.all(np.abs(x - e) <= 3e-3*(1 + np.abs(e))),
                '%s: %s, expected %s', what, x[:3], e[:3])
    for lk, M in ((False, E), (True, L)):
        cmp(m.calculate_chisq(gal, zg, calc_lkhd=lk), np.diag(M), 'one redshift per galaxy (lkhd=%s)' % lk)
        cmp(m.calculate_chisq(gal, zi, calc_lkhd=lk, z_is_index=True), np.diag(M), 'by index (lkhd=%s)' % lk)
        for j in range(min(n, 2)):
            cmp(m.calculate_chisq(gal, zg[j], calc_lkhd=lk), M[:, j], 'one redshift, all galaxies')
            cmp(m.calculate_chisq_redshifts(gal[j], zi, calc_lkhd=lk, z_is_index=True), M[j, :], 'one galaxy by index')
            if n > 1:
                cmp(m.calculate_chisq_redshifts(gal[j], zg, calc_lkhd=lk), M[j, :], 'one galaxy, many redshifts')
    require(np.array_equal(gal._ndarray['mag_err'] if hasattr(gal, '_ndarray') else gal.mag_err, before['mag_err']) and
            np.array_equal(gal.refmag, before['refmag']) and np.array_equal(gal.mag, before['mag']),
            'galaxy photometry modified by the chi-squared calculation')
    return ('tmpl' if tmpl else 'plain') + ('-lup' if lupmax > 0 else '') + ('-extrap' if ext.any() else '')


strat = st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**31 - 10), ncol=st.integers(1, 4), zlo=st.sampled_from([1, 5, 10, 20]),
    zhi=st.sampled_from([30, 42, 60]), limmag=st.sampled_from([19.0, 20.3, 21.2911]),
    alpha=st.sampled_from([-1.0, -0.8, -1.2]), fine=st.sampled_from([0.001, 0.002, 0.0005]),
    coarse=st.sampled_from([0.0025, 0.005, 0.01]), usefine=st.sampled_from([False, False, False, True]), ref_ind=st.integers(0, 4),
    dtype=st.sampled_from(['f4', 'f8']), survey=st.sampled_from(['sdss', 'des']), e0=st.sampled_from([-2, 0, 0, 3]),
    e1=st.sampled_from([-2, 0, 0, 4]), nn=st.integers(3, 7), nc=st.integers(3, 6),
    corr_r=st.sampled_from(['none', 'yes', 'zero', 'zero2']), ratio=st.booleans(),
    lup=st.sampled_from(['no', 'zero', 'yes', 'yes']), template=st.booleans(),
    minsig=st.sampled_from([None, None, 0.03]), override=st.booleans(), ngal=st.integers(1, 5)))

TESTS = [T('model-%d' % i, strat, check, 350, 6000,
           'a parameter file loaded and compared with splines of its nodes; label: template/luptitude/extrapolation')
         for i in range(6)]
