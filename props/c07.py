"""C07: background generation."""
import os
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from redmapper.redsequence import RedSequenceColorPar
from redmapper.background import BackgroundGenerator, ZredBackgroundGenerator
from redmapper.color_background import ColorBackgroundGenerator
from redmapper.galaxy import GalaxyCatalog

ASSUMPTIONS = ['chi-squared values come from the red-sequence model, which C03/C04 verify',
               'galaxy tables with at least two pixels; no depth map (constant area)',
               'weight a cloud-in-cell galaxy would put outside the table is dropped']


def world(case):
    rs = np.random.RandomState(case['seed'])
    ncol = case['ncol']
    p = W.nice_pars(ncol=ncol, zrange=(0.1, 0.4), zbincoarse=0.01)
    W.write_parfile('pars.fit', p)
    zr = [0.1, 0.1 + 0.02*case['nz'] - 0.001]
    m = RedSequenceColorPar('pars.fit', zrange=zr)
    n = case['n']
    g = np.zeros(n, dtype=W.gal_dtype(ncol + 1))
    g['id'] = np.arange(n) + 1
    g['ra'] = rs.uniform(95, 115, n)
    g['dec'] = rs.uniform(-8, 8, n)
    g['ra'][:2], g['dec'][:2] = [96., 114.], 0.0
    z = rs.uniform(zr[0], zr[1], n)
    g['refmag'] = rs.uniform(15., 19.9, n)
    k = rs.randint(0, 10, n)
    g['refmag'][k == 0] = rs.uniform(11.0, 13.0, (k == 0).sum())
    g['refmag'][k == 1] = rs.uniform(19.5, 21.5, (k == 1).sum())
    g['mag'] = W.red_mags(m, z, g['refmag'], p['ref_ind']) + rs.normal(size=(n, ncol+1))*0.06
    g['refmag_err'] = 0.02
    g['mag_err'] = rs.uniform(0.01, 0.05, size=g['mag'].shape)
    zd = np.zeros(n, dtype=W.zred_dtype(2))
    zd['zred'] = rs.uniform(zr[0] - 0.03, zr[1] + 0.03, n)
    zd['zred_e'] = 10**rs.uniform(-2.5, 0.3, n)
    zd['chisq'] = rs.uniform(0, 160, n)
    bands = list('griz'[:ncol+1])
    gf, zf, order = W.write_galtable('tab', 'gal', g, 8, ncol + 1, bands, bands[p['ref_ind']], area=50., zreds=zd, lim_ref=case['lim'])
    d = W.min_config(ncol + 1, galfile=os.path.abspath(gf), zredfile=os.path.abspath(zf), refmag=bands[p['ref_ind']],
                     zrange=zr, parfile=os.path.abspath('pars.fit'), calib_nproc=case['nproc'], area=case['area'],
                     limmag_ref=case['lim'], limmag_catalog=case['lim'], bkgfile=os.path.abspath('bkg.fit'),
                     bkgfile_color=os.path.abspath('cbkg.fit'), chisq_max=case['cmax'], bkg_zbinsize=0.02, bkg_deepmode=False,
                     outpath=os.path.abspath('.'), border=0.0, wcen_zred_chisq_max=100.0)
    sel = np.ones(n, dtype=bool)
    if case.get('flat'):
        hdr = dict(PIXELS=0, FITS=1, MODE='SDSS', AREA=50., LIM_REF=case['lim'], NMAG=ncol+1, ZP=22.5)
        hdr.update({'%s_IND' % b.upper(): i for i, b in enumerate(bands)})
        fitsio.write('flat.fit', g, header=hdr, clobber=True)
        d['galfile'] = os.path.abspath('flat.fit')
    elif case['sub']:
        pix = hpg.angle_to_pixel(8, g['ra'], g['dec'], nest=False)
        th, ph = hpg.pixel_to_angle(8, pix, nest=False)
        big = hpg.angle_to_pixel(4, th, ph, nest=False)
        d.update(nside=4, hpix=[int(big[0])])
        sel = big == big[0]
    return rs, p, m, g, zd, sel, W.config('c.yaml', d), zr


def near(x, edges, tol):
    return np.any(np.abs(np.asarray(x)[:, None] - np.asarray(edges)[None, :]) < tol)


def hdus(fn):
    with fitsio.FITS(fn) as f:
        return [h.get_extname() for h in f[1:]]


def check(case):
    rs, p, m, g, zd, sel, conf, zr = world(case)
    gen = BackgroundGenerator(conf)
    gen.run(clobber=True, deepmode=case['deep'], natatime=case['nat'])
    b = fitsio.read('bkg.fit', ext='CHISQBKG', lower=True)[0]
    nm = int(np.ceil(round((case['lim'] - 12.0)/0.2, 9)))
    nc = int(np.ceil(case['cmax']/0.5))
    require(b['sigma_g'].shape == (nm, nc, case['nz']), 'table shape %s', b['sigma_g'].shape)
    require(np.allclose(b['refmagbins'], 12 + 0.2*np.arange(nm), atol=1e-4) and np.allclose(b['chisqbins'], 0.5*np.arange(nc), atol=1e-4)
            and np.allclose(b['zbins'], zr[0] + 0.02*np.arange(case['nz']), atol=1e-5), 'table bins')
    require(np.allclose(b['areas'], case['area']), 'areas')
    require(np.allclose(b['refmagrange'], [12, case['lim']]) and np.allclose(b['chisqrange'], [0, case['cmax']]) and
            np.allclose(b['zrange'], zr), 'table ranges')
    gs = GalaxyCatalog(g[sel].copy())
    tot = 0
    for i in range(case['nz']):
        zb = zr[0] + 0.02*i
        lim = float(m.mstar(zb + 0.02)) - 2.5*np.log10(0.01 if case['deep'] else 0.1)
        if lim >= case['lim']:
            lim = case['lim'] - 0.01
        k = min(int((lim - 12.0)*nm/(case['lim'] - 12.0)), nm - 1)
        if abs((lim - 12.0)*nm/(case['lim'] - 12.0) - round((lim - 12.0)*nm/(case['lim'] - 12.0))) < 1e-4:
            return False
        zlim = 12 + 0.2*k + 0.2
        rm = gs.refmag.astype('f8')
        chi = np.array(m.calculate_chisq(gs, zb), dtype='f4').astype('f8')
        if near(rm, [12.0, zlim, case['lim']], 1e-5) or near(chi, [0, case['cmax'], np.exp(-2), np.exp(6)], 1e-3):
            return False
        ok = (rm > 12) & (rm < zlim) & (rm < case['lim'])
        u = ok & (chi >= 0) & (chi < case['cmax'])
        ref = W.cic_ref(np.ones(u.sum()), [chi[u]*nc/case['cmax'], (rm[u] - 12)*nm/(case['lim'] - 12)], (nc, nm))
        got = b['sigma_g'][:, :, i]*(case['area']*0.2*0.5)
        require(np.all(np.abs(got - ref) < 2e-3 + 2e-4*ref), 'redshift bin %d: table counts %g galaxies in a bin holding %g (total %g of %g)',
                i, got.flat[np.argmax(np.abs(got - ref))], ref.flat[np.argmax(np.abs(got - ref))], got.sum(), ref.sum())
        tot += u.sum()
        with np.errstate(all='ignore'):
            ln = np.log(chi)
        u = ok & (ln >= -2) & (ln < 6)
        ref = W.cic_ref(np.ones(u.sum()), [(ln[u] + 2)*40/8., (rm[u] - 12)*nm/(case['lim'] - 12)], (40, nm))
        got = b['sigma_lng'][:, :, i]*(case['area']*0.2*0.2)
        require(np.all(np.abs(got - ref) < 2e-3 + 2e-4*ref), 'redshift bin %d: ln chi-squared table', i)
    # an existing table is kept, and the other extension can be added
    before = open('bkg.fit', 'rb').read()
    gen.run(clobber=False)
    require(open('bkg.fit', 'rb').read() == before, 'existing background replaced without clobber')
    if case['flat']:
        return 'flat' if tot else False
    ZredBackgroundGenerator(conf).run(clobber=False)
    require(sorted(hdus('bkg.fit')) == ['CHISQBKG', 'ZREDBKG'], 'extensions %s', hdus('bkg.fit'))
    require(fitsio.read('bkg.fit', ext='CHISQBKG', lower=True)[0].tobytes() == b.tobytes(), 'background changed when another was added')
    return 'galaxies' if tot else False


def check_zred(case):
    rs, p, m, g, zd, sel, conf, zr = world(case)
    ZredBackgroundGenerator(conf).run(clobber=True)
    b = fitsio.read('bkg.fit', ext='ZREDBKG', lower=True)[0]
    mf = RedSequenceColorPar('pars.fit', fine=True, zrange=zr)
    r = [mf.z[0], mf.z[-2] + mf.z[1] - mf.z[0]]
    nm = int(np.ceil(round((case['lim'] - 12.0)/0.2, 9)))
    nz = b['zredbins'].size
    require(abs(nz - (r[1] - r[0])/0.01) < 1.01 and nz >= (r[1] - r[0])/0.01 - 1e-6, 'number of redshift bins')
    require(np.allclose(b['zredrange'], r, atol=1e-5) and np.allclose(b['zredbins'], r[0] + 0.01*np.arange(nz), atol=1e-5) and
            np.allclose(b['refmagbins'], 12 + 0.2*np.arange(nm), atol=1e-4) and np.allclose(b['areas'], case['area']), 'bins')
    z, rm, chi = zd['zred'].astype('f8'), g['refmag'].astype('f8'), zd['chisq']
    if near(z, r, 1e-6) or near(rm, [12., case['lim']], 1e-5) or near(chi, [100.], 1e-4):
        return False
    u = sel & (chi < 100.0) & (z >= r[0]) & (z < r[1]) & (rm > 12) & (rm < case['lim'])
    ref = W.cic_ref(np.ones(u.sum()), [(z[u] - r[0])*nz/(r[1] - r[0]), (rm[u] - 12)*nm/(case['lim'] - 12)], (nz, nm))
    got = b['sigma_g']*(case['area']*0.2*0.01)
    require(np.all(np.abs(got - np.maximum(ref, 0.1)) < 2e-3 + 2e-4*ref), 'redshift table holds %g galaxies, expected %g', got.sum(),
            np.maximum(ref, 0.1).sum())
    before = open('bkg.fit', 'rb').read()
    ZredBackgroundGenerator(conf).run(clobber=False)
    require(open('bkg.fit', 'rb').read() == before, 'existing background replaced without clobber')
    g2 = BackgroundGenerator(conf)
    g2.run(clobber=False)
    require(sorted(hdus('bkg.fit')) == ['CHISQBKG', 'ZREDBKG'], 'extensions %s', hdus('bkg.fit'))
    return bool(u.sum())


def check_color(case):
    rs, p, m, g, zd, sel, conf, zr = world(case)
    gs = g[sel]
    col = gs['mag'][:, :-1].astype('f8') - gs['mag'][:, 1:].astype('f8')
    rm = gs['refmag'].astype('f8')
    nmin = 0
    lim = case['lim']
    ncol = case['ncol']
    rng = []
    for i in range(ncol):
        u = (col[:, i] > -2) & (col[:, i] < 5) & (rm < lim - 0.5)
        x = (col[u, i] + 2)/0.02
        if u.sum() == 0 or np.any(np.abs(x - np.round(x)) < 1e-3):
            return False
        h = np.bincount(np.floor(x).astype(int), minlength=350)
        gd = np.flatnonzero(h > nmin)
        rng.append((-2 + 0.02*gd[0], -2 + 0.02*gd[-1] + 0.02))
    if near(rm, [12., lim, lim - 0.5], 1e-5):
        return False
    for i in range(ncol):
        if near(col[:, i], rng[i], 1e-5):
            return False
    ColorBackgroundGenerator(conf, minrangecheck=nmin).run(clobber=True)
    nm = int(np.ceil(round((lim - 12.0)/0.05, 9)))
    names = hdus('cbkg.fit')
    require(sorted(names) == sorted('%02d_%02d_REF' % (i, j) for i in range(ncol) for j in range(i, ncol)), 'extensions %s', names)
    nc = []
    okm = (rm >= 12) & (rm < lim)
    for i in range(ncol):
        e = fitsio.read('cbkg.fit', ext='%02d_%02d_REF' % (i, i), lower=True)[0]
        require(np.allclose(e['colrange'], rng[i], atol=1e-4), 'colour %d: range %s, expected %s', i, e['colrange'], rng[i])
        require(abs(e['colbins'].size - (rng[i][1] - rng[i][0])/0.02) < 1.01, 'colour bins')
        require(np.allclose(e['areas'], case['area']), 'areas')
        nc.append(e['colbins'].size)
        require(e['refmagbins'].size in (nm, nm + 1), 'magnitude bins')
        nm = e['refmagbins'].size
        u = okm & (col[:, i] >= rng[i][0]) & (col[:, i] < rng[i][1])
        w = rng[i][1] - rng[i][0]
        ref = W.cic_ref(np.ones(u.sum()), [(col[u, i] - rng[i][0])*nc[i]/w, (rm[u] - 12)*nm/(lim - 12)], (nc[i], nm))
        got = e['bc']*0.05*0.02
        require(np.all(np.abs(got - ref) < 2e-3), 'colour %d: %g galaxies, expected %g', i, got.sum(), ref.sum())
        require(np.allclose(e['n'], e['bc'].sum(axis=1, dtype='f8')*0.02, rtol=1e-3, atol=1e-6), 'colour %d: totals per magnitude', i)
    for i in range(ncol):
        for j in range(i+1, ncol):
            e = fitsio.read('cbkg.fit', ext='%02d_%02d_REF' % (i, j), lower=True)[0]
            u = okm & (col[:, i] >= rng[i][0]) & (col[:, i] < rng[i][1]) & (col[:, j] >= rng[j][0]) & (col[:, j] < rng[j][1])
            ref = W.cic_ref(np.ones(u.sum()), [(col[u, i] - rng[i][0])*nc[i]/(rng[i][1] - rng[i][0]),
                                               (col[u, j] - rng[j][0])*nc[j]/(rng[j][1] - rng[j][0]),
                                               (rm[u] - 12)*nm/(lim - 12)], (nc[i], nc[j], nm))
            got = e['bc']*0.05*0.02*0.02
            require(got.shape == ref.shape and np.all(np.abs(got - ref) < 2e-3), 'colours %d,%d: %g galaxies, expected %g', i, j, got.sum(), ref.sum())
            require(np.allclose(e['col1range'], rng[i], atol=1e-4) and np.allclose(e['col2range'], rng[j], atol=1e-4), 'colour ranges')
    before = open('cbkg.fit', 'rb').read()
    ColorBackgroundGenerator(conf, minrangecheck=nmin).run(clobber=False)
    require(open('cbkg.fit', 'rb').read() == before, 'existing colour background replaced without clobber')
    return True


def strat(**kw):
    d = dict(seed=st.integers(0, 2**31 - 1), ncol=st.integers(2, 3), nz=st.integers(2, 4), n=st.integers(2, 60),
             nproc=st.integers(1, 3), area=st.sampled_from([1.0, 50.0]), lim=st.sampled_from([18.0, 19.1, 20.0]),
             cmax=st.sampled_from([20.0, 15.0]), sub=st.booleans(), deep=st.booleans())
    d.update(kw)
    return st.fixed_dictionaries(d)


TESTS = ([T('chisq-%d' % i, strat(flat=st.sampled_from([False, False, True]), nat=st.sampled_from([7, 20, 1000])), check, 120, 1500, 'at least one galaxy in the chi-squared range') for i in range(4)] +
         [T('zred-%d' % i, strat(), check_zred, 100, 1500, 'at least one eligible galaxy') for i in range(2)] +
         [T('colour-%d' % i, strat(n=st.integers(5, 40)), check_color, 120, 1500, 'table generated') for i in range(2)])
