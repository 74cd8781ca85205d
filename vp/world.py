"""Shared generators of synthetic inputs (files and catalogues)."""
import os
import functools
import numpy as np
import fitsio

REPO = os.environ.get('VP_REPO', '/repo')
TESTDATA = os.path.join(REPO, 'tests', 'data_for_tests')
DR8_PARS = os.path.join(TESTDATA, 'test_dr8_pars.fit')
DR8_BKG = os.path.join(TESTDATA, 'test_bkg.fit')
DR8_COLBKG = os.path.join(TESTDATA, 'test_dr8_col_bkg.fit')

BANDS = 'ugrizy'


def sep(ra1, dec1, ra2, dec2):
    """Angular separation in degrees (accurate at all scales)."""
    ra1, dec1, ra2, dec2 = [np.radians(np.asarray(x, dtype='f8')) for x in (ra1, dec1, ra2, dec2)]
    a = np.sin((dec2-dec1)/2.)**2 + np.cos(dec1)*np.cos(dec2)*np.sin((ra2-ra1)/2.)**2
    return np.degrees(2*np.arcsin(np.sqrt(np.clip(a, 0, 1))))


def offset(ra, dec, dx, dy):
    """Point at tangent-plane offsets dx, dy (degrees) from ra, dec."""
    d = np.sqrt(np.asarray(dx)**2 + np.asarray(dy)**2)
    pa = np.arctan2(dx, dy)
    d0, dd = np.radians(dec), np.radians(d)
    sdec = np.sin(d0)*np.cos(dd) + np.cos(d0)*np.sin(dd)*np.cos(pa)
    dec2 = np.arcsin(np.clip(sdec, -1, 1))
    dra = np.arctan2(np.sin(pa)*np.sin(dd)*np.cos(d0), np.cos(dd) - np.sin(d0)*sdec)
    return (ra + np.degrees(dra)) % 360., np.degrees(dec2)


def natural_spline(x, y, xout):
    from scipy.interpolate import CubicSpline
    return CubicSpline(np.asarray(x, 'f8'), np.asarray(y, 'f8'), bc_type='natural')(np.asarray(xout, 'f8'))


def write_parfile(fn, p):
    """Write a red-sequence parameter file from a plain description.

    p: dict with ncol, zrange, limmag, alpha, survey, band, zbinfine, zbincoarse, ref_ind,
    bvalues (list or None), template, bands, dtype and node arrays.
    """
    ncol = p['ncol']
    ft = p.get('dtype', 'f4')
    pz = np.asarray(p['pivotmag_z'])
    cz = np.asarray(p['covmat_z'])
    dt = [('PIVOTMAG_Z', ft, pz.size), ('PIVOTMAG', ft, pz.size), ('MINREFMAG', ft, pz.size),
          ('MAXREFMAG', ft, pz.size), ('COVMAT_Z', ft, cz.size), ('SIGMA', ft, (ncol, ncol, cz.size)),
          ('CORR_Z', ft, len(p['corr_z'])), ('CORR', ft, len(p['corr_z'])), ('CORR2', ft, len(p['corr_z'])),
          ('CORR_SLOPE_Z', ft, len(p['corr_slope_z']))]
    for k in ('CORR_SLOPE', 'CORR2_SLOPE'):
        dt.append((k, ft, len(p['corr_slope_z'])))
    if p.get('corr_r') is not None:
        dt += [('CORR_R', ft, len(p['corr_slope_z'])), ('CORR2_R', ft, len(p['corr_slope_z']))]
    dt += [('VOLUME_FACTOR_Z', ft, len(p['volume_factor_z'])), ('VOLUME_FACTOR', ft, len(p['volume_factor_z']))]
    for j in range(ncol):
        dt += [('Z%02d' % j, ft, len(p['z'][j])), ('C%02d' % j, ft, len(p['z'][j])),
               ('ZS%02d' % j, ft, len(p['zs'][j])), ('SLOPE%02d' % j, ft, len(p['zs'][j]))]
    if p.get('err_int') is not None:
        dt += [('MAG_ERR_RATIO_INT', ft, ncol+1), ('MAG_ERR_RATIO_SLOPE', ft, ncol+1), ('MAG_ERR_RATIO_PIVOT', ft)]
    a = np.zeros(1, dtype=dt)
    for k in ('PIVOTMAG_Z', 'PIVOTMAG', 'MINREFMAG', 'MAXREFMAG', 'COVMAT_Z', 'SIGMA', 'CORR_Z', 'CORR', 'CORR2',
              'CORR_SLOPE_Z', 'CORR_SLOPE', 'CORR2_SLOPE', 'VOLUME_FACTOR_Z', 'VOLUME_FACTOR'):
        a[k][0] = p[k.lower()]
    if p.get('corr_r') is not None:
        a['CORR_R'][0] = p['corr_r']
        a['CORR2_R'][0] = p['corr2_r']
    for j in range(ncol):
        a['Z%02d' % j][0] = p['z'][j]
        a['C%02d' % j][0] = p['c'][j]
        a['ZS%02d' % j][0] = p['zs'][j]
        a['SLOPE%02d' % j][0] = p['slope'][j]
    if p.get('err_int') is not None:
        a['MAG_ERR_RATIO_INT'][0] = p['err_int']
        a['MAG_ERR_RATIO_SLOPE'][0] = p['err_slope']
        a['MAG_ERR_RATIO_PIVOT'][0] = p['err_pivot']
    hdr = [dict(name='NCOL', value=ncol), dict(name='MSTARSUR', value=p.get('survey', 'sdss')),
           dict(name='MSTARBAN', value=p.get('band', 'i03')), dict(name='LIMMAG', value=p['limmag']),
           dict(name='ZRANGE0', value=p['zrange'][0]), dict(name='ZRANGE1', value=p['zrange'][1]),
           dict(name='ALPHA', value=p.get('alpha', -1.0)), dict(name='ZBINFINE', value=p['zbinfine']),
           dict(name='ZBINCOAR', value=p['zbincoarse']), dict(name='LOWZMODE', value=0),
           dict(name='REF_IND', value=p['ref_ind'])]
    if p.get('bvalues') is not None:
        hdr += [dict(name='BVALUE%d' % (i+1), value=b) for i, b in enumerate(p['bvalues'])]
    if p.get('template'):
        hdr += [dict(name='TEMPLATE', value=p['template']), dict(name='BANDS', value=','.join(p['bands']))]
    fitsio.write(fn, a, header=hdr, clobber=True)


def nodes(lo, hi, n):
    return np.linspace(lo, hi, n)


def nice_pars(ncol=3, zrange=(0.1, 0.4), zbinfine=0.001, zbincoarse=0.005, limmag=21.0, seed=1,
              corr=0.0, bvalues=None, sigma=0.03, dtype='f8'):
    """A smooth, monotonic red sequence where redshifts are identifiable from colours."""
    rs = np.random.RandomState(seed)
    zr = zrange
    from scipy.interpolate import interp1d
    p = dict(ncol=ncol, zrange=list(zr), limmag=limmag, zbinfine=zbinfine, zbincoarse=zbincoarse,
             ref_ind=ncol - 1, bvalues=bvalues, dtype=dtype)
    pz = nodes(zr[0], zr[1], 4)
    p['pivotmag_z'] = pz
    p['pivotmag'] = 17.5 + 6.0*(pz - 0.1)
    p['minrefmag'] = p['pivotmag'] - 3.
    p['maxrefmag'] = p['pivotmag'] + 2.5
    cz = nodes(zr[0], zr[1], 4)
    p['covmat_z'] = cz
    sig = np.zeros((ncol, ncol, cz.size))
    for j in range(ncol):
        sig[j, j, :] = sigma * (1 + 0.3*j) * (1 + 0.2*np.linspace(0, 1, cz.size))
        for k in range(j):
            sig[j, k, :] = 0.4 * (-1)**(j+k)
            sig[k, j, :] = sig[j, k, :]
    p['sigma'] = sig
    p['corr_z'] = nodes(zr[0], zr[1], 5)
    p['corr'] = corr * rs.uniform(-1, 1, 5)
    p['corr2'] = corr * rs.uniform(-1, 1, 5)
    p['corr_slope_z'] = nodes(zr[0], zr[1], 4)
    p['corr_slope'] = 0.2 * corr * rs.uniform(-1, 1, 4)
    p['corr2_slope'] = 0.2 * corr * rs.uniform(-1, 1, 4)
    p['corr_r'] = np.ones(4) + (corr > 0)*rs.uniform(-.2, .4, 4)
    p['corr2_r'] = np.ones(4) + (corr > 0)*rs.uniform(-.2, .4, 4)
    p['volume_factor_z'] = nodes(zr[0], zr[1], 6)
    p['volume_factor'] = 1.0 + 0.5*np.linspace(0, 1, 6)
    p['z'], p['c'], p['zs'], p['slope'] = [], [], [], []
    amp = [3.2, 2.2, 0.9, 0.7, 0.5]
    for j in range(ncol):
        z = nodes(zr[0], zr[1], 6)
        p['z'].append(z)
        p['c'].append(0.6 + 0.15*j + amp[j]*(z - zr[0]) + 0.05*np.sin(8*z + j))
        p['zs'].append(nodes(zr[0], zr[1], 3))
        p['slope'].append(np.array([-0.02, -0.03, -0.025]) * (1 + 0.3*j))
    return p


def gal_dtype(nmag, extra=()):
    return [('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('refmag', 'f4'), ('refmag_err', 'f4'),
            ('mag', 'f4', nmag), ('mag_err', 'f4', nmag), ('ebv', 'f4')] + list(extra)


def red_mags(zr, z, refmag, ref_ind, rs=None, scatter=0.0):
    """Magnitudes (n, nmag) of galaxies on the tabulated red sequence zr."""
    z = np.atleast_1d(z)
    refmag = np.atleast_1d(refmag)
    n = refmag.size
    ind = np.atleast_1d(zr.zindex(z))
    nmag = zr.ncol + 1
    col = zr.c[ind, :] + zr.slope[ind, :]*(refmag - zr.pivotmag[ind])[:, None]
    if rs is not None and scatter > 0:
        for i in range(n):
            col[i] += scatter * rs.multivariate_normal(np.zeros(zr.ncol), zr.covmat[:, :, ind[i]])
    m = np.zeros((n, nmag))
    m[:, ref_ind] = refmag
    for j in range(ref_ind + 1, nmag):
        m[:, j] = m[:, j-1] - col[:, j-1]
    for j in range(ref_ind - 1, -1, -1):
        m[:, j] = m[:, j+1] + col[:, j]
    return m


def write_galtable(path, base, gals, nside, nmag, bands, ref_band, lim_ref=21.0, area=100.0, mode='SDSS',
                   b=None, zeropoint=22.5, zreds=None, zpath=None, has_truth=False, has_zspec=False,
                   drop_zred_pix=(), hpix=None):
    """Write a pixelised galaxy table (and redshift table) without using redmapper's own writer.

    Returns (galfile, zredfile or None, row order of gals in the table)."""
    import hpgeom as hpg
    os.makedirs(path, exist_ok=True)
    pix = hpg.angle_to_pixel(nside, gals['ra'], gals['dec'], nest=False)
    up = np.unique(pix) if hpix is None else np.asarray(hpix)
    fnames, order, ng = [], [], []
    for p in up:
        idx = np.flatnonzero(pix == p)
        fn = '%s_%07d.fit' % (base, p)
        fitsio.write(os.path.join(path, fn), gals[idx], clobber=True)
        fnames.append(fn)
        order.append(idx)
        ng.append(idx.size)
    n = len(up)
    dt = [('nside', 'i2'), ('hpix', 'i4', (n,)), ('ra_pix', 'f8', (n,)), ('dec_pix', 'f8', (n,)),
          ('ngals', 'i4', (n,)), ('filenames', 'S%d' % (len(base) + 15), (n,)), ('lim_ref', 'f4'), ('ref_ind', 'i2'),
          ('area', 'f8'), ('nmag', 'i4'), ('mode', 'S10'), ('zeropoint', 'f4'), ('has_truth', 'i2'), ('has_zspec', 'i2')]
    if b is not None:
        dt.append(('b', 'f8', (nmag,)))
    dt += [('%s_ind' % x, 'i2') for x in bands]
    t = np.zeros(1, dtype=dt)
    t['nside'] = nside
    t['hpix'][0] = up
    t['ra_pix'][0], t['dec_pix'][0] = hpg.pixel_to_angle(nside, up, nest=False)
    t['ngals'][0] = ng
    t['filenames'][0] = fnames
    t['lim_ref'], t['ref_ind'], t['area'], t['nmag'] = lim_ref, list(bands).index(ref_band), area, nmag
    t['mode'], t['zeropoint'], t['has_truth'], t['has_zspec'] = mode, zeropoint, has_truth, has_zspec
    if b is not None:
        t['b'][0] = b
    for i, x in enumerate(bands):
        t['%s_ind' % x] = i
    gf = os.path.join(path, '%s_master_table.fit' % base)
    fitsio.write(gf, t, header=[dict(name='PIXELS', value=1), dict(name='FITS', value=1)], clobber=True)
    zf = None
    if zreds is not None:
        zpath = zpath or path
        os.makedirs(zpath, exist_ok=True)
        zn = []
        for p, idx in zip(up, order):
            fn = '%s_zreds_%07d.fit' % (base, p)
            if p not in drop_zred_pix:
                fitsio.write(os.path.join(zpath, fn), zreds[idx], clobber=True)
            zn.append(fn)
        zdt = [(x[0], 'S%d' % (len(base) + 20), (n,)) if x[0] == 'filenames' else x for x in dt]
        zt = np.zeros(1, dtype=zdt)
        for x in t.dtype.names:
            zt[x] = t[x]
        zt['filenames'][0] = zn
        zf = os.path.join(zpath, '%s_zreds_master_table.fit' % base)
        fitsio.write(zf, zt, header=[dict(name='PIXELS', value=1)], clobber=True)
    return gf, zf, np.concatenate(order) if order else np.zeros(0, dtype='i8')


def write_config(fn, d):
    import yaml
    with open(fn, 'w') as f:
        yaml.safe_dump(d, f)
    return fn


def config(fn, d):
    from redmapper.configuration import Configuration
    return Configuration(write_config(fn, d))


ZRED_NAMES = ('zred', 'zred_e', 'zred2', 'zred2_e', 'zred_uncorr', 'zred_uncorr_e', 'lkhd', 'chisq')


def zred_dtype(nsamp):
    return [('zred', 'f4'), ('zred_e', 'f4'), ('zred2', 'f4'), ('zred2_e', 'f4'), ('zred_uncorr', 'f4'),
            ('zred_uncorr_e', 'f4'), ('zred_samp', 'f4', nsamp), ('lkhd', 'f4'), ('chisq', 'f4')]


def cic_ref(value, pos, shape, isolated=True):
    """Cloud-in-cell reference.  pos: list of coordinate arrays (x first), shape: (nx, ny, ...).

    Cell i covers [i, i+1) with its node at i+1/2; weight beyond the grid is dropped (isolated) or wrapped.
    Returned array is indexed [..., y, x]."""
    import itertools
    out = np.zeros(tuple(shape)[::-1])
    dim = len(pos)
    for k in range(len(value)):
        lo = [np.floor(pos[d][k] - 0.5) for d in range(dim)]
        fr = [pos[d][k] - 0.5 - lo[d] for d in range(dim)]
        for c in itertools.product((0, 1), repeat=dim):
            w = value[k]
            idx = []
            for d in range(dim):
                w = w*(fr[d] if c[d] else 1 - fr[d])
                i = int(lo[d]) + c[d]
                if i < 0 or i >= shape[d]:
                    if isolated:
                        w = 0.0
                    i %= shape[d]
                idx.append(i)
            if w != 0.0:
                out[tuple(idx[::-1])] += w
    return out


def min_config(nmag, **kw):
    """Required configuration values for synthetic runs."""
    ncol = nmag - 1
    d = dict(outbase='t', calib_color_nodesizes=[.05]*ncol, calib_slope_nodesizes=[.1]*ncol,
             calib_color_maxnodes=[-1.]*ncol, calib_covmat_maxnodes=[-1.]*ncol)
    d.update(kw)
    return d
