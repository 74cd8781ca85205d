"""A small synthetic survey: red sequence, backgrounds, clusters (used by the cluster-level checks)."""
import os
import tempfile
import functools
import types
import numpy as np
import fitsio

from . import world as W

ZR = (0.1, 0.4)
BANDS = 'griz'
REF = 2


@functools.lru_cache(maxsize=None)
def home():
    d = tempfile.mkdtemp(prefix='synth-', dir=os.environ.get('VP_SCRATCH'))
    return d


def write_bkg(fn, amp=3.0, zred=True, limmag=21.0, zero_above=None, nln=20):
    zb = 0.1 + 0.02*np.arange(15)
    nm = int(round((limmag + 1 - 12)/0.2))
    mb, chb, lnb = 12 + 0.2*np.arange(nm), 0.5*np.arange(40), -2 + 0.2*np.arange(nln)
    dt = [('zbins', 'f4', zb.size), ('zrange', 'f4', 2), ('zbinsize', 'f4'), ('chisqbins', 'f4', 40), ('chisqrange', 'f4', 2),
          ('chisqbinsize', 'f4'), ('lnchisqbins', 'f4', lnb.size), ('lnchisqrange', 'f4', 2), ('lnchisqbinsize', 'f4'),
          ('areas', 'f4', nm), ('refmagbins', 'f4', nm), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'),
          ('sigma_g', 'f4', (nm, 40, zb.size)), ('sigma_lng', 'f4', (nm, lnb.size, zb.size))]
    e = np.zeros(1, dtype=dt)
    e['zbins'], e['zrange'], e['zbinsize'], e['chisqbins'], e['chisqrange'], e['chisqbinsize'] = zb, [0.1, 0.3999], 0.02, chb, [0, 20.], 0.5
    e['lnchisqbins'], e['lnchisqrange'], e['lnchisqbinsize'] = lnb, [-2, -2 + 0.2*nln], 0.2
    e['areas'], e['refmagbins'], e['refmagrange'], e['refmagbinsize'] = 100., mb, [12, 12 + 0.2*nm - 0.004], 0.2
    m, c, z = np.meshgrid(mb, chb, zb, indexing='ij')
    t = amp*10**(0.3*(m - 20))*(1 + 0.05*c)*(1 + 2*(z - 0.1))
    e['sigma_g'][0] = t
    m, c, z = np.meshgrid(mb, np.exp(lnb), zb, indexing='ij')
    e['sigma_lng'][0] = amp*10**(0.3*(m - 20))*(1 + 0.05*c)*(1 + 2*(z - 0.1))*c
    fitsio.write(fn, e, extname='CHISQBKG', clobber=True)
    if zred:
        zb = 0.1 + 0.01*np.arange(30)
        dt = [('zredbins', 'f4', zb.size), ('zredrange', 'f4', 2), ('zredbinsize', 'f4'), ('zred_index', 'i2'), ('refmag_index', 'i2'), ('refmagbins', 'f4', nm),
              ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'), ('areas', 'f4', nm), ('sigma_g', 'f4', (nm, zb.size))]
        e = np.zeros(1, dtype=dt)
        e['zredbins'], e['zredrange'], e['zredbinsize'] = zb, [0.1, 0.4], 0.01
        e['refmagbins'], e['refmagrange'], e['refmagbinsize'], e['areas'] = mb, [12, 12 + 0.2*nm - 0.004], 0.2, 100.
        m, z = np.meshgrid(mb, zb, indexing='ij')
        e['sigma_g'][0] = 40*amp*10**(0.3*(m - 20))*(1 + 2*(z - 0.1))
        fitsio.write(fn, e, extname='ZREDBKG')
    return fn


@functools.lru_cache(maxsize=None)
def survey(limmag=21.0, amp=3.0, corr=0.0, seed=1):
    """Red sequence and background objects plus their files."""
    from redmapper.redsequence import RedSequenceColorPar
    from redmapper.background import Background, ZredBackground
    d = home()
    tag = '%g-%g-%g-%d' % (limmag, amp, corr, seed)
    s = types.SimpleNamespace(limmag=limmag, parfile=os.path.join(d, 'par-%s.fit' % tag), bkgfile=os.path.join(d, 'bkg-%s.fit' % tag))
    s.pars = W.nice_pars(3, zrange=ZR, zbinfine=0.001, limmag=limmag, corr=corr, seed=seed)
    W.write_parfile(s.parfile, s.pars)
    write_bkg(s.bkgfile, amp=amp, limmag=limmag)
    s.zredstr = RedSequenceColorPar(s.parfile, fine=True)
    s.bkg = Background(s.bkgfile)
    s.zredbkg = ZredBackground(s.bkgfile)
    return s


@functools.lru_cache(maxsize=None)
def stub_table(limmag):
    """A two-galaxy galaxy table, so that a configuration can be read."""
    d = os.path.join(home(), 'stub-%g' % limmag)
    g = np.zeros(2, dtype=W.gal_dtype(4))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = [1, 2], [10, 50], 0, 18, 0.01, 18, 0.01
    return W.write_galtable(d, 'stub', g, 4, 4, BANDS, 'i', lim_ref=limmag)[0]


def conf(s, **kw):
    """Configuration on survey s (configurations share state: only one at a time)."""
    d = W.min_config(4, galfile=stub_table(s.limmag), refmag='i', zrange=[0.12, 0.38], bkgfile=s.bkgfile, parfile=s.parfile,
                     percolation_lmask=0.1, maskgal_ngals=400, maskgal_nsamples=2, limmag_catalog=s.limmag, printlogging=True)
    d.update(kw)
    d = {k: v for k, v in d.items() if v is not None}
    return W.config('conf.yaml', d)


def mpc_per_deg(cosmo, z):
    return np.radians(1.0)*cosmo.Da(0, max(z, 0.01))


def cluster_gals(rs, s, ra, dec, z, nred, nfield, rmax=1.5, scale=8.0, scatter=1.0, central=True, zerr=0.015, id0=1):
    """Galaxies around a cluster: red members and a field of random colours.  Mpc radii with `scale` Mpc per degree."""
    n = nred + nfield
    g = np.zeros(n, dtype=W.gal_dtype(4, W.zred_dtype(4)))
    mstar = float(s.zredstr.mstar(z))
    g['id'] = id0 + np.arange(n)
    r = np.concatenate([rmax*rs.uniform(size=nred)**1.5*0.7, rmax*np.sqrt(rs.uniform(size=nfield))])
    if central and nred:
        r[0] = 0.0
    ph = rs.uniform(0, 2*np.pi, n)
    g['ra'], g['dec'] = W.offset(ra, dec, r*np.cos(ph)/scale, r*np.sin(ph)/scale)
    ref = mstar + rs.uniform(-1.5, 1.9, n)
    if central and nred:
        ref[0] = mstar - 1.5
        g['ra'][0], g['dec'][0] = ra, dec
    zz = np.full(n, z)
    zz[nred:] = rs.uniform(0.11, 0.39, nfield)
    m = W.red_mags(s.zredstr, zz, ref, REF, rs, scatter)
    m[nred:] += np.where(rs.uniform(size=(nfield, 1)) < 0.5, rs.normal(0, 0.3, (nfield, 4)), 0.0)
    g['mag_err'] = np.clip(0.01*10**(0.25*(m - 18)), 0.005, 0.5)
    m += rs.normal(size=m.shape)*g['mag_err']*0.7
    g['mag'] = m
    g['refmag'], g['refmag_err'] = m[:, REF], g['mag_err'][:, REF]
    g['ebv'] = rs.uniform(0, 0.1, n)
    g['zred'] = zz + rs.normal(size=n)*zerr
    g['zred_e'] = zerr
    g['zred2'], g['zred2_e'], g['zred_uncorr'], g['zred_uncorr_e'] = g['zred'], zerr, g['zred'], zerr
    g['zred_samp'] = g['zred'][:, None] + rs.normal(size=(n, 4))*zerr
    g['chisq'] = rs.chisquare(3, n)
    g['lkhd'] = -g['chisq']/2
    return g


def maskgals(config, fn='maskgals.fit'):
    """Generate a mask-galaxy file for the configuration."""
    from redmapper.mask import Mask
    Mask(config, include_maskgals=False).gen_maskgals(fn)
    return os.path.abspath(fn)


def hs_mask(fn, nside, fracs, nside_cov=32):
    """healsparse geometry mask from {nest pixel: fracgood}."""
    import healsparse
    m = healsparse.HealSparseMap.make_empty(nside_cov, nside, np.float32)
    pix = np.array(sorted(fracs), dtype='i8')
    m.update_values_pix(pix, np.array([fracs[p] for p in pix], dtype='f4'))
    m.write(fn, clobber=True)
    return fn


DEPTH_DT = [('exptime', 'f4'), ('limmag', 'f4'), ('m50', 'f4'), ('fracgood', 'f4')]


def hs_depth(fn, nside, pix, vals, nside_cov=32, nsig=10.0, zp=22.5, w=0.0, eff=1.0, nband=1):
    """healsparse depth map; vals: structured array of DEPTH_DT."""
    import healsparse
    m = healsparse.HealSparseMap.make_empty(nside_cov, nside, DEPTH_DT, primary='fracgood')
    m.update_values_pix(np.asarray(pix, dtype='i8'), np.asarray(vals, dtype=DEPTH_DT))
    hdr = fitsio.FITSHDR()
    for k, v in (('NSIG', nsig), ('ZP', zp), ('NBAND', nband), ('W', w), ('EFF', eff)):
        hdr[k] = v
    m.metadata = hdr
    m.write(fn, clobber=True)
    return fn


def sky(rs, s, cosmo, ra0, dec0, specs, nfield=150, extent=2.5):
    """Galaxies of several clusters.  specs: list of (dx, dy in Mpc, z, nred).  Returns galaxies, list of row arrays of the red galaxies."""
    out, rows, n = [], [], 0
    for dx, dy, z, nred in specs:
        sc = mpc_per_deg(cosmo, z)
        ra, dec = W.offset(ra0, dec0, dx/sc, dy/sc)
        g = cluster_gals(rs, s, float(ra), float(dec), z, nred, 0, scale=sc, id0=1 + n)
        rows.append(n + np.arange(nred))
        n += nred
        out.append(g)
    z = specs[0][2]
    out.append(cluster_gals(rs, s, ra0, dec0, z, 0, nfield, rmax=extent, scale=mpc_per_deg(cosmo, z), id0=1 + n, central=False))
    # one galaxy far away: a table of a single pixel cannot be read (known finding of C08)
    n += nfield
    out.append(cluster_gals(rs, s, (ra0 + 100.) % 360., -20., z, 0, 1, id0=1 + n, central=False))
    g = np.concatenate(out)
    g['ra'] %= 360.
    return g, rows


def write_sky(g, s, nside=8, path='gals'):
    """Galaxy and redshift tables of the sky; returns (galfile, zredfile)."""
    zd = np.zeros(g.size, dtype=W.zred_dtype(4))
    for k in zd.dtype.names:
        zd[k] = g[k]
    gg = np.zeros(g.size, dtype=W.gal_dtype(4))
    for k in gg.dtype.names:
        gg[k] = g[k]
    return W.write_galtable(path, 'sky', gg, nside, 4, BANDS, 'i', lim_ref=s.limmag, zreds=zd)[:2]


def seed_cat(fn, g, rows, z, lam, lnlike, ids=None):
    """Seed (likelihood) catalogue at galaxies `rows`."""
    c = np.zeros(len(rows), dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('refmag', 'f4'), ('refmag_err', 'f4'), ('mag', 'f4', 4),
                                   ('mag_err', 'f4', 4), ('lambda', 'f4'), ('lnlike', 'f4'), ('scaleval', 'f4')])
    for k in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err'):
        c[k] = g[k][rows]
    c['z'], c['lambda'], c['lnlike'], c['scaleval'] = z, lam, lnlike, 1.0
    if ids is not None:
        c['mem_match_id'] = ids
    fitsio.write(fn, c, clobber=True)
    return c


WCEN = dict(wcen_Delta0=-1.2, wcen_Delta1=-0.2, wcen_sigma_m=0.4, wcen_pivot=30.0, lnw_cen_mean=-0.1, lnw_cen_sigma=0.4, lnw_sat_mean=-0.4, lnw_sat_sigma=0.5,
            lnw_fg_mean=-0.6, lnw_fg_sigma=0.6)
