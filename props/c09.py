"""C09: reading sub-regions of galaxy tables."""
import os
import tempfile
import numpy as np
import fitsio
import hpgeom as hpg
import hpgeom.healpy_compat as hpc
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W
from redmapper.galaxy import GalaxyCatalog

ASSUMPTIONS = ['tables have at least two pixels, requests at least one galaxy',
               'border widths up to the table pixel size; rows beyond border+0.3 degrees count as outside']
TRUTH = [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]


def make(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    extra = (TRUTH if case['truth'] else []) + ([('zspec', 'f4'), ('zspec_err', 'f4')] if case['zspec'] else [])
    g = np.zeros(n, dtype=W.gal_dtype(3, extra))
    g['id'] = rs.permutation(n) + 1
    c = case['center']
    ra0, dec0 = {'eq': (140., 2.), 'wrap': (0.5, -20.), 'north': (77., 86.), 'south': (200., -88.), 'mid': (300., 43.)}[c]
    r = case['spread']*np.sqrt(rs.uniform(size=n))
    ph = rs.uniform(0, 2*np.pi, n)
    g['ra'], g['dec'] = W.offset(ra0, dec0, r*np.cos(ph), r*np.sin(ph))
    for c in g.dtype.names:
        if c not in ('id', 'ra', 'dec'):
            g[c] = rs.uniform(14, 22, g[c].shape).astype(g[c].dtype)
    zd = np.zeros(n, dtype=W.zred_dtype(2))
    for c in zd.dtype.names:
        zd[c] = rs.uniform(0, 30, zd[c].shape)
    zd['zred2'] = g['id']
    return rs, g, zd


def check(case):
    rs, g, zd = make(case)
    n = g.size
    nt = case['nt']
    pix = hpg.angle_to_pixel(nt, g['ra'], g['dec'], nest=False)
    up = np.unique(pix)
    if up.size < 2:
        return False
    drop = list(up[rs.uniform(size=up.size) < 0.3]) if case['drop'] else []
    gf, zf, order = W.write_galtable('tab', 'gal', g, nt, 3, 'gri', 'i', zreds=zd, zpath='zt', has_truth=case['truth'],
                                     has_zspec=case['zspec'], drop_zred_pix=drop)
    usez = case['usez']
    nr = min(max(case['nr'], 4 if case['region'] == 'border' else 1), nt)
    if case['region'] == 'all':
        kw = dict()
        inside = np.ones(n, dtype=bool)
        must = may = inside
    else:
        big = hpg.angle_to_pixel(nr, g['ra'], g['dec'], nest=False)
        k = rs.randint(n)
        if case['region'] == 'list':
            hp = [int(x) for x in rs.permutation(np.unique(big))[:rs.randint(1, 4)]]
            kw = dict(nside=nr, hpix=hp if case['aslist'] else np.array(hp))
            must = may = np.isin(big, hp)
        else:
            hp = int(big[k])
            border = case['border'] if case['region'] == 'border' else 0.0
            border = min(border, 58.0/nt, 2.0)
            kw = dict(nside=nr, hpix=[hp] if case['aslist'] else hp, border=border)
            must = may = big == hp
            if border > 0:
                b = hpc.boundaries(nr, hp, step=max(4, 800//nr))
                bra, bdec = np.degrees(np.arctan2(b[1], b[0])) % 360, np.degrees(np.arcsin(np.clip(b[2], -1, 1)))
                d = np.array([W.sep(g['ra'][i], g['dec'][i], bra, bdec).min() for i in range(n)])
                must = (big == hp) | (d < border*0.999)
                may = (big == hp) | (d < border + 0.3)
    if usez:
        ok = ~np.isin(pix, drop)
        must, may = must & ok, may & ok
    if must.sum() == 0:
        return False
    tf = dict(use_tempfile=True) if case['tmp'] else {}
    keep = np.ones(n, dtype=bool)
    if case['tmp'] and case['cuts']:
        tf['refmag_range'] = [15.0, 20.5]
        keep &= (g['refmag'] > 15.0) & (g['refmag'] < 20.5)
        tf['chisq_max'] = 20.0
        if usez:
            keep &= zd['chisq'] < 20.0
    must, may = must & keep, may & keep
    call = dict(kw, **tf)
    if usez:
        call['zredfile'] = zf
    os.mkdir('scratch')
    old, tempfile.tempdir = tempfile.tempdir, os.path.abspath('scratch')
    here = set(os.listdir('.'))
    try:
        cat = GalaxyCatalog.from_galfile(gf, **call)
    finally:
        tempfile.tempdir = old
    require(not os.listdir('scratch') and set(os.listdir('.')) == here, 'temporary files left behind')
    ids = np.atleast_1d(cat.id)
    require(np.unique(ids).size == ids.size, 'a galaxy is returned twice')
    row = np.zeros(n + 1, dtype=int)
    row[g['id']] = np.arange(n)
    r = row[ids]
    got = np.zeros(n, dtype=bool)
    got[r] = True
    require(not np.any(must & ~got), '%d requested galaxies are missing (%s)', np.sum(must & ~got), kw)
    require(not np.any(got & ~may), '%d galaxies outside the request returned (%s)', np.sum(got & ~may), kw)
    for c in g.dtype.names:
        if c in [x[0] for x in TRUTH]:
            require(c not in cat.dtype.names, 'truth column %s returned without being requested', c)
        else:
            require(np.array_equal(getattr(cat, c), g[c][r]), 'column %s belongs to other galaxies', c)
    for c in zd.dtype.names:
        require((c in cat.dtype.names) == bool(usez), 'redshift columns')
        if usez:
            require(np.array_equal(getattr(cat, c), zd[c][r]), 'redshift column %s belongs to other galaxies', c)
    # truth on request
    try:
        t = GalaxyCatalog.from_galfile(gf, truth=True, **call)
        require(case['truth'], 'truth reported for a table without truth')
        require(np.array_equal(np.sort(t.id), np.sort(ids)), 'asking for truth changes the galaxies')
        for c, _ in TRUTH:
            require(np.array_equal(getattr(t, c), g[c][row[t.id]]), 'truth column %s', c)
    except RuntimeError:
        require(not case['truth'], 'truth refused')
    try:
        t = GalaxyCatalog.from_galfile(gf, zspec=True, **call)
        require(case['zspec'], 'spectra reported for a table without spectra')
        require(np.array_equal(t.zspec, g['zspec'][row[t.id]]), 'zspec column')
    except RuntimeError:
        require(not case['zspec'], 'zspec refused')
    return '%s%s%s' % (case['region'], '-zred' if usez else '', '-temp' if case['tmp'] else '')


def bad(f, exc, what):
    try:
        f()
    except exc:
        return
    raise Violation('%s accepted' % what)


def check_misc(case):
    rs, g, zd = make(dict(case, truth=False, zspec=False))
    nt = case['nt']
    fitsio.write('flat.fit', g, header=dict(PIXELS=0, FITS=1), clobber=True)
    fitsio.write('zflat.fit', zd, clobber=True)
    c = GalaxyCatalog.from_galfile('flat.fit', zredfile='zflat.fit')
    require(np.array_equal(c.id, g['id']) and np.array_equal(c.zred, zd['zred']) and np.array_equal(c.mag, g['mag']), 'single-file catalogue')
    fitsio.write('zbad.fit', zd[:-1], clobber=True)
    bad(lambda: GalaxyCatalog.from_galfile('flat.fit', zredfile='zbad.fit'), ValueError, 'redshift file of another length')
    if np.unique(hpg.angle_to_pixel(nt, g['ra'], g['dec'], nest=False)).size < 2:
        return False
    gf, zf, _ = W.write_galtable('tab', 'gal', g, nt, 3, 'gri', 'i', zreds=zd)
    bad(lambda: GalaxyCatalog.from_galfile(gf, zredfile='zflat.fit'), ValueError, 'unpixelised redshifts for a pixelised table')
    nr = min(case['nr'], nt)
    hp = int(hpg.angle_to_pixel(nr, g['ra'][0], g['dec'][0], nest=False))
    bad(lambda: GalaxyCatalog.from_galfile(gf, nside=nt*2, hpix=hp), ValueError, 'resolution beyond the table')
    bad(lambda: GalaxyCatalog.from_galfile(gf, nside=nr, hpix=12*nr*nr + rs.randint(5)), ValueError, 'pixel out of range')
    bad(lambda: GalaxyCatalog.from_galfile(gf, nside=nr, hpix=[hp, -1 - rs.randint(5)]), ValueError, 'negative pixel')
    bad(lambda: GalaxyCatalog.from_galfile(gf, nside=nr, hpix=hp, border=-0.1), ValueError, 'negative border')
    bad(lambda: GalaxyCatalog.from_galfile(gf, nside=nr, hpix=[hp, (hp + 1) % (12*nr*nr)], border=0.5), NotImplementedError, 'border around a list')
    bad(lambda: GalaxyCatalog.from_galfile('tab/nothere_master_table.fit'), OSError, 'missing table')
    h = fitsio.read(gf, ext=1)
    fitsio.write('tab/old.fit', h, header=dict(PIXELS=1, FITS=0), clobber=True)
    bad(lambda: GalaxyCatalog.from_galfile('tab/old.fit'), ValueError, 'table of another format')
    return True


base = dict(seed=st.integers(0, 2**31 - 1), n=st.integers(2, 80), nt=st.sampled_from([4, 8, 16, 32]), nr=st.sampled_from([2, 4, 8, 16, 32]),
            center=st.sampled_from(['eq', 'wrap', 'north', 'south', 'mid']), spread=st.sampled_from([3.0, 10.0, 30.0]))
s1 = st.fixed_dictionaries(dict(base, region=st.sampled_from(['all', 'list', 'one', 'border', 'border']),
                                border=st.sampled_from([0.1, 0.5, 1.0, 2.0]), truth=st.booleans(), zspec=st.booleans(), usez=st.booleans(), drop=st.booleans(),
                                tmp=st.booleans(), cuts=st.booleans(), aslist=st.booleans()))
s2 = st.fixed_dictionaries(base)
TESTS = ([T('region-%d' % i, s1, check, 120, 3000, 'request with at least one galaxy; label: kind of request') for i in range(7)] +
         [T('misc', s2, check_misc, 120, 3000, 'single-file and invalid requests')])
