"""C24: random points."""
import glob
import os
import numpy as np
import fitsio
import hpgeom as hpg
import healsparse
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from redmapper.catalog import Catalog
from redmapper.cluster import ClusterCatalog
from redmapper.galaxy import GalaxyCatalog
from redmapper.volumelimit import VolumeLimitMask
from redmapper.randoms import GenerateRandoms, RandomCatalog, RandomCatalogMaker, RandomWeigher
from redmapper.redmagic import RedmagicGenerateRandoms

ASSUMPTIONS = ['every catalogue redshift is below the limit of some part of the footprint (otherwise generation cannot end)',
               'redshift ranges of weighted randoms differ by 0.03 or more, richness cuts by 1 or more (they are rounded in file names)',
               'footprints away from RA=0 (healsparse.make_uniform_randoms drops area there)']
CENTERS = [(40., 0.), (120., 41.8), (200., -60.), (300., 30.), (150., 70.)]


def vmap(rs, case):
    """Volume-limit map: {nest pixel: (fracgood, zmax)} around a centre."""
    ns = case['nside']
    ra0, dec0 = CENTERS[case['center']]
    p0 = hpg.angle_to_pixel(ns, ra0, dec0)
    w = 58.6/ns*case['spread']
    ra, dec = W.offset(ra0, dec0, rs.uniform(-w, w, case['npix']), rs.uniform(-w, w, case['npix']))
    pix = np.unique(np.append(hpg.angle_to_pixel(ns, ra, dec), p0))
    val = np.zeros(pix.size, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
    val['fracgood'] = {'full': 1.0, 'low': rs.uniform(0.02, 0.06, pix.size), 'mix': rs.choice([0.05, 0.3, 0.7, 1.0], pix.size)}[case['frac']]
    val['zmax'] = {'flat': 0.36, 'vary': rs.uniform(0.15, 0.37, pix.size), 'two': rs.choice([0.18, 0.35], pix.size)}[case['depth']]
    return pix, val


def write_map(fn, ns, pix, val):
    m = healsparse.HealSparseMap.make_empty(ns//2, ns, dtype=val.dtype, primary='fracgood')
    m.update_values_pix(pix, val)
    m.write(fn, clobber=True)


def position_test(what, ns, pix, val, ra, dec, z):
    """Points are in the footprint, below the limit, and as frequent as the usable area."""
    p = hpg.angle_to_pixel(ns, ra, dec)
    ind = np.clip(np.searchsorted(pix, p), 0, pix.size - 1)
    require(np.all(pix[ind] == p), '%s: a point at (%.5f, %.5f) is outside the footprint', what, *[float(x[np.argmax(pix[ind] != p)]) for x in (ra, dec)])
    bad = z >= val['zmax'][ind]
    require(not bad.any(), '%s: %d of %d points are beyond the redshift limit at their position (%.4f >= %.4f)', what, bad.sum(), z.size,
            z[np.argmax(bad)], val['zmax'][ind][np.argmax(bad)])
    uz, n = np.unique(z, return_counts=True)
    exp = np.zeros(pix.size)
    for a, b in zip(uz, n):
        q = val['fracgood']*(val['zmax'] > a)
        exp += b*q/q.sum()
    obs = np.bincount(ind, minlength=pix.size)
    ok = exp > 4
    if ok.sum() > 1:
        chi = np.sum((obs - exp)[ok]**2/exp[ok])
        require(chi < ok.sum() + 9*np.sqrt(2*ok.sum()) + 25, '%s: points do not follow the usable area (chi2 %.1f for %d pixels)', what, chi, ok.sum())


def choose_z(rs, case, val, n):
    """Catalogue redshifts, each below the limit somewhere, with a reasonable chance."""
    zz = np.sort(val['zmax'])
    good = val['fracgood'].astype('f8')
    out = []
    while len(out) < n:
        z = np.float32(rs.uniform(0.13, zz[-1]) if case['depth'] != 'two' else rs.choice([rs.uniform(0.13, 0.17), min(0.34, zz[-1]*0.99)]))
        if good[val['zmax'] > z].sum() > 0.15*good.sum():
            out.append(z)
    return np.array(out, dtype='f4')


def even(what, ids, allids):
    """Every catalogue object is used about equally often."""
    n = np.array([np.sum(ids == i) for i in allids])
    e = ids.size/len(allids)
    if e < 5 or len(allids) < 2:
        return
    chi = np.sum((n - e)**2/e)
    require(chi < len(allids) + 9*np.sqrt(2*len(allids)) + 25, '%s: catalogue objects are not used evenly (chi2 %.1f for %d)', what, chi, len(allids))


def read_points(fn):
    """Rows of a table of random points, read from its files and through the class (except tables of one pixel: finding of C08)."""
    fs = [f for f in glob.glob(os.path.join(os.path.dirname(fn), '*.fit')) if os.path.basename(f) != os.path.basename(fn)]
    require(len(fs) > 0 and os.path.isfile(fn), 'no table of points written')
    rows = np.concatenate([fitsio.read(f, ext=1, lower=True) for f in fs])
    if len(fs) > 1:
        r = RandomCatalog.from_randfile(fn)
        require(r.size == rows.size and np.array_equal(np.sort(r.id), np.sort(rows['id'])), 'points read from the table are not those of its files')
        o, o2 = np.argsort(r.id), np.argsort(rows['id'])
        for k, a in (('ra', 'ra'), ('dec', 'dec'), ('z', 'z'), ('lambda', 'Lambda'), ('id_input', 'id_input')):
            require(np.array_equal(getattr(r, a)[o], rows[k][o2]), 'column %s read from the table is not that of its files', k)
    return rows


def check_cluster(case):
    rs = np.random.RandomState(case['seed'])
    pix, val = vmap(rs, case)
    s = S.survey()
    conf = S.conf(s, outpath='out', randfile='rands/t_random_master_table.fit', vlim_lstar=case['lstar'], galfile_nside=case['table_nside'],
                  catfile='cat.fit', area=100.0)
    os.makedirs('out', exist_ok=True)
    write_map(conf.redmapper_filename('vl%02d_vlim_zmask' % int(case['lstar']*10), withversion=True), case['nside'], pix, val)
    nc = case['ncat']
    c = np.zeros(nc, dtype=[('mem_match_id', 'i4'), ('z_lambda', 'f4'), ('lambda', 'f4'), ('ra', 'f8'), ('dec', 'f8')])
    c['mem_match_id'] = rs.permutation(nc*3)[:nc] + 1
    c['z_lambda'] = choose_z(rs, case, val, nc)
    c['lambda'] = rs.uniform(5, 100, nc)
    fitsio.write('cat.fit', c, clobber=True)
    res = []
    for rep in range(2 if case['twice'] else 1):
        conf.randfile = 'rands%d/t_random_master_table.fit' % rep
        kw = {}
        if case['objects']:
            kw = dict(vlim_mask=VolumeLimitMask(conf, case['lstar']), redmapper_cat=ClusterCatalog.from_fits_file('cat.fit'))
        GenerateRandoms(conf, **kw).generate_randoms(case['n'], rng=np.random.RandomState(case['rng']))
        r = read_points(conf.randfile)
        require(r.size == case['n'], '%d points, asked for %d', r.size, case['n'])
        ids = r['id']
        require(sorted(ids.tolist()) == list(range(1, case['n'] + 1)), 'identifiers of the points are not 1..n')
        o = np.argsort(ids)
        rec = [r[k][o] for k in ('ra', 'dec', 'z', 'lambda', 'id_input')]
        res.append(rec)
        look = {int(i): (z, l) for i, z, l in zip(c['mem_match_id'], c['z_lambda'], c['lambda'])}
        for z, l, i in zip(*rec[2:]):
            require(int(i) in look, 'point made for cluster %d, which is not in the catalogue', i)
            require((z, l) == look[int(i)], 'point of cluster %d has redshift %g richness %g, not those of the cluster %s', i, z, l, look[int(i)])
        position_test('random points', case['nside'], pix, val, rec[0], rec[1], rec[2])
        if case['frac'] != 'low':
            even('random points', rec[4], c['mem_match_id'].tolist())
    if len(res) > 1:
        require(all(np.array_equal(a, b) for a, b in zip(*res)), 'the same seed gave different points')
    return '%s/%s' % (case['frac'], case['depth']) if case['n'] > 1 else False


def check_redmagic(case):
    rs = np.random.RandomState(case['seed'])
    pix, val = vmap(rs, case)
    s = S.survey()
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, outpath='out', area=100.0)
    write_map('zmask.hs', case['nside'], pix, val)
    nc = case['ncat']
    g = np.zeros(nc, dtype=[('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('zredmagic', 'f4')])
    g['zredmagic'] = choose_z(rs, case, val, nc)
    fitsio.write('rm.fit', g, clobber=True)
    if case['objects']:
        gen = RedmagicGenerateRandoms(conf, VolumeLimitMask(conf, 0.2, vlimfile='zmask.hs'), GalaxyCatalog.from_fits_file('rm.fit'))
    else:
        gen = RedmagicGenerateRandoms(conf, 'zmask.hs', 'rm.fit')
    gen.generate_randoms(case['n'], 'r0.fit', rng=np.random.RandomState(case['rng']))
    r = fitsio.read('r0.fit', ext=1, lower=True)
    require(r.size == case['n'], '%d points, asked for %d', r.size, case['n'])
    require(np.all(np.isin(r['z'], g['zredmagic'])), 'a point has a redshift that no galaxy has')
    require(np.all(r['weight'] == 1.0), 'weights are %g to %g, not one', r['weight'].min(), r['weight'].max())
    position_test('redMaGiC randoms', case['nside'], pix, val, r['ra'], r['dec'], r['z'])
    if case['frac'] != 'low' and len(set(g['zredmagic'].tolist())) == nc:
        even('redMaGiC randoms', r['z'], g['zredmagic'].tolist())
    before = open('r0.fit', 'rb').read()
    try:
        gen.generate_randoms(5, 'r0.fit', rng=np.random.RandomState(1))
    except RuntimeError:
        pass
    else:
        require(False, 'existing randoms were replaced although that was not asked for')
    require(open('r0.fit', 'rb').read() == before, 'existing randoms were changed although that was not asked for')
    gen.generate_randoms(case['n'], 'r0.fit', clobber=True, rng=np.random.RandomState(case['rng']))
    again = fitsio.read('r0.fit', ext=1, lower=True)
    require(np.array_equal(again, r), 'the same seed gave different points')
    return '%s/%s' % (case['frac'], case['depth']) if case['n'] > 1 else False


def check_split(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    r = np.zeros(n, dtype=[('id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda', 'f4'), ('id_input', 'i4')])
    ra0, dec0 = CENTERS[case['center']]
    r['id'] = rs.permutation(n) + 1
    r['ra'], r['dec'] = W.offset(ra0, dec0, rs.uniform(-8, 8, n), rs.uniform(-8, 8, n))
    r['z'], r['lambda'], r['id_input'] = rs.uniform(0.1, 0.4, n), rs.uniform(5, 100, n), rs.randint(1, 20, n)
    mk = RandomCatalogMaker('d/s', {}, nside=case['table_nside'])
    mk.split_randoms(r)
    fn = 'd/s_master_table.fit'
    got = read_points(fn)
    require(got.size == n, '%d of %d points read back', got.size, n)
    o, oe = np.argsort(got['id']), np.argsort(r['id'])
    for k in r.dtype.names:
        require(np.array_equal(got[k][o], r[k][oe]), 'column %s of split points changed', k)
    hp = hpg.angle_to_pixel(8, r['ra'], r['dec'], nest=False)
    p = int(hp[0])
    if len(glob.glob('d/*.fit')) > 2:
        sub = RandomCatalog.from_randfile(fn, nside=8, hpix=p)
        require(sorted(np.atleast_1d(sub.id).tolist()) == sorted(r['id'][hp == p].tolist()), 'points of pixel %d: %d read, %d expected', p, sub.size, np.sum(hp == p))
    for what in (lambda: mk.split_randoms(r), lambda: RandomCatalogMaker('d/s', {}, nside=case['table_nside']).split_randoms(r)):
        try:
            what()
        except RuntimeError:
            pass
        else:
            require(False, 'points were added to a finished table')
    return n > 1


def check_weights(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, outpath='out', area=100.0, max_maskfrac=case['maxmask'], select_scaleval=case['scaled'], catfile='cat.fit', vlim_lstar=0.2,
                  area_coarsebin=0.02)
    pix, val = vmap(rs, dict(nside=64, center=0, spread=3, npix=30, frac='mix', depth='vary'))
    write_map(conf.redmapper_filename('vl02_vlim_zmask', withversion=True), 64, pix, val)
    nc, n = case['ncat'], case['n']
    c = np.zeros(nc, dtype=[('mem_match_id', 'i4'), ('z_lambda', 'f4'), ('lambda', 'f4'), ('scaleval', 'f4')])
    c['mem_match_id'] = rs.permutation(nc*3)[:nc] + 1
    c['z_lambda'], c['lambda'], c['scaleval'] = rs.uniform(0.13, 0.37, nc), rs.uniform(5, 60, nc), rs.uniform(1.0, 2.0, nc)
    if case['onbin']:
        c['lambda'][rs.uniform(size=nc) < 0.3] = 40.0
    fitsio.write('cat.fit', c, clobber=True)
    r = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('lambda_in', 'f4'), ('id_input', 'i4'), ('maskfrac', 'f4'), ('scaleval', 'f4')])
    k = rs.randint(0, nc, n)
    r['ra'], r['dec'] = rs.uniform(0, 360, n), rs.uniform(-80, 80, n)
    r['z'], r['lambda_in'], r['id_input'] = c['z_lambda'][k], c['lambda'][k], c['mem_match_id'][k]
    r['maskfrac'] = rs.choice([0.0, 0.1, 0.3, 0.6], n) if not case['allpass'] else 0.0
    r['scaleval'] = rs.uniform(1.0, 2.5, n) if not case['allpass'] else 1.0
    if case['allpass']:
        c['scaleval'] = 1.0
        fitsio.write('cat.fit', c, clobber=True)
    fitsio.write('rc.fit', r, clobber=True)
    plain = VolumeLimitMask(conf, 0.2).get_areas()
    wr = RandomWeigher(conf, 'rc.fit')
    written = {}
    lab = 'none'
    for minlam, zr, lb in case['calls']:
        zlo, zhi = zr if zr is not None else conf.zrange
        l0, l1 = lb if lb is not None else (0.0, 1000.0)
        kk = np.array([np.flatnonzero(c['mem_match_id'] == i)[0] for i in r['id_input']])
        inz = (r['z'] > zlo) & (r['z'] < zhi)
        cl = c['lambda']/c['scaleval'] if case['scaled'] else c['lambda']
        used = inz & (cl[kk] > minlam) & (c['lambda'][kk] > l0) & (c['lambda'][kk] <= l1)
        rl = r['lambda_in']/r['scaleval'] if case['scaled'] else r['lambda_in']
        good = used & (rl > minlam) & (r['maskfrac'] < case['maxmask'])
        args = dict(zrange=None if zr is None else np.array(zr), lambdabin=None if lb is None else np.array(lb))
        if not good.any():
            continue
        rf, af = wr.weight_randoms(minlam, **args)
        lab = 'some'
        exp = np.zeros(n)
        for i in np.unique(r['id_input'][used]):
            u, g = used & (r['id_input'] == i), good & (r['id_input'] == i)
            if g.any():
                exp[g] = u.sum()/g.sum()
        written[rf] = (exp, good)
        a = fitsio.read(af, ext=1, lower=True)
        require(np.array_equal(a['z'], plain.z), 'area table has other redshifts')
        require(np.all(a['area'] >= 0) and np.all(a['area'] <= plain.area*(1 + 1e-5) + 1e-6), 'effective area %g to %g outside 0 to the full area', a['area'].min(), a['area'].max())
        if good.sum() == used.sum() and (r['z'][used] < conf.zrange[0] + 0.02).any():
            require(np.allclose(a['area'], plain.area, rtol=1e-4, atol=1e-6), 'all points are good, but the area is reduced (%g)', np.abs(a['area'] - plain.area).max())
            lab = 'allgood'
        for rf, (exp, good) in written.items():
            w = fitsio.read(rf, ext=1, lower=True)
            require(w.size == good.sum(), '%s: %d points, expected %d', rf, w.size, good.sum())
            o, oe = np.argsort(w['ra']), np.flatnonzero(good)[np.argsort(r['ra'][good])]
            for a1, b1 in (('ra', 'ra'), ('dec', 'dec'), ('ztrue', 'z'), ('lambda_in', 'lambda_in')):
                require(np.array_equal(w[a1][o], r[b1][oe]), '%s: column %s is not that of the points kept', rf, a1)
            require(np.allclose(w['weight'][o], exp[oe], rtol=1e-5), '%s: weight %s, expected %s', rf, w['weight'][o][:5], exp[oe][:5])
    if case['remask'] and lab != 'none':
        minlam, zr, lb = case['calls'][0]
        conf.max_maskfrac = 0.05
        g2 = written_first = None
        try:
            rf, af = wr.weight_randoms(minlam, zrange=None if zr is None else np.array(zr), lambdabin=None if lb is None else np.array(lb))
        except RuntimeError:
            return lab
        w = fitsio.read(rf, ext=1, lower=True)
        mf = {float(x): m for x, m in zip(r['ra'], r['maskfrac'])}
        require(all(mf[float(x)] < 0.05 for x in w['ra']), 'weighted randoms from an earlier mask cut are still there')
    return lab if lab != 'none' else False


mapcase = dict(seed=st.integers(0, 2**20), center=st.integers(0, 4), nside=st.sampled_from([32, 64, 256]), spread=st.sampled_from([1, 3, 6]), npix=st.sampled_from([1, 5, 40]),
               frac=st.sampled_from(['full', 'low', 'mix', 'mix']), depth=st.sampled_from(['flat', 'vary', 'vary', 'two']), ncat=st.sampled_from([1, 2, 10, 60]),
               n=st.sampled_from([1500, 400, 37, 2, 1]), rng=st.integers(0, 99), objects=st.booleans())
cluster = st.fixed_dictionaries(dict(mapcase, lstar=st.sampled_from([0.2, 5.0]), table_nside=st.sampled_from([8, 32]), twice=st.booleans()))
redmagic = st.fixed_dictionaries(mapcase)
spl = st.fixed_dictionaries(dict(seed=st.integers(0, 2**20), n=st.sampled_from([1, 2, 50, 300]), center=st.integers(0, 4), table_nside=st.sampled_from([8, 16])))
call = st.tuples(st.sampled_from([5.0, 20.0, 30.0]), st.sampled_from([None, [0.2, 0.3], [0.15, 0.25], [0.2, 0.37]]), st.sampled_from([None, [20.0, 40.0], [5.0, 30.0], [40.0, 60.0]]))
weights = st.fixed_dictionaries(dict(seed=st.integers(0, 2**20), ncat=st.sampled_from([1, 4, 30]), n=st.sampled_from([200, 10, 1]), maxmask=st.sampled_from([0.05, 0.2, 0.9]),
                                     scaled=st.booleans(), onbin=st.booleans(), allpass=st.sampled_from([False, False, True]), remask=st.booleans(),
                                     calls=st.lists(call, min_size=1, max_size=4)))

TESTS = [T('cluster-%d' % i, cluster, check_cluster, 120, 3000, 'more than one point') for i in range(2)] + \
        [T('redmagic', redmagic, check_redmagic, 150, 4000, 'more than one point'),
         T('split', spl, check_split, 150, 1000, 'more than one point'),
         T('weights-0', weights, check_weights, 120, 2000, 'some points kept'), T('weights-1', weights, check_weights, 120, 2000, 'some points kept')]
