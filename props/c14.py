"""C14: depth maps."""
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W, synth as S
from props.c12 import CENTERS, positions
from redmapper.depthmap import DepthMap, convert_depthfile_to_healsparse
from redmapper.catalog import Catalog

ASSUMPTIONS = ['maps with at least two pixels', 'sub-region answers are compared for positions inside the region or its border',
               'mask points closer than 1e-4 degrees to a pixel edge are not compared']
NULL = hpg.UNSEEN


def build(case, rs, fn='d.hsp', w=0.0, uniform=False):
    ns, k = case['nside'], case['npix']
    ra0, dec0 = CENTERS[case['center']]
    step = 58.6/ns
    ras, decs = W.offset(ra0, dec0, step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k), step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k))
    pix = np.unique(hpg.angle_to_pixel(ns, ras, decs, nest=True))
    if pix.size < 2:
        pix = np.array([pix[0], pix[0] ^ 1])
        pix.sort()
    v = np.zeros(pix.size, dtype=S.DEPTH_DT)
    v['limmag'] = rs.uniform(19., 22., pix.size)
    v['m50'] = rs.uniform(19., 22., pix.size)
    if case.get('nom50'):
        v['m50'][rs.uniform(size=pix.size) < 0.3] = 0.0
    v['exptime'] = rs.uniform(10., 500., pix.size)
    v['fracgood'] = 0.75 if uniform else rs.choice([1.0, 0.25, 0.5, 0.75], pix.size)
    S.hs_depth(fn, ns, pix, v, nside_cov=case['cov'], nsig=case['nsig'], zp=case['zp'], w=w)
    return pix, v, step


def ref_at(ns, pix, v, ra, dec):
    p = hpg.angle_to_pixel(ns, ra, np.clip(dec, -90, 90), nest=True)
    i = np.clip(np.searchsorted(pix, p), 0, pix.size - 1)
    ok = (pix[i] == p) & (np.abs(dec) <= 90)
    out = v[i].copy()
    for k in ('limmag', 'exptime', 'm50'):
        out[k][~ok] = NULL
    out['fracgood'][~ok] = 0.0
    return out, ok


def compare(d, ra, dec, out, ok, what):
    lim, ex, m50 = d.get_depth_values(ra, dec)
    for nm, got in (('limmag', lim), ('exptime', ex), ('m50', m50)):
        require(np.shape(got) == ra.shape, '%s: shape of %s', what, nm)
        j = np.flatnonzero(np.abs(np.asarray(got)[ok] - out[nm][ok]) > 1e-5*np.abs(out[nm][ok]))
        require(j.size == 0, '%s: %s at %d positions differs from the map', what, nm, j.size)
        require(np.all(np.asarray(got)[~ok] < -1e29), '%s: %s outside the map is not the null value', what, nm)
    fg = np.asarray(d.get_fracgoods(ra, dec))
    require(np.array_equal(fg[ok], out['fracgood'][ok]), '%s: good fraction differs from the map', what)
    require(np.all(fg[~ok] <= 0), '%s: positive good fraction outside the map', what)


def check(case):
    rs = np.random.RandomState(case['seed'])
    pix, v, step = build(case, rs)
    ns = case['nside']
    s = S.survey()
    d = DepthMap(S.conf(s, depthfile='d.hsp'))
    require(abs(d.nsig - case['nsig']) < 1e-6 and abs(d.zp - case['zp']) < 1e-6 and d.nside == ns, 'map information')
    ra, dec = positions(rs, case, step, 500)
    bad = rs.uniform(size=ra.size) < 0.03
    dec[bad] = rs.choice([90.5, -91.0, 200.], bad.sum())
    out, ok = ref_at(ns, pix, v, ra, dec)
    compare(d, ra, dec, out, ok, 'map')
    perm = rs.permutation(ra.size)
    compare(d, ra[perm], dec[perm], out[perm], ok[perm], 'reordered')
    compare(d, ra[:1], dec[:1], out[:1], ok[:1], 'one position')
    for f in (d.get_depth_values, d.get_fracgoods):
        try:
            f(ra, dec[:-1])
            raise Violation('different lengths accepted')
        except ValueError:
            pass
    ins = np.flatnonzero(ok)
    if ins.size == 0:
        return False
    nr = case['nr']
    big = hpg.angle_to_pixel(nr, ra, np.clip(dec, -90, 90), nest=False)
    hp = int(big[ins[0]])
    hps = [hp]
    if case['border'] == 0 and case['multi']:
        hps = sorted(set([hp] + [int(x) for x in np.unique(big[ok])[:3]]))
    sub = DepthMap(S.conf(s, depthfile='d.hsp', nside=nr, hpix=hps, border=case['border'], area=10.0))
    inr = np.isin(big, hps) & (np.abs(dec) <= 90)
    if case['border'] > 0:
        import hpgeom.healpy_compat as hpc
        b = hpc.boundaries(nr, hp, step=16)
        bra, bdec = np.degrees(np.arctan2(b[1], b[0])) % 360, np.degrees(np.arcsin(np.clip(b[2], -1, 1)))
        dd = np.array([W.sep(ra[i], dec[i], bra, bdec).min() if abs(dec[i]) <= 90 else 999. for i in range(ra.size)])
        inr |= dd < 0.95*case['border']
    compare(sub, ra[inr], dec[inr], out[inr], ok[inr], 'sub-region')
    # elsewhere: the value of the map, or nothing
    lim = np.asarray(sub.get_depth_values(ra, dec)[0])
    fg = np.asarray(sub.get_fracgoods(ra, dec))
    good = lim > -1e29
    require(np.all(ok[good]) and np.allclose(lim[good], out['limmag'][good]) and np.all(fg[~good] <= 0), 'sub-region invents depth')
    return case['center']


def check_maskdepth(case):
    rs = np.random.RandomState(case['seed'])
    ra, dec, sc = case['ra'], case['dec'], case['scale']
    n = case['n']
    mg = Catalog(np.zeros(n, dtype=[('x', 'f4'), ('y', 'f4'), ('limmag', 'f4'), ('exptime', 'f4'), ('m50', 'f4'), ('eff', 'f4'), ('w', 'f4'), ('zp', 'f4'), ('nsig', 'f4'), ('m', 'f4'), ('mark', bool)]))
    r, ph = 1.4*rs.uniform(size=n), rs.uniform(0, 2*np.pi, n)
    mg.x, mg.y = r*np.cos(ph), r*np.sin(ph)
    mg.m, mg.mark = rs.normal(size=n), rs.uniform(size=n) < 0.5
    for k in ('limmag', 'exptime', 'm50', 'w', 'zp', 'nsig'):
        setattr(mg, k, rs.uniform(1, 30, n))
    ns = case['nside']
    pra, pdec = (ra + mg.x.astype('f8')/sc/np.cos(np.radians(dec))) % 360., dec + mg.y.astype('f8')/sc
    pp = hpg.angle_to_pixel(ns, pra, pdec, nest=True)
    up = np.unique(pp)
    if case['cover'] == 'none':
        pix = np.array([0, 1]) + (int(up[0]) + 12*ns*ns//2) % (12*ns*ns - 2)
        pix = pix[~np.isin(pix, up)]
        if pix.size < 1:
            return False
    elif case['cover'] == 'few':
        pix = up[:1]
    elif case['cover'] == 'all':
        pix = up
    else:
        pix = up[rs.uniform(size=up.size) < 0.6]
        if pix.size == 0:
            pix = up[:1]
    v = np.zeros(pix.size, dtype=S.DEPTH_DT)
    v['limmag'], v['m50'], v['exptime'], v['fracgood'] = rs.uniform(19, 22, pix.size), rs.uniform(19, 22, pix.size), rs.uniform(10, 500, pix.size), 1.0
    S.hs_depth('d.hsp', ns, pix, v, nside_cov=32, nsig=case['nsig'], zp=case['zp'], w=case['w'])
    d = DepthMap(S.conf(S.survey(), depthfile='d.hsp', area=10.0))
    keep = {k: np.array(getattr(mg, k)) for k in ('x', 'y', 'm', 'mark')}
    d.calc_maskdepth(mg, ra, dec, sc)
    for k, x in keep.items():
        require(np.array_equal(x, getattr(mg, k)), 'column %s of the mask points changed', k)
    require(abs(mg.zp[0] - case['zp']) < 1e-4 and abs(mg.nsig[0] - case['nsig']) < 1e-4 and np.all(mg.w == np.float32(case['w'])), 'zero point, significance or type of the mask points')
    out, ok = ref_at(ns, pix, v, pra, pdec)
    e = 1e-4
    sure = np.ones(n, dtype=bool)
    for dx, dy in ((e, 0), (-e, 0), (0, e), (0, -e)):
        sure &= hpg.angle_to_pixel(ns, (pra + dx/np.cos(np.radians(dec))) % 360., pdec + dy, nest=True) == pp
    for k in ('limmag', 'exptime', 'm50'):
        got = np.array(getattr(mg, k))
        j = sure & ok
        require(np.allclose(got[j], out[k][j], rtol=1e-5), '%s of %d mask points is not that of the map at their position', k, np.sum(~np.isclose(got[j], out[k][j], rtol=1e-5)))
        if not np.all(sure):
            continue
        if ok.sum() == 0:
            want = dict(limmag=1.0, exptime=1000., m50=0.0)[k]
        elif ok.sum() >= 3:
            want = np.median(out[k][ok])
        else:
            want = np.mean(out[k][ok])
        require(np.allclose(got[~ok], want, rtol=1e-4), '%s of mask points without depth is %s instead of %g', k, got[~ok][:3], want)
    return 'ok%s' % min(ok.sum(), 3) + ('all' if ok.all() else '')


def check_areas(case):
    rs = np.random.RandomState(case['seed'])
    pix, v, step = build(case, rs, uniform=case['uniform'])
    ns = case['nside']
    kw = {}
    sel = np.ones(pix.size, dtype=bool)
    if case['sub']:
        nr = case['nr']
        if nr > ns:
            return False
        up = hpg.nest_to_ring(nr, pix >> (2*int(np.round(np.log2(ns/nr)))))
        hps = np.unique(up)[:case['nsub']]
        sel = np.isin(up, hps)
        kw = dict(nside=nr, hpix=[int(x) for x in hps], area=10.0)
    d = DepthMap(S.conf(S.survey(), depthfile='d.hsp', **kw))
    ps = hpg.nside_to_pixel_area(ns, degrees=True)
    gd = sel & (v['m50'] > 0)
    if gd.sum() < 2:
        return False
    m50, fg = v['m50'][gd], v['fracgood'][gd].astype('f8')
    edges = np.sort(m50)
    mags = np.sort(np.concatenate((rs.uniform(18., 23., 12), [10.0, 30.0], edges[:-1][:8] + 0.5*np.diff(edges)[:8])))
    a = np.asarray(d.calc_areas(mags))
    require(a.shape == mags.shape and np.all(np.isfinite(a)) and np.all(a >= 0), 'areas')
    tot = fg.sum()*ps
    require(np.all(np.diff(a) <= 1e-9), 'the area grows with magnitude')
    require(np.all(a <= tot*(1 + 1e-6)), 'area %g exceeds the footprint %g', a.max(), tot)
    require(abs(a[0] - tot) < 1e-6*tot, 'all pixels are deeper than magnitude 10: area %g of %g', a[0], tot)
    perm = rs.permutation(mags.size)
    require(np.array_equal(np.asarray(d.calc_areas(mags[perm])), a[perm]), 'areas depend on the order of the magnitudes')
    true = np.array([fg[m50 > m].sum()*ps for m in mags])
    if case['uniform']:
        require(np.all(np.abs(a - true) < 2.001*ps*0.75), 'uniform map: area off by %g pixels', np.max(np.abs(a - true))/ps)
    if not np.allclose(a, true, rtol=1e-6, atol=1e-9):
        o = np.argsort(m50, kind='stable')
        inds = np.clip(np.searchsorted(m50[o], mags) - 1, 1, m50.size - 1)
        legacy = ps*np.cumsum(fg[o])[m50.size - inds]
        require(np.allclose(a, legacy, rtol=1e-6, atol=1e-9), 'areas %s, pixels deeper add up to %s', a[:6], true[:6])
        raise Violation('areas count the shallow pixels', sig='areas-wrong-end')
    return True


def check_fixed(case):
    """A map without depth information (w < 0), borders, conversions."""
    rs = np.random.RandomState(case['seed'])
    pix, v, step = build(case, rs, w=-1.0)
    d = DepthMap(S.conf(S.survey(), depthfile='d.hsp', area=case['area']))
    require(np.allclose(d.calc_areas(np.array([10., 20., 30.])), case['area']), 'configured area')
    build(dict(case), np.random.RandomState(case['seed']), fn='e.hsp')
    nr = 4
    hp = int(hpg.nest_to_ring(nr, pix[0] >> (2*int(np.round(np.log2(case['nside']/nr))))))
    b = DepthMap(S.conf(S.survey(), depthfile='e.hsp', nside=nr, hpix=[hp], border=0.5, area=10.))
    try:
        b.calc_areas(np.array([20.]))
        raise Violation('areas of a sub-region with border computed')
    except RuntimeError:
        pass
    # old format
    a = np.zeros(pix.size, dtype=[('hpix', 'i8')] + S.DEPTH_DT)
    for k in v.dtype.names:
        a[k] = v[k]
    a['hpix'] = pix if case['nest'] else hpg.nest_to_ring(case['nside'], pix)
    a = a[rs.permutation(a.size)]
    fitsio.write('old.fit', a, header=dict(nside=case['nside'], nest=int(case['nest']), nsig=case['nsig'], zp=case['zp'], nband=1, w=0.0, eff=1.0), clobber=True)
    try:
        DepthMap(S.conf(S.survey(), depthfile='old.fit'))
        raise Violation('a depth file of another format was accepted')
    except RuntimeError:
        pass
    convert_depthfile_to_healsparse('old.fit', 'new.hsp', case['cov'])
    d = DepthMap(S.conf(S.survey(), depthfile='d.hsp'), depthfile='new.hsp')
    require(abs(d.nsig - case['nsig']) < 1e-6 and abs(d.zp - case['zp']) < 1e-6, 'converted map information')
    ra, dec = positions(rs, case, step, 300)
    out, ok = ref_at(case['nside'], pix, v, ra, dec)
    compare(d, ra, dec, out, ok, 'converted map')
    return True


base = dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([64, 128, 512]), cov=st.sampled_from([16, 32]), center=st.sampled_from(sorted(CENTERS)), npix=st.integers(1, 60),
            nsig=st.sampled_from([10.0, 5.0]), zp=st.sampled_from([22.5, 30.0]))
s1 = st.fixed_dictionaries(dict(base, nr=st.sampled_from([4, 8, 16, 32, 64]), border=st.sampled_from([0.0, 0.0, 0.3, 1.0]), multi=st.booleans()))
s2 = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([64, 256, 1024]), ra=st.sampled_from([0.0, 0.01, 359.99, 120., 240.5]),
                                dec=st.sampled_from([-80., -30., 0.0, 12., 75.]), scale=st.floats(4.0, 25.0), n=st.sampled_from([1, 2, 3, 5, 40, 200]),
                                cover=st.sampled_from(['none', 'few', 'all', 'some', 'some']), nsig=st.sampled_from([10.0, 5.0]), zp=st.sampled_from([22.5, 30.0]), w=st.sampled_from([0.0, -1.0])))
s3 = st.fixed_dictionaries(dict(base, uniform=st.booleans(), sub=st.booleans(), nr=st.sampled_from([4, 16, 64]), nsub=st.integers(1, 3), nom50=st.booleans()))
s4 = st.fixed_dictionaries(dict(base, nest=st.booleans(), area=st.floats(1., 1000.)))
TESTS = ([T('map-%d' % i, s1, check, 80, 3000, 'map with a position inside; label: sky position') for i in range(3)] +
         [T('maskdepth-%d' % i, s2, check_maskdepth, 120, 4000, 'label: mask points with depth') for i in range(3)] +
         [T('areas', s3, check_areas, 150, 3000, 'at least two pixels with depth'), T('fixed', s4, check_fixed, 60, 1000, 'maps')])
