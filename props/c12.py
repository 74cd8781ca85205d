"""C12: geometry masks."""
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W, synth as S
from redmapper.mask import Mask, HPMask, get_mask, convert_maskfile_to_healsparse
from redmapper.cluster import Cluster

ASSUMPTIONS = ['sub-region answers are compared for positions inside the region or its border',
               'clusters at least 2 degrees from the poles for the marking of mask points',
               'acceptance rates are compared at six standard deviations']
CENTERS = dict(eq=(140., 2.), wrap=(0.1, -20.), north=(77., 88.), south=(200., -89.), mid=(300., 43.))


def build(case, rs):
    """{nest pixel: fraction} around a centre."""
    ns = case['nside']
    ra0, dec0 = CENTERS[case['center']]
    step = 58.6/ns
    k = case['npix']
    ras, decs = W.offset(ra0, dec0, step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k), step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k))
    pix = np.unique(hpg.angle_to_pixel(ns, ras, decs, nest=True))
    vals = rs.choice([0.0, 1.0, 1.0, 0.3, 0.8], pix.size)
    return dict((int(p), float(v)) for p, v in zip(pix, vals)), step


def positions(rs, case, step, n):
    ra0, dec0 = CENTERS[case['center']]
    w = step*np.sqrt(case['npix'])
    ra, dec = W.offset(ra0, dec0, rs.uniform(-w, w, n), rs.uniform(-w, w, n))
    far = rs.uniform(size=n) < 0.1
    ra[far], dec[far] = rs.uniform(0, 360, far.sum()), rs.uniform(-89, 89, far.sum())
    return ra, dec


def frac_at(fr, ns, ra, dec):
    return np.array([fr.get(int(p), 0.0) for p in hpg.angle_to_pixel(ns, ra, dec, nest=True)])


def compare(keep, f, what):
    require(keep.shape == f.shape and keep.dtype == bool, '%s: shape', what)
    require(np.all(keep[f == 1.0]), '%s: %d positions in fully good pixels rejected', what, np.sum(~keep[f == 1.0]))
    require(not np.any(keep[f == 0.0]), '%s: %d positions in bad or unmapped pixels kept', what, np.sum(keep[f == 0.0]))
    for v in (0.3, 0.8):
        u = np.abs(f - v) < 1e-6
        if u.sum() > 40:
            r = keep[u].mean()
            require(abs(r - v) < 6*np.sqrt(v*(1 - v)/u.sum()), '%s: kept %g of positions with fraction %g', what, r, v)


def check(case):
    rs = np.random.RandomState(case['seed'])
    fr, step = build(case, rs)
    ns = case['nside']
    S.hs_mask('m.hsp', ns, fr, nside_cov=case['cov'])
    s = S.survey()
    conf = S.conf(s, maskfile='m.hsp', mask_mode=3)
    m = get_mask(conf, include_maskgals=False)
    ra, dec = positions(rs, case, step, 1500)
    f = frac_at(fr, ns, ra, dec)
    k = m.compute_radmask(ra, dec)
    compare(k, f, 'mask')
    perm = rs.permutation(ra.size)
    k2 = m.compute_radmask(ra[perm], dec[perm])
    compare(k2, f[perm], 'reordered')
    det = (f == 0) | (f == 1)
    require(np.array_equal(k[perm][det[perm]], k2[det[perm]]), 'answer depends on the order of positions')
    # wrapped right ascensions and impossible declinations
    k3 = m.compute_radmask(np.where(rs.uniform(size=ra.size) < 0.5, ra - 360.0, ra + 360.0), dec)
    compare(k3, f, 'wrapped right ascension')
    bad = dec.copy()
    j = rs.randint(ra.size, size=5)
    bad[j] = [90.5, -91.0, 1000., np.nan, -90.1]
    k4 = m.compute_radmask(ra, bad)
    require(not np.any(k4[j]), 'positions with impossible declinations kept')
    keep = np.ones(ra.size, dtype=bool)
    keep[j] = False
    compare(k4[keep], f[keep], 'others next to impossible declinations')
    try:
        m.compute_radmask(ra, dec[:-1])
        raise Violation('different lengths accepted')
    except ValueError:
        pass
    require(np.all(Mask(conf, include_maskgals=False).compute_radmask(ra, dec)), 'no-mask mode rejects positions')
    # sub-region
    nr = case['nr']
    inside = np.flatnonzero(f == 1.0)
    if inside.size == 0:
        return False
    hp = int(hpg.angle_to_pixel(nr, ra[inside[0]], dec[inside[0]], nest=False))
    big = hpg.angle_to_pixel(nr, ra, dec, nest=False)
    hps = [hp]
    if case['border'] == 0 and case['multi']:
        hps = sorted(set([hp] + [int(x) for x in np.unique(big[f == 1.0])[:3]]))
    conf = S.conf(s, maskfile='m.hsp', mask_mode=3, nside=nr, hpix=hps, border=case['border'], area=10.0)
    sub = HPMask(conf, include_maskgals=False)
    inr = np.isin(big, hps)
    if case['border'] > 0:
        import hpgeom.healpy_compat as hpc
        b = hpc.boundaries(nr, hp, step=16)
        bra, bdec = np.degrees(np.arctan2(b[1], b[0])) % 360, np.degrees(np.arcsin(np.clip(b[2], -1, 1)))
        d = np.array([W.sep(ra[i], dec[i], bra, bdec).min() for i in range(0, ra.size)])
        inr |= d < 0.95*case['border']
    compare(sub.compute_radmask(ra, dec)[inr], f[inr], 'sub-region')
    anyk = sub.compute_radmask(ra, dec)
    require(not np.any(anyk[f == 0]), 'sub-region keeps positions outside the map')
    return case['center']


def check_mark(case):
    rs = np.random.RandomState(case['seed'])
    case = dict(case, center='mid', npix=1)
    s = S.survey()
    conf = S.conf(s, maskgal_ngals=150, maskgal_nsamples=3)
    Mask(conf, include_maskgals=False).gen_maskgals('mg.fit')
    allmg = fitsio.read('mg.fit', ext=1, lower=True)
    ra, dec = case['ra'], case['dec']
    z = case['z']
    cl = Cluster(zredstr=s.zredstr, config=conf)
    cl.ra, cl.dec = ra, dec
    cl.redshift = z
    sc = cl.mpc_scale
    ns = case['nside']
    # a random map over the pixels around the cluster
    x, y = allmg['x']/sc, allmg['y']/sc
    pix = np.unique(hpg.angle_to_pixel(ns, (ra + x/np.cos(np.radians(dec))) % 360., dec + y, nest=True))
    fr = dict((int(p), float(v)) for p, v in zip(pix, rs.choice([0., 1.0], pix.size)))
    S.hs_mask('m.hsp', ns, fr, nside_cov=32)
    conf = S.conf(s, maskfile='m.hsp', mask_mode=3, maskgalfile='mg.fit', maskgal_ngals=150, maskgal_nsamples=3)
    m = get_mask(conf)
    seen = set()
    for it in range(case['nsel']):
        i = m.select_maskgals_sample() if it % 2 else m.select_maskgals_sample(maskgal_index=it % 3)
        require(0 <= i < 3, 'sample number %s', i)
        if it % 2 == 0:
            require(i == it % 3, 'another sample was selected')
        seen.add(int(i))
        mg = m.maskgals
        sl = slice(i*150, (i + 1)*150)
        require(mg.size == 150 and np.array_equal(mg.x, allmg['x'][sl]) and np.array_equal(mg.m, allmg['m'][sl]), 'mask points are not the stored sample')
        m.set_radmask(cl)
        ras, decs = ra + mg.x.astype('f8')/sc/np.cos(np.radians(dec)), dec + mg.y.astype('f8')/sc
        # away from pixel edges
        f = frac_at(fr, ns, ras % 360., decs)
        e = 1e-4
        sure = np.ones(150, dtype=bool)
        for dx, dy in ((e, 0), (-e, 0), (0, e), (0, -e)):
            sure &= frac_at(fr, ns, (ras + dx/np.cos(np.radians(dec))) % 360., decs + dy) == f
        mk = np.array(m.maskgals.mark).astype(bool)
        require(np.array_equal(mk[sure], f[sure] == 1.0), '%d mask points are marked against the map at their position', np.sum(mk[sure] != (f[sure] == 1)))
    require(np.array_equal(fitsio.read('mg.fit', ext=1, lower=True), allmg), 'mask point file changed')
    m0 = Mask(S.conf(s, maskgalfile='mg.fit', maskgal_ngals=150, maskgal_nsamples=3))
    drawn = set(int(m0.select_maskgals_sample()) for i in range(120))
    require(drawn == {0, 1, 2}, 'only the samples %s are ever drawn', sorted(drawn))
    m0.select_maskgals_sample(0)
    m0.set_radmask(cl)
    require(np.all(m0.maskgals.mark), 'points masked without a mask')
    return 'mixed' if 0 < sum(fr.values()) < len(fr) else 'uniform'


def check_convert(case):
    rs = np.random.RandomState(case['seed'])
    fr, step = build(case, rs)
    ns = case['nside']
    pix = np.array(sorted(fr))
    a = np.zeros(pix.size, dtype=[('hpix', 'i8'), ('fracgood', 'f4')])
    a['fracgood'] = [fr[p] for p in pix]
    a['hpix'] = pix if case['nest'] else hpg.nest_to_ring(ns, pix)
    a = a[rs.permutation(a.size)]
    fitsio.write('old.fit', a, header=dict(nside=ns, nest=int(case['nest'])), clobber=True)
    convert_maskfile_to_healsparse('old.fit', 'new.hsp', case['cov'])
    conf = S.conf(S.survey(), maskfile='new.hsp', mask_mode=3)
    ra, dec = positions(rs, case, step, 600)
    compare(get_mask(conf, include_maskgals=False).compute_radmask(ra, dec), frac_at(fr, ns, ra, dec), 'converted map')
    try:
        get_mask(S.conf(S.survey(), maskfile='old.fit', mask_mode=3), include_maskgals=False)
        raise Violation('a map of another format was accepted')
    except RuntimeError:
        pass
    return True


base = dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([64, 128, 512]), cov=st.sampled_from([16, 32]), center=st.sampled_from(sorted(CENTERS)), npix=st.integers(1, 60))
s1 = st.fixed_dictionaries(dict(base, nr=st.sampled_from([4, 8, 16, 32, 64]), border=st.sampled_from([0.0, 0.0, 0.3, 1.0]), multi=st.booleans()))
s2 = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([64, 256, 1024]), ra=st.sampled_from([0.0, 0.01, 359.99, 120., 240.5]),
                                dec=st.sampled_from([-80., -30., 0.0, 12., 75.]), z=st.floats(0.08, 0.4), nsel=st.integers(1, 5)))
s3 = st.fixed_dictionaries(dict(base, nest=st.booleans()))
TESTS = ([T('map-%d' % i, s1, check, 60, 2000, 'map with a fully good pixel; label: sky position') for i in range(4)] +
         [T('mark-%d' % i, s2, check_mark, 60, 2000, 'label: map has good and bad pixels') for i in range(3)] + [T('convert', s3, check_convert, 60, 1000, 'converted maps')])
