"""C15: volume-limit maps."""
import os
import shutil
import numpy as np
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W, synth as S
from props.c12 import CENTERS, positions
from redmapper.volumelimit import VolumeLimitMask, VolumeLimitMaskFixed

ASSUMPTIONS = ['fine redshift grid of 0.001 starting one step above the lower redshift limit',
               'limits set by an additional band are compared within one grid step (the model is tabulated on the same step)']
STEP = 0.001


def pixels(case, rs):
    ns, k = case['nside'], case['npix']
    ra0, dec0 = CENTERS[case['center']]
    step = 58.6/ns
    ras, decs = W.offset(ra0, dec0, step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k), step*0.7*rs.uniform(-np.sqrt(k), np.sqrt(k), k))
    pix = np.unique(hpg.angle_to_pixel(ns, ras, decs, nest=True))
    if pix.size < 2:
        pix = np.sort(np.array([pix[0], pix[0] ^ 1]))
    return pix, step


def curves(s, zr, lstar):
    """Faintest magnitude in every band of the luminosity cut, on the grid."""
    nz = int(np.ceil((zr[1] - zr[0])/STEP - 1e-9))
    zg = zr[0] + STEP*(1 + np.arange(nz))
    ref = np.array([float(s.zredstr.mstar(z)) for z in zg]) - 2.5*np.log10(lstar)
    return zg, ref, W.red_mags(s.zredstr, zg, ref, S.REF)


def first_beyond(zg, lim, depth):
    """First grid redshift at which the cut is fainter than the depth (last grid point if none)."""
    b = np.flatnonzero(lim > depth)
    return zg[b[0]] if b.size else zg[-1]


def maglim(limmag, exptime, nsig, zp, want):
    f = 10**(-0.4*(limmag - zp))
    fn = np.clip(f**2*exptime/nsig**2 - f, 0.001, None)
    n2 = want**2
    return zp - 2.5*np.log10((n2 + np.sqrt(n2**2 + 4*exptime*n2*fn))/(2*exptime))


def write_maps(case, rs, pix, s, zr):
    zg, ref, mags = curves(s, zr, case['lstar'])
    lo, hi = ref.min() - 0.2, ref.max() + 0.2
    v = np.zeros(pix.size, dtype=S.DEPTH_DT)
    v['m50'], v['limmag'], v['exptime'], v['fracgood'] = rs.uniform(lo, hi, pix.size), 21., 100., rs.choice([1.0, 0.5, 0.25], pix.size)
    S.hs_depth('d.hsp', case['nside'], pix, v, nside_cov=32, nsig=10.0, zp=22.5)
    kw = dict(depthfile='d.hsp', zrange=zr)
    extra = []
    if case['bands']:
        files = []
        for i, b in enumerate(case['bands']):
            j = S.BANDS.index(b)
            p2 = pix[rs.uniform(size=pix.size) < 0.85]
            if p2.size == 0:
                p2 = pix[:1]
            u = np.zeros(p2.size, dtype=S.DEPTH_DT)
            u['exptime'], u['fracgood'], u['m50'] = rs.uniform(50, 300, p2.size), 1.0, 21.0
            u['limmag'] = rs.uniform(mags[:, j].min() + 0.1, mags[:, j].max() + 0.4, p2.size)
            fn = 'd_%s.hsp' % b
            S.hs_depth(fn, case['nside'], p2, u, nside_cov=32, nsig=case['nsig'], zp=case['zp'])
            files.append(fn)
            extra.append((j, p2, u, case['nsigs'][i]))
        kw.update(vlim_depthfiles=files, vlim_bands=list(case['bands']), vlim_nsigs=[float(x) for x in case['nsigs'][:len(files)]])
    return v, kw, extra


def expected(case, s, zr, pix, v, extra):
    """(low, high) allowed zmax per pixel; 0 where the map has no limit."""
    zg, ref, mags = curves(s, zr, case['lstar'])
    a = np.array([first_beyond(zg, ref, m) for m in v['m50'].astype('f8')])
    lo, hi = a.copy(), a.copy()
    for j, p2, u, want in extra:
        d = np.full(pix.size, -99.0)
        ii = np.searchsorted(pix, p2)
        d[ii] = maglim(u['limmag'].astype('f8'), u['exptime'].astype('f8'), case['nsig'], case['zp'], want)
        if j == S.REF:
            b = np.array([first_beyond(zg, ref, m) for m in d])
            lo, hi = np.minimum(lo, b), np.minimum(hi, b)
        else:
            b = np.array([first_beyond(zg, mags[:, j], m) for m in d])
            b[d < -90] = zg[0]
            lo, hi = np.minimum(lo, b - STEP), np.minimum(hi, np.where(d < -90, b, b + STEP))
    return zg, lo, hi


def at(pix, ns, ra, dec, arr, null=0.0):
    p = hpg.angle_to_pixel(ns, ra, np.clip(dec, -90, 90), nest=True)
    i = np.clip(np.searchsorted(pix, p), 0, pix.size - 1)
    ok = (pix[i] == p) & (np.abs(dec) <= 90)
    return np.where(ok, arr[i], null), ok


def check(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    zr = case['zr']
    ns = case['nside']
    pix, step = pixels(case, rs)
    v, kw, extra = write_maps(case, rs, pix, s, zr)
    conf = S.conf(s, **kw)
    vm = VolumeLimitMask(conf, case['lstar'], vlimfile='v.hsp')
    ra, dec = positions(rs, case, step, 400)
    cra, cdec = hpg.pixel_to_angle(ns, pix, nest=True)
    ra, dec = np.append(ra, cra), np.append(dec, cdec)
    badd = rs.uniform(size=ra.size) < 0.02
    dec[badd] = rs.choice([90.2, -99.], badd.sum())
    zg, lo, hi = expected(case, s, zr, pix, v, extra)
    zm, fg = (np.asarray(x) for x in vm.calc_zmax(ra, dec, get_fracgood=True))
    require(np.array_equal(np.asarray(vm.calc_zmax(ra, dec)), zm), 'redshift limit depends on whether the good fraction is asked for')
    l, ok = at(pix, ns, ra, dec, lo)
    h, _ = at(pix, ns, ra, dec, hi)
    f, _ = at(pix, ns, ra, dec, v['fracgood'])
    require(zm.shape == ra.shape and np.all(zm[~ok] == 0) and np.all(fg[~ok] <= 0), 'outside the footprint the limit or good fraction is positive')
    eps = 1e-5
    # a pixel that reaches no further than the first grid redshift is not part of the volume-limited map
    inmap = zm > 0
    must = ok & (l > zg[0] + eps)
    mustnot = ok & (h <= zg[0] + eps)
    require(np.all(inmap[must]) and not np.any(inmap[mustnot]), 'pixels of the volume-limited footprint: %d missing, %d too many', np.sum(~inmap[must]), np.sum(inmap[mustnot]))
    j = inmap & ((zm < np.clip(l, zg[0], None) - eps) | (zm > np.clip(h, None, zg[-1]) + eps))
    require(not np.any(j), 'redshift limit %s, expected between %s and %s', zm[j][:3], l[j][:3], h[j][:3])
    require(np.array_equal(fg[inmap], f[inmap].astype(fg.dtype)) and np.all(fg[~inmap] <= 0), 'good fraction of the volume-limited map')
    require(np.all(zm[inmap] <= zr[1] + STEP + eps) and np.all(zm[inmap] > zr[0]), 'limit outside the configured range')
    perm = rs.permutation(ra.size)
    require(np.array_equal(np.asarray(vm.calc_zmax(ra[perm], dec[perm])), zm[perm]), 'limit depends on the order of positions')
    try:
        vm.calc_zmax(ra, dec[:-1])
        raise Violation('different lengths accepted')
    except ValueError:
        pass
    # reading the written map again, whatever the depth files are now
    raw = open('v.hsp', 'rb').read()
    os.remove('d.hsp')
    vm2 = VolumeLimitMask(conf, case['lstar'] + 0.7, vlimfile='v.hsp')
    require(np.array_equal(np.asarray(vm2.calc_zmax(ra, dec)), zm) and open('v.hsp', 'rb').read() == raw, 'map read back gives other limits')
    # areas
    ar = vm.get_areas()
    zs, aa = np.array(ar.z, dtype='f8'), np.array(ar.area, dtype='f8')
    require(abs(zs[0] - zr[0]) < 1e-6 and np.allclose(np.diff(zs), conf.area_finebin, atol=1e-6) and zs[-1] < zr[1] + 1e-6 and zs[-1] > zr[1] - conf.area_finebin*1.01, 'area grid')
    ps = hpg.nside_to_pixel_area(ns, degrees=True)
    pz = np.asarray(vm.calc_zmax(cra, cdec)).astype('f8')
    u = pz > 0
    w = v['fracgood'].astype('f8')
    hiA = np.array([np.sum(w[u & (pz > z - 2e-6)]) for z in zs])*ps
    loA = np.array([np.sum(w[u & (pz > z + 2e-6)]) for z in zs])*ps
    require(np.all(aa >= loA*(1 - 1e-5) - 1e-7) and np.all(aa <= hiA*(1 + 1e-5) + 1e-7), 'usable area differs from that of the pixels reaching the redshift')
    require(np.all(np.diff(aa) <= 1e-5*(aa[0] + 1e-9)), 'usable area grows with redshift')
    # sub-region
    ins = np.flatnonzero(inmap)
    if ins.size == 0:
        return False
    nr = case['nr']
    big = hpg.angle_to_pixel(nr, ra, np.clip(dec, -90, 90), nest=False)
    hp = int(big[ins[0]])
    sub = VolumeLimitMask(S.conf(s, nside=nr, hpix=[hp], border=0.0, area=10.0, zrange=zr), case['lstar'], vlimfile='v.hsp')
    inr = (big == hp)
    require(np.array_equal(np.asarray(sub.calc_zmax(ra[inr], dec[inr])), zm[inr]), 'sub-region gives other limits')
    o = np.asarray(sub.calc_zmax(ra, dec))
    require(np.all((o == zm) | (o == 0)), 'sub-region invents limits')
    return ','.join(case['bands']) or 'ref'


def check_mono(case):
    """Deeper maps and brighter cuts never lower the limit; default file name; geometry maps; refusals."""
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    zr = case['zr']
    ns = case['nside']
    pix, step = pixels(case, rs)
    v, kw, extra = write_maps(case, rs, pix, s, zr)
    ra, dec = hpg.pixel_to_angle(ns, pix, nest=True)
    conf = S.conf(s, outpath='.', **kw)
    a = VolumeLimitMask(conf, case['lstar'])
    fn = conf.redmapper_filename('vl%02d_vlim_zmask' % int(case['lstar']*10), withversion=True)
    require(os.path.isfile(fn), 'no file %s', fn)
    za = np.asarray(a.calc_zmax(ra, dec))
    b = VolumeLimitMask(conf, case['lstar']*case['fac'], vlimfile='b.hsp')
    zb = np.asarray(b.calc_zmax(ra, dec))
    require(np.all(zb >= za), 'a brighter cut lowers the limit from %s to %s', za[zb < za][:3], zb[zb < za][:3])
    u = v.copy()
    u['m50'] += rs.uniform(0, 0.4, pix.size).astype('f4')
    S.hs_depth('d.hsp', ns, pix, u, nside_cov=32)
    c = VolumeLimitMask(conf, case['lstar'], vlimfile='c.hsp')
    zc = np.asarray(c.calc_zmax(ra, dec))
    require(np.all(zc >= za), 'a deeper map lowers the limit')
    # geometry map
    fr = dict((int(p), float(x)) for p, x in zip(pix, rs.choice([1.0, 0.5, 0.2], pix.size)))
    S.hs_mask('m.hsp', ns, fr)
    conf = S.conf(s, maskfile='m.hsp', mask_mode=3, zrange=zr)
    g = VolumeLimitMask(conf, case['lstar'], vlimfile='g.hsp', use_geometry=True)
    r2, d2 = positions(rs, case, step, 200)
    zm, fg = (np.asarray(x) for x in g.calc_zmax(r2, d2, get_fracgood=True))
    f, ok = at(pix, ns, r2, d2, np.array([fr[int(p)] for p in pix]))
    require(np.allclose(zm[ok], zr[1]) and np.all(zm[~ok] == 0) and np.allclose(fg[ok], f[ok]) and np.all(fg[~ok] <= 0), 'geometry map')
    # no depth file
    for args, k in ((dict(zrange=zr), {}), (dict(zrange=zr, depthfile='absent.hsp'), {}), (dict(zrange=zr), dict(use_geometry=True)),
                    (dict(zrange=zr, depthfile='d.hsp', vlim_depthfiles=['absent.hsp'], vlim_bands=['g'], vlim_nsigs=[5.0]), {})):
        try:
            VolumeLimitMask(S.conf(s, **args), case['lstar'], vlimfile='x.hsp', **k)
            raise Violation('built without its input: %s' % args)
        except RuntimeError:
            require(not os.path.exists('x.hsp'), 'a refused map was written')
    # fixed limit
    conf = S.conf(s, zrange=zr, area=33.0)
    fx = VolumeLimitMaskFixed(conf)
    require(np.all(np.asarray(fx.calc_zmax(ra, dec)) == zr[1]), 'fixed limit')
    ar = fx.get_areas()
    require(np.allclose(ar.area, 33.0) and abs(ar.z[0] - zr[0]) < 1e-6 and zr[1] - 1.01*conf.area_finebin < ar.z[-1] < zr[1] + 1e-6, 'fixed area')
    return 'some' if np.any(za > 0) else False


base = dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([64, 128, 512]), center=st.sampled_from(sorted(CENTERS)), npix=st.integers(2, 60), lstar=st.sampled_from([0.2, 0.5, 1.0, 0.3]),
            zr=st.sampled_from([[0.12, 0.3755], [0.2, 0.3505], [0.15, 0.25]]), nr=st.sampled_from([4, 16, 32, 64]), nsig=st.sampled_from([10.0, 5.0]), zp=st.sampled_from([22.5, 30.0]),
            bands=st.sampled_from([[], [], ['g'], ['z'], ['r', 'z'], ['i'], ['g', 'r', 'z']]), nsigs=st.lists(st.sampled_from([3.0, 5.0, 10.0]), min_size=3, max_size=3))
s1 = st.fixed_dictionaries(base)
s2 = st.fixed_dictionaries(dict(base, fac=st.sampled_from([1.0, 1.3, 2.5])))
TESTS = [T('limit-%d' % i, s1, check, 120, 3000, 'map with volume-limited pixels; label: additional bands') for i in range(5)] + [T('mono-%d' % i, s2, check_mono, 50, 1500, 'map with volume-limited pixels') for i in range(3)]
