"""C25: redMaGiC selection."""
import os
import shutil
import numpy as np
import fitsio
import hpgeom as hpg
import healsparse
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from redmapper.catalog import Catalog
from redmapper.galaxy import GalaxyCatalog
from redmapper.redmagic import RedmagicSelector, RunRedmagicTask, RedmagicParameterFitter

ASSUMPTIONS = ['galaxies within 1e-3 (0.025 mag in brightness) of a cut may go either way', 'calibration nodes increase', 'randoms are asked for only when every mode with a footprint selects a galaxy',
               'spectra are matched well inside or outside 3 arcsec']
ZDT = W.zred_dtype(4)


def fixspline(x, y, z):
    v = W.natural_spline(x, y, z)
    v = np.where(z < x[0], y[0], v)
    return np.where(z > x[-1], y[-1], v)


def calibration(rs, case, fn, vfiles):
    """Write the calibration; returns {mode: dict}."""
    cal = {}
    for i, name in enumerate(case['names']):
        nn, nc = rs.randint(2, 6), rs.randint(2, 5)
        d = dict(cost_zrange=np.array([0.17 + 0.05*rs.uniform(), 0.28 + 0.08*rs.uniform()], dtype='f4'), lstar_cushion=np.float32(0.05), z_cushion=np.float32(rs.choice([0.0, 0.05])),
                 maxchi=np.float32(rs.choice([8.0, 20.0])), etamin=float(rs.choice([0.5, 1.0, 0.12])), n0=10.0, run=int(case['run'][i % len(case['run'])]),
                 app=int(rs.randint(2)), buffer=np.float32(rs.choice([0.0, 0.05])), vmaskfile=vfiles[i])
        d['nodes'] = np.linspace(d['cost_zrange'][0], d['cost_zrange'][1], nn)
        d['cmax'] = rs.uniform(-1, 25, nn)
        d['corrnodes'] = np.linspace(d['cost_zrange'][0], d['cost_zrange'][1], nc)
        d['bias'], d['eratio'] = rs.uniform(-0.04, 0.04, nc), rs.uniform(0.5, 1.5, nc)
        dt = [('zrange', 'f4', 2), ('cost_zrange', 'f4', 2), ('lstar_cushion', 'f4'), ('z_cushion', 'f4'), ('name', 'S%d' % (len(name) + 1)), ('maxchi', 'f4'), ('nodes', 'f8', nn),
              ('etamin', 'f8'), ('n0', 'f8'), ('cmax', 'f8', nn), ('corrnodes', 'f8', nc), ('run_afterburner', 'i2'), ('apply_afterburner', 'i2'), ('buffer', 'f4'),
              ('bias', 'f8', nc), ('eratio', 'f8', nc), ('vmaskfile', 'S%d' % (len(vfiles[i]) + 1))]
        e = np.zeros(1, dtype=dt)
        e['zrange'], e['name'], e['run_afterburner'], e['apply_afterburner'] = [0.12, 0.38], name, d['run'], d['app']
        for k in ('cost_zrange', 'lstar_cushion', 'z_cushion', 'maxchi', 'nodes', 'etamin', 'n0', 'cmax', 'corrnodes', 'buffer', 'bias', 'eratio', 'vmaskfile'):
            e[k] = d[k]
        fitsio.write(fn, e, clobber=(i == 0), extname=name)
        cal[name] = d
    return cal


def galaxies(rs, case, s):
    n = case['n']
    extra = list(ZDT)
    if case['spec'] == 'ztrue':
        extra += [('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')]
    elif case['spec'] == 'zspec':
        extra += [('zspec', 'f4')]
    g = np.zeros(n, dtype=W.gal_dtype(4, extra))
    g['id'] = rs.permutation(n*3)[:n] + 1
    g['ra'], g['dec'] = W.offset(10., 0., rs.uniform(-14, 14, n), rs.uniform(-14, 14, n))
    z = rs.uniform(0.05, 0.45, n)
    g['zred_uncorr'], g['zred_uncorr_e'] = z, rs.uniform(0.005, 0.03, n)
    bad = rs.uniform(size=n) < 0.05
    g['zred_uncorr'][bad] = -1.0
    g['zred'] = g['zred_uncorr'] + 0.01
    g['zred_samp'] = g['zred_uncorr'][:, None] + rs.normal(0, 0.01, (n, 4))
    g['chisq'] = rs.choice([1.0, 5.0, 15.0], n)*rs.uniform(0, 1.5, n)
    g['refmag'] = s.zredstr.mstar(np.clip(z, 0.1, 0.4)) + rs.uniform(-2.0, 1.5, n)
    g['refmag_err'], g['mag'], g['mag_err'] = rs.uniform(0.01, 0.1, n), rs.uniform(15, 21, (n, 4)), rs.uniform(0.01, 0.1, (n, 4))
    if case['spec'] in ('ztrue', 'zspec'):
        g[case['spec']] = rs.uniform(0.1, 0.5, n)
    return g


def spectra(rs, g):
    """Spectroscopic file; per galaxy (expected redshift, ambiguous)."""
    n = g.size
    k = rs.choice([0, 0, 1, 2, 3], n)
    rows, exp = [], []
    for i in range(n):
        best = None
        for j in range(k[i]):
            d = rs.choice([0.3, 1.0, 2.0, 2.7, 3.4, 6.0])*(1 + 0.02*rs.uniform())
            ph = rs.uniform(0, 2*np.pi)
            ra, dec = W.offset(g['ra'][i], g['dec'][i], d*np.cos(ph)/3600., d*np.sin(ph)/3600.)
            err = rs.choice([0.0001, 0.0001, 0.0008, 0.0015, 0.01])
            zz = rs.uniform(0.1, 0.4)
            rows.append((ra, dec, zz, err))
    if not rows:
        rows.append((200.0, -50.0, 0.2, 0.0001))
    sp = np.array(rows, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    sp = sp[rs.permutation(sp.size)]
    if not np.any(sp['z_err'] < 0.001):
        sp['z_err'][0] = 0.0001
    fitsio.write('spec.fit', sp, clobber=True)
    ok = sp[sp['z_err'] < 0.001]
    for i in range(n):
        d = W.sep(g['ra'][i], g['dec'][i], ok['ra'], ok['dec'])*3600.
        o = np.argsort(d)
        if d[o[0]] < 2.98:
            exp.append((ok['z'][o[0]], d.size > 1 and d[o[1]] - d[o[0]] < 0.02))
        else:
            exp.append((np.float32(-1.0), d[o[0]] < 3.02))
    return exp


def reference(g, d, s, zmaxfun):
    """(must, may, zredmagic, zredmagic_e, samples, luminosity)."""
    z = g['zred_uncorr'].astype('f8')
    lo, hi = float(d['cost_zrange'][0]) - d['z_cushion'] - d['buffer'], float(d['cost_zrange'][1]) + d['z_cushion'] + d['buffer']
    chimax = np.clip(fixspline(d['nodes'], d['cmax'], z), 0.1, d['maxchi'])
    zr, ze, samp = z.copy(), g['zred_uncorr_e'].astype('f8'), g['zred_samp'].astype('f8')
    if d['run']:
        off = fixspline(d['corrnodes'], d['bias'], z)
        zr = z - off
        if d['app']:
            samp = samp - off[:, None]
        ze = ze*fixspline(d['corrnodes'], d['eratio'], z)
    m0, m1 = s.zredstr.mstar(z), s.zredstr.mstar(zr)
    minl = max(d['etamin'] - 0.05, 0.1)
    zmax = zmaxfun(g)
    def cut(e):
        f = 25*e
        return ((z > lo + e) & (z < hi - e) & (g['chisq'] < d['maxchi'] - e) & (g['refmag'] < m0 - 2.5*np.log10(minl) - f) & (g['chisq'] < chimax - e) &
                (g['refmag'] < m1 - 2.5*np.log10(d['etamin']) - f) & (zr < zmax - e))
    return cut(1e-3), cut(-1e-3), zr, ze, samp, 10.**((m1 - g['refmag'])/2.5)


def compare(what, got, g, ref, zs, nsel=None):
    must, may, zr, ze, samp, lum = ref
    ids = np.atleast_1d(got['id'])
    require(len(set(ids.tolist())) == ids.size, '%s: a galaxy is selected twice', what)
    pos = {int(x): i for i, x in enumerate(g['id'])}
    require(set(ids.tolist()) <= set(pos), '%s: selected an unknown galaxy', what)
    k = np.array([pos[int(x)] for x in ids], dtype=int)
    sel = np.zeros(g.size, dtype=bool)
    sel[k] = True
    require(not np.any(must & ~sel), '%s: a galaxy passing all cuts was not selected (id %s)', what, g['id'][must & ~sel][:3])
    require(not np.any(sel & ~may), '%s: a galaxy failing a cut was selected (id %s)', what, g['id'][sel & ~may][:3])
    for nm in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err', 'chisq'):
        require(np.array_equal(got[nm], g[nm][k]), '%s: %s of a selected galaxy is not its own', what, nm)
    for nm, v in (('zredmagic', zr), ('zredmagic_e', ze), ('zredmagic_samp', samp)):
        require(np.allclose(got[nm], v[k], atol=3e-6, rtol=1e-5), '%s: %s is %s, expected %s', what, nm, got[nm][:3], v[k][:3])
    require(np.allclose(got['lum'], lum[k], rtol=0.023), '%s: luminosity %s, expected %s', what, got['lum'][:3], lum[k][:3])
    for i, j in enumerate(k):
        require(zs[j][1] or got['zspec'][i] == zs[j][0], '%s: spectroscopic redshift %g, expected %g', what, got['zspec'][i], zs[j][0])
    return k


def setup(rs, case):
    s = S.survey()
    g = galaxies(rs, case, s)
    kw = {}
    zs = spectra(rs, g) if case['spec'] == 'file' else [(x, False) for x in g[case['spec']]]
    vf, maps = [], []
    os.makedirs('cal', exist_ok=True)
    for i, _ in enumerate(case['names']):
        if case['masks'][i % len(case['masks'])]:
            pix = np.unique(hpg.angle_to_pixel(32, g['ra'], g['dec']))
            pix = pix[rs.uniform(size=pix.size) < 0.85]
            if pix.size == 0:
                pix = np.array([0])
            val = np.zeros(pix.size, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
            val['fracgood'], val['zmax'] = rs.uniform(0.5, 1, pix.size), rs.uniform(0.15, 0.4, pix.size)
            m = healsparse.HealSparseMap.make_empty(16, 32, dtype=val.dtype, primary='fracgood')
            m.update_values_pix(pix, val)
            m.write('cal/zmask%d.hs' % i, clobber=True)
            vf.append('/elsewhere/zmask%d.hs' % i)
            look = dict(zip(pix.tolist(), val['zmax'].astype('f8').tolist()))
            maps.append(lambda x, look=look: np.array([look.get(int(p), 0.0) for p in hpg.angle_to_pixel(32, x['ra'], x['dec'])]))
        else:
            vf.append('')
            maps.append(lambda x: np.full(x.size, 0.38))
    cal = calibration(rs, case, 'cal/rm.fit', vf)
    return s, g, zs, cal, maps


def check_select(case):
    rs = np.random.RandomState(case['seed'])
    s, g, zs, cal, maps = setup(rs, case)
    conf = S.conf(s, redmagicfile='cal/rm.fit', specfile='spec.fit', zred_nsamp=4, area=100.0, outpath='out')
    sel = RedmagicSelector(conf)
    require(list(sel.modes) == list(case['names']), 'modes are %s, calibrated %s', list(sel.modes), case['names'])
    lab = False
    order = list(enumerate(case['names']))
    for i, name in order + order[:1]:
        cat = GalaxyCatalog(g.copy())
        before = cat._ndarray.copy()
        ref = reference(g, cal[name], s, maps[i])
        out, ind = sel.select_redmagic_galaxies(cat, name if not case['bytes'] else name.encode(), return_indices=True)
        require(all(np.array_equal(cat._ndarray[k], before[k]) for k in before.dtype.names), 'the input galaxies were changed')
        got = np.atleast_1d(out._ndarray)
        k = compare('mode %s' % name, got, g, ref, zs)
        require(np.array_equal(ind, k), 'the indices returned are not those of the rows')
        if k.size and k.size < g.size:
            lab = 'bias' if cal[name]['run'] else 'plain'
        # any part of the list, in any order, gives the same answer for each galaxy
        sub = rs.permutation(g.size)[:max(1, g.size//2)]
        o2 = np.atleast_1d(sel.select_redmagic_galaxies(GalaxyCatalog(g[sub]), name)._ndarray)
        want = {int(r['id']): r for r in got if r['id'] in set(g['id'][sub].tolist())}
        require(sorted(o2['id'].tolist()) == sorted(want), 'selection of a galaxy depends on the other galaxies')
        for r in o2:
            require(all(np.array_equal(r[x], want[int(r['id'])][x]) for x in o2.dtype.names if x != 'zspec'), 'values of a selected galaxy depend on the other galaxies')
    try:
        sel.select_redmagic_galaxies(GalaxyCatalog(g.copy()), 'nosuchmode')
    except RuntimeError:
        pass
    else:
        require(False, 'an unknown mode was accepted')
    return lab


def check_task(case):
    rs = np.random.RandomState(case['seed'])
    s, g, zs, cal, maps = setup(rs, case)
    if len(np.unique(hpg.angle_to_pixel(case['nside'], g['ra'], g['dec'], nest=False))) < 2:
        return False
    z = np.zeros(g.size, dtype=ZDT)
    for k in z.dtype.names:
        z[k] = g[k]
    base = [x for x in g.dtype.names if x not in z.dtype.names]
    gg = np.zeros(g.size, dtype=[(k, g.dtype[k].str) if not g.dtype[k].shape else (k, g.dtype[k].subdtype[0].str, g.dtype[k].shape) for k in base])
    for k in base:
        gg[k] = g[k]
    gf, zf, order = W.write_galtable('tab', 'g', gg, case['nside'], 4, S.BANDS, 'i', lim_ref=s.limmag, zreds=z, has_truth=case['spec'] == 'ztrue', has_zspec=case['spec'] == 'zspec')
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, galfile=gf, zredfile=zf, redmagicfile='cal/rm.fit', specfile='spec.fit', zred_nsamp=4, area=100.0, outpath='out', has_truth=case['spec'] == 'ztrue')
    shutil.copy('conf.yaml', 'out/conf.yaml')
    task = RunRedmagicTask('out/conf.yaml')
    if any(case['masks'][i % len(case['masks'])] and not reference(g, cal[nm], s, maps[i])[0].any() for i, nm in enumerate(case['names'])):
        case = dict(case, nrand=0)
    modes = None if case['all'] else case['names'][:1]
    task.run(modes=modes, do_plots=False, n_randoms=case['nrand'], rng=np.random.RandomState(3))
    lab = False
    for rep in range(2):
        for i, name in enumerate(case['names']):
            fn = conf.redmapper_filename('redmagic_%s' % name, withversion=True)
            if modes is not None and name not in modes:
                require(not os.path.isfile(fn), 'mode %s was not asked for', name)
                continue
            require(os.path.isfile(fn), 'no catalogue for mode %s', name)
            with fitsio.FITS(fn) as f:
                require(len(f) == 2, 'catalogue of %s has %d tables', name, len(f) - 1)
            got = fitsio.read(fn, ext=1, lower=True)
            ref = reference(g, cal[name], s, maps[i])
            k = compare('catalogue %s' % name, got, g, ref, zs)
            rf = conf.redmapper_filename('redmagic_%s_randoms' % name, withversion=True)
            mask = case['masks'][i % len(case['masks'])]
            if mask and case['nrand'] > 0 and k.size:
                r = fitsio.read(rf, ext=1, lower=True)
                require(r.size == case['nrand'] and np.all(np.isin(r['z'], got['zredmagic'])) and np.all(r['z'] < maps[i](r)), 'randoms of %s', name)
            else:
                require(not os.path.isfile(rf), 'randoms written for %s', name)
            if 0 < k.size < g.size:
                lab = 'randoms' if mask and case['nrand'] else 'catalogue'
        if rep:
            break
        try:
            RunRedmagicTask('out/conf.yaml').run(modes=modes, do_plots=False, n_randoms=0)
        except RuntimeError:
            pass
        else:
            require(False, 'existing catalogues were replaced although that was not asked for')
        if not case['again']:
            break
        RunRedmagicTask('conf.yaml', path='out').run(modes=modes, do_plots=False, n_randoms=case['nrand'], clobber=True, rng=np.random.RandomState(4))
    return lab


common = dict(seed=st.integers(0, 2**20), names=st.sampled_from([['highdens'], ['highdens', 'highlum'], ['a', 'highlum', 'higherlum']]), n=st.sampled_from([60, 60, 25, 25, 2, 1]),
              run=st.lists(st.booleans(), min_size=1, max_size=3), masks=st.lists(st.booleans(), min_size=1, max_size=3), spec=st.sampled_from(['file', 'ztrue', 'zspec']))
select = st.fixed_dictionaries(dict(common, bytes=st.booleans()))
task = st.fixed_dictionaries(dict(common, nside=st.sampled_from([4, 8]), all=st.booleans(), nrand=st.sampled_from([0, 30]), again=st.booleans()))

TESTS = [T('select-%d' % i, select, check_select, 120, 4000, 'some but not all galaxies selected') for i in range(2)] + \
        [T('task-%d' % i, task, check_task, 40, 1500, 'some but not all galaxies selected') for i in range(3)]
