"""C34: calibration of the redMaGiC selections."""
import os
import sys
from unittest import mock
import numpy as np
import fitsio
import hpgeom as hpg
import yaml
from hypothesis import strategies as st

from vp.core import T, require
from vp import synth as S, world as W
sys.modules['matplotlib.pyplot'] = mock.MagicMock()   # plots are slow, and not what is checked
from redmapper.configuration import Configuration
from redmapper.redmagic import RedmagicCalibrator
from redmapper.utilities import make_nodes
from props import c25

ASSUMPTIONS = ['statistical recovery is judged at several standard errors of the sample plus the tolerance of the minimiser and of the splines', 'diagnostic plots are not drawn',
               'there are more candidates than the density asked for at every redshift, and the afterburner is applied to the sampled redshifts']
FULL = 41252.961
ZB = 0.02


def galaxies(case, s, cosmo, rs):
    """Candidates uniform in volume; (galaxies, true redshifts, area)."""
    h = 0.5*np.sqrt(case['area'])
    area = 2*h*np.degrees(2*np.sin(np.radians(h)))
    ra0, dec0 = 40.0, 0.0
    zz = np.linspace(0.04, 0.46, 211)
    v = np.array([cosmo.V(a, b) for a, b in zip(zz[:-1], zz[1:])])*(area/FULL)*case['dens']*1e-4
    v = v*(1 + case['evol']*(zz[:-1] - 0.25))
    n = rs.poisson(v)
    z = np.repeat(zz[:-1], n) + rs.uniform(size=n.sum())*(zz[1] - zz[0])
    z = z[rs.permutation(z.size)]
    n = z.size
    g = np.zeros(n, dtype=W.gal_dtype(4, list(W.zred_dtype(4))))
    g['id'] = 10 + rs.permutation(3*n)[:n]
    g['ra'] = ra0 + rs.uniform(-h, h, n)
    g['dec'] = np.degrees(np.arcsin(rs.uniform(-1, 1, n)*np.sin(np.radians(h))))
    e = rs.uniform(0.006, 0.012, n)
    b = case['bias'][0] + case['bias'][1]*(z - 0.25)
    g['zred_uncorr'], g['zred_uncorr_e'] = z + b + e*case['eratio']*rs.normal(size=n), e
    g['zred'], g['zred_e'], g['zred2'], g['zred2_e'] = g['zred_uncorr'] + 0.2, 0.5, 0.2, 0.1
    g['zred_samp'] = g['zred_uncorr'][:, None] + e[:, None]*rs.normal(size=(n, 4))
    g['zred_samp'][:, 1:] += 0.1
    g['chisq'] = case['chiscale']*(1 + case['chievol']*(z - 0.25))*rs.chisquare(3, n)
    lum = 0.3 + rs.exponential(0.7, n)
    g['refmag'] = s.zredstr.mstar(np.clip(z, 0.1, 0.4)) - 2.5*np.log10(lum)
    g['refmag_err'], g['mag'], g['mag_err'] = 0.02, g['refmag'][:, None] + np.array([2., 1., 0., -.2])[:g['mag'].shape[1]], 0.02
    return g, z, area


def clusters(case, g, z, rs):
    """Cluster catalogue and members: redshifts of the members are the truth where p is high enough to count."""
    n = g.size
    m = np.flatnonzero(rs.uniform(size=n) < case['fmem'])
    good = rs.uniform(size=m.size) < 0.6
    mem = np.zeros(m.size, dtype=[('mem_match_id', 'i4'), ('id', 'i8'), ('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('p', 'f4'), ('pcol', 'f4'), ('chisq', 'f4'), ('refmag', 'f4')])
    mem['mem_match_id'], mem['id'], mem['ra'], mem['dec'] = rs.randint(1, 20, m.size), g['id'][m], g['ra'][m], g['dec'][m]
    mem['z'] = np.where(good, z[m], z[m] + 0.06)
    mem['p'] = np.where(good, rs.uniform(case['pcut'] + 0.001, 1, m.size), rs.uniform(0, case['pcut'] - 0.001, m.size))
    mem['pcol'] = rs.uniform(size=m.size)
    stray = mem[:5].copy()
    stray['id'] = 10**7 + np.arange(stray.size)
    stray['z'], stray['p'] = 0.9, 1.0
    cat = np.zeros(20, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('lambda', 'f4')])
    cat['mem_match_id'], cat['z_lambda'], cat['z_lambda_e'] = 1 + np.arange(20), 0.25, 0.01
    fitsio.write('cat.fit', cat, clobber=True)
    fitsio.write('cat_members.fit', np.concatenate([mem, stray])[rs.permutation(mem.size + stray.size)], clobber=True)
    sp = np.zeros(50, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    k = rs.choice(n, 50, replace=False)
    sp['ra'], sp['dec'], sp['z'], sp['z_err'] = g['ra'][k], g['dec'][k], z[k], np.where(np.arange(50) % 5 == 0, 0.0015, 1e-4)
    fitsio.write('spec.fit', sp, clobber=True)
    e = np.full(n, -1.0, dtype='f4')
    ok = sp[sp['z_err'] < 0.001]
    near = [np.flatnonzero(W.sep(a, b, g['ra'], g['dec']) < 3.1/3600.) for a, b in zip(ok['ra'], ok['dec'])]
    amb = np.zeros(n, dtype=bool)
    for x, r in zip(near, ok):
        e[x] = r['z']
        amb[x] = x.size > 1
    return list(zip(e, amb))


def write(case, s, g, area):
    zd = np.zeros(g.size, dtype=W.zred_dtype(4))
    gg = np.zeros(g.size, dtype=W.gal_dtype(4))
    for x in (zd, gg):
        for k in x.dtype.names:
            x[k] = g[k]
    return W.write_galtable('tab', 'g', gg, 32, 4, S.BANDS, 'i', lim_ref=s.limmag, zreds=zd, area=area)[:2]


def ranges(case, i):
    lo, hi = case['zrange'][0] + case['buffer'], case['zmaxes'][i] - case['buffer']
    n = int(np.ceil((hi - lo)/ZB))
    return lo, lo + n*ZB, n


def configuration(case, s, gf, zf, area, names, **kw):
    sel = [case['names'].index(x) for x in names]
    pick = lambda v: [float(v[i]) for i in sel]
    os.makedirs(case['out'], exist_ok=True)
    c = S.conf(s, galfile=gf, zredfile=zf, catfile='cat.fit', specfile='spec.fit', zred_nsamp=4, area=float(area), outpath=case['out'], redmagic_zrange=list(case['zrange']),
               redmagic_names=list(names), redmagic_etas=pick(case['etas']), redmagic_n0s=pick(case['n0s']), redmagic_zmaxes=pick(case['zmaxes']),
               redmagic_use_constchi=case['const'], redmagic_constchis=pick(case['chis']), redmagic_run_afterburner=case['ab'], calib_corr_pcut=case['pcut'],
               redmagic_calib_redshift_buffer=case['buffer'], redmagic_calib_zbinsize=ZB, redmagic_calib_chisqcut=case['chisqcut'], **kw)
    os.makedirs(os.path.join(c.outpath, c.plotpath), exist_ok=True)
    return c


def run(case, names, s, gf, zf, area, **kw):
    do = kw.pop('do_run', False)
    c = configuration(case, s, gf, zf, area, names, **kw)
    if case['config'] != 'conf.yaml':
        os.replace('conf.yaml', case['config'])
        c = Configuration(case['config'])
    before = open(case['config']).read()
    np.random.seed(case['seed'])
    cal = RedmagicCalibrator(c)
    cal.run(do_run=do)
    require(open(case['config']).read() == before, 'the configuration file was changed')
    fn = c.redmagicfile
    require(os.path.dirname(os.path.abspath(fn)) == os.path.abspath(case['out']), 'the calibration went to %s', fn)
    out = []
    with fitsio.FITS(fn) as f:
        require(len(f) == 1 + len(names), '%d selections in the calibration file, configured %d', len(f) - 1, len(names))
        for i in range(len(names)):
            require(f[i + 1].get_extname().strip().lower() == names[i].lower(), 'extension %s for %s', f[i + 1].get_extname(), names[i])
            out.append(fitsio.read(fn, ext=i + 1, lower=True)[0])
    return c, cal, out


def t_calib(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    cosmo = Configuration(S.conf(s).configfile).cosmo
    names = case['names']
    frac = np.exp(-(np.array([dict(a=0.5, highdens=0.5, highlum=1.0, x=0.7)[x] for x in names]) - 0.3)/0.7)
    case = dict(case, etas=[dict(a=0.5, highdens=0.5, highlum=1.0, x=0.7)[x] for x in names], zmaxes=[case['zmax'] - 0.02*i for i in range(len(names))])
    case['show'] = bool(os.environ.get('SHOW'))
    case['n0s'] = [round(float(f)*case['dens']/case['over'], 3) for f in frac]
    case['chis'] = [case['chiscale']*(2.0 + i) for i in range(len(names))]
    if case['mask']:
        case['area'] = 50.0
    g, z, area = galaxies(case, s, cosmo, rs)
    zs = clusters(case, g, z, rs)
    gf, zf = write(case, s, g, area)
    kw = {}
    zmaxf = lambda x: np.full(x.size, 0.38)
    if case['mask']:
        ns = 128
        h = 0.5*np.sqrt(case['area']) - 0.6
        pix = np.unique(hpg.angle_to_pixel(ns, g['ra'], g['dec']))
        pr, pd = hpg.pixel_to_angle(ns, pix)
        keep = pix[(pr < 40.4) & (pr > 40.0 - h) & (np.abs(pd) < h)]
        S.hs_mask('mask.hs', ns, {int(p): 1.0 for p in keep})
        kw.update(maskfile='mask.hs', mask_mode=3)
        inside = set(keep.tolist())
        zmaxf = lambda x: np.where([int(p) in inside for p in hpg.angle_to_pixel(ns, x['ra'], x['dec'])], 0.38, 0.0)
        area_m = keep.size*hpg.nside_to_pixel_area(ns)
    else:
        area_m = area
    if case['again']:
        run(case, names[::-1][:1], s, gf, zf, area, **kw)
    c, cal, out = run(case, names, s, gf, zf, area, do_run=case['do_run'], **kw)
    lab = False
    for i, name in enumerate(names):
        t = out[i]
        lo, hi, nb = ranges(case, i)
        txt = lambda v: (v.decode() if hasattr(v, 'decode') else str(v)).rstrip('\x00 ')
        require(txt(t['name']) == name and t['etamin'] == case['etas'][i] and t['n0'] == case['n0s'][i], '%s: name, threshold or density is %s %s %s', name, t['name'], t['etamin'], t['n0'])
        require(np.allclose(t['zrange'], [case['zrange'][0], case['zmaxes'][i]], atol=1e-6) and np.allclose(t['cost_zrange'], [lo, hi], atol=1e-6), '%s: ranges %s %s', name, t['zrange'], t['cost_zrange'])
        require(abs(t['maxchi'] - case['chisqcut']) < 1e-5 and abs(t['buffer'] - case['buffer']) < 1e-6 and bool(t['run_afterburner']) == case['ab'] and t['apply_afterburner'] == 1, '%s: settings', name)
        require(np.allclose(t['nodes'], make_nodes([lo, hi], 0.05)) and np.allclose(t['corrnodes'], make_nodes([lo, hi], 0.05)), '%s: nodes', name)
        vf = txt(t['vmaskfile'])
        require(bool(vf) == bool(case['mask']) and (not vf or os.path.isfile(vf)), '%s: volume mask %r', name, vf)
        if case['const']:
            require(np.allclose(t['cmax'], case['chis'][i]), '%s: chi-squared %s, configured %s', name, t['cmax'], case['chis'][i])
        if not case['ab']:
            require(np.all(t['bias'] == 0) and np.all(t['eratio'] == 1), '%s: corrections without the afterburner', name)
        d = dict(cost_zrange=t['cost_zrange'], lstar_cushion=t['lstar_cushion'], z_cushion=t['z_cushion'], maxchi=t['maxchi'], etamin=float(t['etamin']), run=int(t['run_afterburner']), app=1,
                 buffer=t['buffer'], nodes=t['nodes'], cmax=t['cmax'], corrnodes=t['corrnodes'], bias=t['bias'], eratio=t['eratio'])
        ref = c25.reference(g, d, s, zmaxf)
        sel, samp = ref[0], ref[4][:, 0]
        edges = lo + ZB*np.arange(nb + 1)
        h = np.histogram(samp[sel], edges)[0]
        want = np.array([cosmo.V(a, b) for a, b in zip(edges[:-1], edges[1:])])*area_m/FULL*case['n0s'][i]*1e-4
        stat = (h - want)/np.sqrt(want)
        if case.get('show'):
            print(name, 'counts', h, 'want', want.round(1), 'chi2/nb %.2f' % np.mean(stat**2), 'tot %.3f' % (h.sum()/want.sum()), 'cmax', t['cmax'].round(2), 'nodes', t['nodes'].round(3))
        if not case['const']:
            require(abs(h.sum()/want.sum() - 1) < 0.03 + 2/np.sqrt(want.sum()), '%s: %d galaxies selected in the calibrated range, the density asked for gives %.0f', name, h.sum(), want.sum())
            require(np.mean(stat**2) < 3.5, '%s: counts %s, the density asked for gives %s', name, h, want.round(1))
        if case['ab']:
            zt = np.linspace(lo, hi, 15)
            bt = case['bias'][0] + case['bias'][1]*(zt - case['bias'][0] - 0.25)
            bb = W.natural_spline(t['corrnodes'].astype('f8'), t['bias'].astype('f8'), zt)
            ee = W.natural_spline(t['corrnodes'].astype('f8'), t['eratio'].astype('f8'), zt)
            if case.get('show'):
                print('  bias', (bb - bt).round(4), 'eratio', (ee/case['eratio']).round(2))
            nm = max(sel.sum()*case['fmem']*0.3/len(t['corrnodes']), 1)
            few = nm < 12
            require(few or np.median(np.abs(bb - bt)) < 0.0015 + 4*0.012/np.sqrt(nm), '%s: bias %s, planted %s', name, bb, bt)
            require(few or np.median(np.abs(ee/case['eratio'] - 1)) < 0.08 + 4/np.sqrt(nm), '%s: error ratio %s, planted %g', name, ee, case['eratio'])
        lab = 'const' if case['const'] else ('afterburner' if case['ab'] else 'plain')
        fn = os.path.join(case['out'], os.path.basename(c.redmapper_filename('redmagic_%s' % name, withversion=True)))
        if case['do_run']:
            require(os.path.isfile(fn), 'no catalogue %s', fn)
            c25.compare('catalogue %s' % name, fitsio.read(fn, ext=1, lower=True), g, ref, zs)
        else:
            require(not os.path.isfile(fn), 'a catalogue was made although that was not asked for')
    rf = os.path.abspath(cal.runfile)
    require(os.path.dirname(rf) == os.path.abspath(case['out']) and os.path.basename(rf) != case['config'] and os.path.isfile(rf), 'run configuration %s', rf)
    y = yaml.safe_load(open(rf))
    require(y['redmagicfile'] == c.redmagicfile and not y['hpix'] and y['nside'] == 0 and y['area'] is None, 'run configuration: %s %s %s %s', y['redmagicfile'], y['hpix'], y['nside'], y['area'])
    c2 = Configuration(rf)
    require(c2.galfile == gf and c2.zredfile == zf and list(c2.redmagic_names) == list(names) and c2.parfile == s.parfile, 'the run configuration reads %s', c2.galfile)
    return lab


calib = st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**20), names=st.sampled_from([['highdens'], ['highdens', 'highlum'], ['x', 'highlum', 'a']]), area=st.sampled_from([12.0, 25.0]) , dens=st.sampled_from([30.0, 45.0]),
    evol=st.sampled_from([0.0, 1.0, -1.0]), bias=st.sampled_from([(0.0, 0.0), (0.006, 0.05), (-0.008, 0.03), (0.004, -0.05)]), eratio=st.sampled_from([1.0, 0.8, 1.25]), chiscale=st.sampled_from([1.0, 1.5]),
    chievol=st.sampled_from([0.0, 1.5, -1.5]), over=st.sampled_from([2.0, 3.0]), fmem=st.sampled_from([0.3, 0.6]), pcut=st.sampled_from([0.5, 0.7, 0.9]), const=st.sampled_from([False, False, False, True]),
    ab=st.sampled_from([True, True, False]), zrange=st.just((0.12, 0.36)), zmax=st.sampled_from([0.36, 0.33]), buffer=st.sampled_from([0.03, 0.035]), chisqcut=st.sampled_from([20.0, 15.0]), mask=st.sampled_from([False, False, True]),
    again=st.booleans(), do_run=st.booleans(), out=st.sampled_from(['out', '.']), config=st.sampled_from(['conf.yaml', 'cal.yml', 'my_cal_example.yaml'])))

TESTS = [T('calib-%d' % i, calib, t_calib, 8, 400, 'calibration converged and was compared') for i in range(4)]
