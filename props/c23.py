"""C23: configurations."""
import os
import numpy as np
import fitsio
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W
from vp.fields import FIELDS
from redmapper.configuration import Configuration

ASSUMPTIONS = ['one configuration is in use at a time (settings are shared by all Configuration objects of a process)',
               'defaults are those of this version (vp/fields.py)', 'None is not a value of an array setting']

TABLE = ['nmag', 'limmag_ref', 'ref_ind', 'zeropoint', 'survey_mode', 'b', 'galfile_nside', 'bands', 'galfile_has_truth', 'galfile_has_zspec', 'galfile_pixelized']
SPECIAL = TABLE + ['galfile', 'refmag', 'outbase', 'zrange', 'area', 'limmag_catalog', 'specfile_train', 'redmagic_zrange', 'version', 'hpix', 'nside', 'outpath',
                   'plotpath', 'wcenfile', 'maskfile', 'mask_mode', 'depthfile', 'has_truth', 'centering_use_zspec', 'vlim_depthfiles', 'vlim_bands', 'vlim_nsigs',
                   'bkg_local_annuli', 'calib_colormem_zbounds', 'calib_colormem_colormodes', 'calib_colormem_sigint', 'calib_color_nodesizes',
                   'calib_slope_nodesizes', 'calib_color_maxnodes', 'calib_covmat_maxnodes', 'redmagic_n0s', 'redmagic_etas', 'redmagic_names', 'redmagic_zmaxes']
FREE = [k for k in FIELDS if k not in SPECIAL]
WCEN = dict(wcen_Delta0='delta0', wcen_Delta1='delta1', wcen_sigma_m='sigma_m', wcen_pivot='pivot', lnw_fg_mean='lnw_fg_mean', lnw_fg_sigma='lnw_fg_sigma',
            lnw_sat_mean='lnw_sat_mean', lnw_sat_sigma='lnw_sat_sigma', lnw_cen_mean='lnw_cen_mean', lnw_cen_sigma='lnw_cen_sigma')
PHI1 = dict(phi1_mmstar_m='phi1_mmstar_m', phi1_mmstar_slope='phi1_mmstar_slope', phi1_msig_m='phi1_msig_m', phi1_msig_slope='phi1_msig_slope')
MODES = ['SDSS', 'DES', 'LSST']


def value(rs, k):
    kind, dflt = FIELDS[k]
    if kind in 'al':
        return [round(float(x), 4) for x in rs.uniform(0.01, 3, max(1, rs.randint(1, 4)))]
    if isinstance(dflt, bool):
        return bool(rs.randint(2))
    if isinstance(dflt, int):
        return int(rs.randint(1, 50))
    if isinstance(dflt, float):
        return float(rs.choice([rs.uniform(-2, 5), 1e-7*rs.uniform(), 12345.678]))
    if k.startswith(('percolation_', 'calib_')) and dflt is None:
        return float(rs.uniform(0.1, 0.9)) if k != 'calib_redgal_template' else 'bc03'
    return '/some/where/%s_%d.fit' % (k, rs.randint(1000)) if dflt is None else '%s%d' % (dflt, rs.randint(9))


def table(rs, i, t):
    """Write a galaxy table; the values a configuration must take from it."""
    nmag = t['nmag']
    bands = list('ugrizy'[:nmag]) if not t['shuffle'] else [str(x) for x in rs.permutation(list('ugrizy'))[:nmag]]
    ref = bands[rs.randint(nmag)]
    n = 6
    extra = ([('ztrue', 'f4'), ('m200', 'f4'), ('central', 'i2'), ('halo_id', 'i8')] if t['truth'] else []) + ([('zspec', 'f4')] if t['zspec'] else [])
    g = np.zeros(n, dtype=W.gal_dtype(nmag, extra))
    g['id'], g['ra'], g['dec'], g['refmag'] = np.arange(n), np.linspace(10, 60, n), 5., 18.
    lim, area, zp = float(np.float32(rs.uniform(19, 24))), float(rs.uniform(10, 5000)), 22.5 if t['mode'] == 'SDSS' else 30.0
    b = rs.uniform(1e-10, 1e-9, nmag) if t['b'] else None
    exp = dict(nmag=nmag, limmag_ref=lim, ref_ind=bands.index(ref), zeropoint=zp, survey_mode=MODES.index(t['mode']), bands=bands,
               galfile_has_truth=t['truth'], galfile_has_zspec=t['zspec'], galfile_pixelized=t['pix'])
    if t['pix']:
        gf = W.write_galtable('tab%d' % i, 'g', g, 4, nmag, bands, ref, lim_ref=lim, area=area, mode=t['mode'], b=b, zeropoint=zp,
                              has_truth=t['truth'], has_zspec=t['zspec'])[0]
        exp['galfile_nside'] = 4
        exp['b'] = b
    else:
        os.makedirs('tab%d' % i, exist_ok=True)
        gf = 'tab%d/flat.fit' % i
        h = [dict(name='PIXELS', value=0), dict(name='FITS', value=1), dict(name='MODE', value=t['mode']), dict(name='AREA', value=area), dict(name='LIM_REF', value=lim),
             dict(name='NMAG', value=nmag), dict(name='ZP', value=zp), dict(name='REF_IND', value=bands.index(ref))]
        h += [dict(name='%s_IND' % x.upper(), value=j) for j, x in enumerate(bands)]
        fitsio.write(gf, g, header=h, clobber=True)
        exp['galfile_nside'] = 0
        exp['b'] = None
    return gf, ref, area, exp


def settings(rs, i, c):
    """A valid configuration file; (dict written, expected settings)."""
    gf, ref, area, exp = table(rs, i, c['table'])
    nmag = exp['nmag']
    y = dict(galfile=gf, refmag=ref, outbase='run%d' % i, zrange=[round(float(rs.uniform(0.1, 0.3)), 3), round(float(rs.uniform(0.4, 0.9)), 3)],
             calib_color_nodesizes=[float(x) for x in rs.uniform(.01, .1, nmag - 1)], calib_slope_nodesizes=[0.1]*(nmag - 1),
             calib_color_maxnodes=[-1.0]*(nmag - 1), calib_covmat_maxnodes=[-1.0]*(nmag - 1), outpath='o%d' % i)
    for k in rs.permutation(FREE)[:c['nset']]:
        y[str(k)] = value(rs, str(k))
    # groups with joint constraints
    if c['groups'] & 1:
        y.update(redmagic_n0s=[1e-3, 2e-4], redmagic_etas=[0.5, 1.0], redmagic_names=['lo', 'hi'], redmagic_zmaxes=[0.5, 0.7])
    if c['groups'] & 2:
        nb = rs.randint(1, nmag)
        y.update(vlim_depthfiles=['d%d.hs' % j for j in range(nb)], vlim_bands=exp['bands'][:nb], vlim_nsigs=[5.0 + j for j in range(nb)])
    if c['groups'] & 4:
        y.update(calib_colormem_zbounds=[0.3, 0.6], calib_colormem_colormodes=[0, 1, 1], calib_colormem_sigint=[.05, .04, .03])
    if c['groups'] & 8:
        y.update(bkg_local_annuli=[1.5, 4.5], redmagic_zrange=[0.2, 0.5])
    if c['groups'] & 16:
        y['area'] = area if c['groups'] & 1 else 77.25
    if c['groups'] & 32:
        y.update(hpix=[3, 5] if c['groups'] & 2 else 7, nside=4, area=42.0, border=0.5)
    if c['groups'] & 64:
        y.update(limmag_catalog=18.75, specfile_train='train.fit', specfile='spec.fit', maskfile='m.hs', mask_mode=3)
    elif rs.randint(2):
        y['specfile'] = 'spec2.fit'
    if c['wcen'] and c['wcen'] != 'missing':
        cols = dict(WCEN)
        if c['wcen'] == 'phi1':
            cols.update(PHI1)
        w = np.zeros(1, dtype=[(v.upper() if c['upper'] else v, 'f8') for v in cols.values()])
        for v in w.dtype.names:
            w[v] = rs.uniform(-3, 3)
        fitsio.write('wcen%d.fit' % i, w, clobber=True)
        y['wcenfile'] = 'wcen%d.fit' % i
        wv = {k: float(w[v.upper() if c['upper'] else v][0]) for k, v in cols.items()}
    else:
        wv = {}
        if c['wcen']:
            y['wcenfile'] = 'nowhere.fit'
    m = {k: v for k, (kd, v) in FIELDS.items()}
    m.update(y)
    if m['hpix'] == 7:
        m['hpix'] = [7]
    m.update({k: v for k, v in exp.items() if v is not None})
    if m['area'] is None or abs(m['area'] - area) <= 0.001:
        m['area'] = area
    if m['limmag_catalog'] is None:
        m['limmag_catalog'] = m['limmag_ref']
    m.update(wv)
    if m['specfile_train'] is None:
        m['specfile_train'] = m['specfile']
    if len(m['redmagic_zrange']) == 0:
        m['redmagic_zrange'] = m['zrange']
    if exp['b'] is None:
        m['b'] = None
    m['_wcen'] = wv
    return y, m


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, (list, tuple, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.size == 0 or (np.array_equal(a, b) if b.dtype.kind in 'US' else np.allclose(a.astype('f8'), b.astype('f8'), rtol=1e-6, atol=0)))
    if isinstance(b, str):
        return str(a) == b
    return abs(float(a) - float(b)) <= 1e-6*abs(float(b))


def compare(c, m, what):
    for k in FIELDS:
        require(same(getattr(c, k), m[k]), '%s: %s is %r, expected %r', what, k, getattr(c, k), m[k])
    d = c.d
    require(d.outbase == m['outbase'] and same(d.hpix, m['hpix']) and d.nside == m['nside'], '%s: working copies of outbase, hpix, nside', what)
    for nm, n in (('cluster_dtype', 'MAG'), ('member_dtype', 'MAG')):
        x = [t for t in getattr(c, nm) if t[0].upper() == n]
        require(len(x) == 1 and x[0][2] == m['nmag'], '%s: %s holds %s', what, nm, x)
    for k in ('RA_CENT', 'P_CEN'):
        x = [t for t in c.cluster_dtype if t[0].upper() == k]
        require(len(x) == 1 and x[0][2] == m['percolation_maxcen'], '%s: %s length', what, k)
    x = [t for t in c.cluster_dtype if t[0].upper() == 'PZ']
    require(len(x) == 1 and x[0][2] == m['npzbins'], '%s: PZ length', what)
    names = [t[0].upper() for t in c.cluster_dtype]
    require(len(names) == len(set(names)), '%s: repeated cluster columns', what)
    zc = c.zrange_cushioned
    cu = m['calib_zrange_cushion']
    require(np.allclose(zc, [max(m['zrange'][0] - cu, 0.05), m['zrange'][1] + cu]) and same(c.zrange, m['zrange']), '%s: cushioned redshift range', what)
    require(os.path.isdir(m['outpath']), '%s: output path not made', what)


def filenames(c, m, rs):
    o, v = m['outbase'], c.version
    for nm in ('pars', 'a_b_catalog'):
        for ft in ('fit', 'txt'):
            for ver in (False, True):
                for ob in (None, 'other'):
                    stem = '%s%s_%s.%s' % (ob or o, '_redmapper_v%s' % v if ver else '', nm, ft)
                    require(c.redmapper_filename(nm, filetype=ft, withversion=ver, outbase=ob) == os.path.join(m['outpath'], stem), 'file name of %s', stem)
                    require(c.redmapper_filename(nm, paths=('x', 'y'), filetype=ft, withversion=ver, outbase=ob) == os.path.join(m['outpath'], 'x', 'y', stem), 'file name of %s', stem)
    require(c.d.outbase == o, 'outbase changed by a file name')
    for f in ('zredfile', 'bkgfile', 'parfile', 'zlambdafile', 'randfile'):
        p = 'exists_%s.fit' % f
        old = getattr(c, f)
        open(p, 'w').close()
        setattr(c, f, p)
        c.check_files(**{'check_' + f: True})
        setattr(c, f, p + 'x')
        refused(lambda: c.check_files(**{'check_' + f: True}), 'missing %s not noticed' % f)
        setattr(c, f, old)


def refused(f, msg):
    try:
        f()
    except Exception:
        return
    raise Violation(msg)


BAD = ['unknown', 'typo', 'case', 'method', 'nogal', 'norefmag', 'nooutbase', 'nozrange', 'zrange1', 'zrange3', 'nodes', 'maxnodes', 'colormem', 'vlimband', 'vlimlen',
       'vliminvalid', 'redmagic', 'annuli', 'mask', 'truth', 'zspec', 'subregion', 'mode', 'nofits']


def spoil(rs, kind, y, m):
    y = dict(y)
    if kind == 'unknown':
        y['no_such_setting'] = 3
    elif kind == 'typo':
        k = str(rs.choice(FREE))
        y[k + '_'] = 1.0
    elif kind == 'case':
        y[str(rs.choice(FREE)).upper()] = 1.0
    elif kind == 'method':
        y[str(rs.choice(['copy', 'validate', 'redmapper_filename', 'zrange_cushioned', 'output_yaml', '__init__']))] = 1
    elif kind in ('nogal', 'norefmag', 'nooutbase', 'nozrange'):
        y.pop(dict(nogal='galfile', norefmag='refmag', nooutbase='outbase', nozrange='zrange')[kind])
    elif kind == 'zrange1':
        y['zrange'] = 0.3
    elif kind == 'zrange3':
        y['zrange'] = [0.1, 0.2, 0.5]
    elif kind in ('nodes', 'maxnodes'):
        k = str(rs.choice(['calib_color_nodesizes', 'calib_slope_nodesizes'] if kind == 'nodes' else ['calib_color_maxnodes', 'calib_covmat_maxnodes']))
        y[k] = [0.1]*(m['nmag'] - 1 + int(rs.choice([-1, 1])))
        if len(y[k]) == 0:
            y[k] = [0.1]*(m['nmag'] + 2)
    elif kind == 'colormem':
        y.update(calib_colormem_zbounds=[0.3, 0.4], calib_colormem_colormodes=[1, 1, 1], calib_colormem_sigint=[.1, .1, .1])
        y[str(rs.choice(['calib_colormem_colormodes', 'calib_colormem_sigint']))] = [1, 1]
    elif kind == 'vlimband':
        y.update(vlim_depthfiles=['d'], vlim_bands=['Q'], vlim_nsigs=[5.0])
    elif kind == 'vlimlen':
        y.update(vlim_depthfiles=['d', 'e'], vlim_bands=[m['bands'][0], m['bands'][1]], vlim_nsigs=[5.0, 5.0])
        y[str(rs.choice(['vlim_bands', 'vlim_nsigs']))] = [m['bands'][0]] if rs.randint(2) else []
    elif kind == 'vliminvalid':
        y.update(vlim_depthfiles=['d', 'e'], vlim_bands=[m['bands'][0], 'Q'], vlim_nsigs=[5.0, 5.0])
    elif kind == 'redmagic':
        y.update(redmagic_n0s=[1e-3, 2e-4], redmagic_etas=[0.5, 1.0], redmagic_names=['lo', 'hi'], redmagic_zmaxes=[0.5, 0.7])
        k = str(rs.choice(['redmagic_n0s', 'redmagic_etas', 'redmagic_zmaxes']))
        y[k] = y[k][:1]
    elif kind == 'annuli':
        y['bkg_local_annuli'] = [3.0, 2.0] if rs.randint(2) else [1.0, 2.0, 3.0]
    elif kind == 'mask':
        y.update(maskfile='m.hs', mask_mode=0)
    elif kind == 'truth':
        if m['galfile_has_truth']:
            return None
        y['has_truth'] = True
    elif kind == 'zspec':
        if m['galfile_has_zspec']:
            return None
        y['centering_use_zspec'] = True
    elif kind == 'subregion':
        y.pop('area', None)
        y.update(hpix=[1], nside=4)
    elif kind in ('mode', 'nofits'):
        a, h = fitsio.read(y['galfile'], ext=1, header=True)
        keep = {k: h[k] for k in h.keys() if k.endswith('_IND') or k in ('PIXELS', 'FITS', 'MODE', 'AREA', 'LIM_REF', 'NMAG', 'ZP')}
        if kind == 'mode':
            if 'mode' in [n.lower() for n in a.dtype.names]:
                nm = [n for n in a.dtype.names if n.lower() == 'mode'][0]
                a[nm] = 'FOO' if a[nm].dtype.kind == 'U' else b'FOO'
            keep['MODE'] = 'FOO' if 'MODE' in keep else None
        else:
            keep['FITS'] = 0
        y['galfile'] = os.path.join(os.path.dirname(y['galfile']), 'bad.fit')
        fitsio.write(y['galfile'], a, header=[dict(name=k, value=v) for k, v in keep.items() if v is not None], clobber=True)
    return y


def check(case):
    rs = np.random.RandomState(case['seed'])
    confs = [settings(rs, i, c) for i, c in enumerate(case['confs'])]
    cur, m, hist = None, None, []
    n = 0
    for op, x in [('load', case['seed'])] + list(case['ops']):
        if op == 'load' or cur is None:
            y, m0 = confs[x % len(confs)]
            m = dict(m0)
            fn = W.write_config('c%d.yml' % (x % len(confs)), y)
            if x % 3 == 2:
                cur = Configuration(fn, outpath='elsewhere')
                m['outpath'] = 'elsewhere'
            else:
                cur = Configuration(fn)
            compare(cur, m, 'load (after %s)' % ','.join(hist))
            n += len(hist) > 0
        elif op == 'set':
            k = FREE[x % len(FREE)]
            v = value(rs, k)
            setattr(cur, k, np.array(v) if isinstance(v, list) and x % 2 else v)
            m[k] = v
            compare(cur, m, 'setting %s' % k) if k not in ('percolation_maxcen', 'npzbins') else None
            if k in ('percolation_maxcen', 'npzbins'):
                cur, m = None, None
        elif op == 'poke':
            arr = [k for k in FIELDS if FIELDS[k][0] in 'al' and m[k] is not None and len(m[k]) and not isinstance(m[k][0], str) and k not in ('zrange', 'redmagic_zrange', 'hpix', 'bkg_local_annuli')
                   and k not in TABLE]
            k = arr[x % len(arr)]
            v = list(m[k])
            v[0] = 0.75
            cur_v = getattr(cur, k)
            if isinstance(cur_v, np.ndarray) and cur_v.dtype.kind == 'i':
                v[0] = 1
            cur_v[0] = v[0]
            m[k] = v
            compare(cur, m, 'changing %s in place' % k)
        elif op == 'names':
            filenames(cur, m, rs)
        elif op == 'write':
            cur.output_yaml('out.yml')
            cur = Configuration('out.yml')
            m.update(m['_wcen'])        # always read from the centering file
            compare(cur, m, 'written and loaded again (after %s)' % ','.join(hist))
            n += 1
        elif op == 'bad':
            y0, m0 = confs[(x // 31) % len(confs)]
            y = spoil(rs, BAD[x % len(BAD)], y0, m0)
            if y is None:
                continue
            fn = W.write_config('bad.yml', y)
            refused(lambda: Configuration(fn), 'configuration with bad %s accepted' % BAD[x % len(BAD)])
            cur, m = None, None
            n += 1
        hist.append(op)
    return n > 0 and ','.join(sorted(set(hist)))


conf = st.fixed_dictionaries(dict(
    table=st.fixed_dictionaries(dict(nmag=st.integers(2, 6), shuffle=st.booleans(), truth=st.booleans(), zspec=st.booleans(), b=st.booleans(), mode=st.sampled_from(MODES),
                                     pix=st.sampled_from([True, True, False]))),
    nset=st.integers(0, 40), groups=st.integers(0, 127), wcen=st.sampled_from([None, 'plain', 'phi1', 'missing']), upper=st.booleans()))
cases = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), confs=st.lists(conf, min_size=1, max_size=3),
                                   ops=st.lists(st.tuples(st.sampled_from(['load', 'load', 'set', 'poke', 'names', 'write', 'bad', 'bad']), st.integers(0, 10**6)).map(list), min_size=2, max_size=8)))

TESTS = [T('histories-%d' % i, cases, check, 150, 4000, 'a load after other operations, a write and reload, or a refused file') for i in range(3)]
