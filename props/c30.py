"""C30: training samples."""
import os
import numpy as np
import fitsio
from scipy import stats
from hypothesis import strategies as st

import matplotlib
matplotlib.use('Agg')
from vp.core import T, require, Violation
from vp import world as W
from redmapper.calibration import PrepMembers, SelectSpecSeeds, SelectSpecRedGalaxies
from redmapper.utilities import RedGalInitialColors
from redmapper import Catalog

ASSUMPTIONS = ['at least one cluster and one member pass the cuts', 'cluster identifiers are unique', 'separations stay 0.02 arcsec away from the match radius',
               'values stay 1e-5 away from a cut']


def away(x, cut, eps=1e-4):
    """Push values off a cut."""
    x = np.asarray(x)
    return np.where(np.abs(x - cut) < eps, x + 3*eps, x)


# ---------------------------------------------------------------- members
def t_members(case):
    rs = np.random.RandomState(case['seed'])
    nmag = case['nmag']
    nc = case['nc']
    ids = rs.choice(5*nc if case['ids'] == 'sparse' else nc, nc, replace=False) + (0 if case['ids'] == 'zero' else 1)
    minlam, pcut, nsig = case['minlam'], case['pcut'], case['nsig']
    cat = np.zeros(nc, dtype=[('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('Lambda', 'f4'), ('scaleval', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4'), ('z_init', 'f4'), ('cg_spec_z', 'f4')])
    cat['mem_match_id'] = ids
    cat['ra'], cat['dec'] = rs.uniform(0, 360, nc), rs.uniform(-80, 80, nc)
    cat['scaleval'] = rs.choice([1.0, 1.3, 2.0, 0.7], nc)
    s64 = cat['scaleval'].astype('f8')
    cat['Lambda'] = away(rs.uniform(0.2, 4, nc)*minlam, minlam, 1e-3)*s64
    cat['scaleval'][rs.uniform(size=nc) < 0.1] = -1.0
    cat['z_lambda'] = rs.uniform(0.1, 0.6, nc)
    cat['z_lambda_e'] = rs.uniform(0.003, 0.02, nc)
    for k in ('z_init', 'cg_spec_z'):
        cat[k] = cat['z_lambda'] + away(rs.normal(0, 0.7, nc)*nsig, nsig, 0.02)*cat['z_lambda_e']*rs.choice([-1, 1], nc)
    cat['cg_spec_z'][rs.uniform(size=nc) < 0.3] = -1.0
    nm = rs.poisson(case['mem'], nc)
    n = int(nm.sum())
    dt = W.gal_dtype(nmag, [('mem_match_id', 'i4'), ('z', 'f4'), ('r', 'f4'), ('p', 'f4'), ('pfree', 'f4'), ('pcol', 'f4'), ('theta_i', 'f4'), ('theta_r', 'f4')])
    mem = np.zeros(n, dtype=dt)
    mem['mem_match_id'] = np.repeat(ids, nm)
    mem['id'] = rs.permutation(n) + 1
    mem['ra'], mem['dec'] = rs.uniform(0, 360, n), rs.uniform(-80, 80, n)
    for k in ('mag', 'mag_err'):
        mem[k] = rs.uniform(14, 22, mem[k].shape)
    for k in ('refmag', 'refmag_err', 'ebv', 'z', 'pfree'):
        mem[k] = rs.uniform(0, 5, n)
    mem['r'] = rs.uniform(2e-4, 1.2, n)
    mem['p'], mem['theta_i'], mem['theta_r'] = rs.uniform(0, 1, n), rs.choice([1, 1, 0.7, 0.2], n), rs.choice([1, 1, 0.9, 0.4], n)
    mem['pcol'] = away(rs.uniform(0, 1, n)**2, pcut)
    prod = mem['p'].astype('f8')*mem['theta_i']*mem['theta_r']
    mem['p'][np.abs(prod - pcut) < 1e-4] *= 0.9
    first = np.zeros(n, bool)
    first[np.cumsum(np.r_[0, nm[:-1]])[nm > 0]] = True
    mem['r'][first & (rs.uniform(size=n) < 0.8)] = 0.0
    mem = mem[rs.permutation(n)] if case['shuffle'] else mem
    catf = os.path.abspath('dir.fit/cat.fit' if case['odd'] else 'cat.fit')
    os.makedirs(os.path.dirname(catf), exist_ok=True)
    fitsio.write(catf, cat[rs.permutation(nc)] if case['shuffle'] else cat)
    fitsio.write(catf[:-4] + '_members.fit', mem)
    bands = list('ugrizy'[:nmag])
    g = np.zeros(2, dtype=W.gal_dtype(nmag))
    g['ra'] = 10., 200.
    gt, _, _ = W.write_galtable('tab', 'gal', g, 8, nmag, bands, bands[-1], area=50.)
    W.write_config('c.yaml', W.min_config(nmag, galfile=os.path.abspath(gt), refmag=bands[-1], zrange=[0.1, 0.6], catfile=catf, zmemfile=os.path.abspath('zm.fit'), calib_minlambda=minlam, calib_pcut=pcut,
                                          calib_zlambda_clean_nsig=nsig, calib_smooth=case['smooth'], calib_colormem_zbounds=[0.4]))
    # oracle: a loop over members
    zc = {r['mem_match_id']: r for r in cat}
    col = 'z_init' if case['mode'] == 'z_init' else 'cg_spec_z'
    want = []
    for r in mem:
        c = zc[r['mem_match_id']]
        if not (c['scaleval'] > 0 and float(c['Lambda'])/float(c['scaleval']) > minlam and abs(float(c[col]) - float(c['z_lambda'])) < nsig*float(c['z_lambda_e'])):
            continue
        if float(r['p'])*float(r['theta_i'])*float(r['theta_r']) > pcut or r['pcol'] > pcut:
            want.append((r, c))
    if not want:
        return False
    conf = fitsio_free_config('c.yaml')
    np.random.seed(case['seed'] % 2**32)
    if case['mode'] == 'other':
        try:
            PrepMembers(conf).run('zspec')
        except RuntimeError:
            require(not os.path.exists('zm.fit'), 'a rejected mode left a file')
            return 'rejected'
        raise Violation('an unsupported mode was accepted')
    PrepMembers(conf if case['asconf'] else 'c.yaml').run(case['mode'])
    out = fitsio.read('zm.fit', ext=1, lower=True)
    require(out.size == len(want), '%d training members, expected %d', out.size, len(want))
    w = np.array([r for r, c in want], dtype=mem.dtype)
    # rows may come in any order: pair by position
    a, b = np.argsort(out['ra']), np.argsort(w['ra'])
    o, w = out[a], w[b]
    cc = [want[i][1] for i in b]
    for k in ('ra', 'dec', 'p', 'pcol', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv'):
        require(np.array_equal(o[k].reshape(w[k].shape), w[k]), 'column %s of the training members is not that of the member', k)
    zl, z0 = np.array([c['z_lambda'] for c in cc]), np.array([c[col] for c in cc])
    require(np.array_equal(o['z_lambda'], zl), 'training member carries another cluster\'s photometric redshift')
    require(np.array_equal(o['central'] != 0, w['r'] < 1e-4), 'central flags')
    d = o['z'].astype('f8') - z0
    if case['smooth'] == 0:
        require(np.array_equal(o['z'], z0), 'training member carries another cluster\'s redshift')
    else:
        require(np.all(np.abs(d) < 6.5*case['smooth'] + 1e-6), 'training redshift is off by %s with smoothing %s', np.abs(d).max(), case['smooth'])
        if d.size >= 30:
            require(stats.kstest(d/case['smooth'], 'norm').statistic < 3.2/np.sqrt(d.size), 'smoothing is not a normal distribution of the configured width')
    return '%s-%s' % (case['mode'], 'some' if len(want) < n else 'all')


def fitsio_free_config(fn):
    from redmapper import Configuration
    return Configuration(fn)


MEMBERS = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'nmag': st.sampled_from([2, 3, 4, 5]), 'nc': st.integers(1, 30).flatmap(lambda k: st.integers(k, 30)), 'ids': st.sampled_from(['plain', 'sparse', 'zero']), 'mem': st.sampled_from([1, 4, 8]),
                                 'minlam': st.sampled_from([3.0, 5.0, 10.0]), 'pcut': st.sampled_from([0.1, 0.3, 0.7]), 'nsig': st.sampled_from([1.0, 3.0, 5.0]), 'smooth': st.sampled_from([0.0, 0.0, 0.003, 0.02]),
                                 'shuffle': st.booleans(), 'odd': st.booleans(), 'mode': st.sampled_from(['z_init', 'cg', 'z_init', 'cg', 'z_init', 'cg', 'other']), 'asconf': st.booleans()})


# ---------------------------------------------------------------- seeds
def sky(rs, case, n, ns, R=3.0/3600):
    """Galaxies in small groups, and spectra near them, with separations clear of the radius and of ties."""
    ra0 = {'mid': 150., 'wrap': 0.02, 'pole': 80.}[case['sky']]
    dec0 = {'mid': 10., 'wrap': -20., 'pole': 84.}[case['sky']]
    ra, dec = W.offset(np.full(n, ra0), np.full(n, dec0), rs.uniform(-1, 1, n)*case['size'], rs.uniform(-1, 1, n)*case['size'])
    k = n//4
    if k and case['pairs']:
        ra[:k], dec[:k] = W.offset(ra[n - k:], dec[n - k:], rs.uniform(-1, 1, k)*2*R, rs.uniform(-1, 1, k)*2*R)
    sra, sdec = [], []
    tries = 0
    while len(sra) < ns and tries < 20*ns + 20:
        tries += 1
        i = rs.randint(n)
        f = rs.choice([0.0, 0.1, 0.5, 0.95, 1.05, 3.0])*R
        pa = rs.uniform(0, 2*np.pi)
        a, d = W.offset(ra[i], dec[i], f*np.sin(pa), f*np.cos(pa))
        s = np.sort(W.sep(a, d, ra, dec))
        if np.any(np.abs(s - R) < 0.02/3600) or (n > 1 and s[1] - s[0] < 0.02/3600):
            continue
        sra.append(float(a))
        sdec.append(float(d))
    # two distant galaxies, so that the table always has several pixels
    ra, dec = np.r_[ra, 240., 270.], np.r_[dec, -50., -50.]
    return ra, dec, np.array(sra), np.array(sdec)


def t_seeds(case):
    rs = np.random.RandomState(case['seed'])
    nmag, n = case['nmag'], case['n']
    bands = list('ugrizy'[:nmag])
    ra, dec, sra, sdec = sky(rs, case, n, case['ns'])
    n = ra.size
    ns = sra.size
    if ns == 0:
        return False
    g = np.zeros(n, dtype=W.gal_dtype(nmag))
    g['id'] = rs.permutation(n) + 1
    g['ra'], g['dec'] = ra, dec
    for k in ('mag', 'mag_err'):
        g[k] = rs.uniform(14, 22, g[k].shape)
    g['refmag'], g['refmag_err'], g['ebv'] = rs.uniform(14, 20, n), rs.uniform(0, 1, n), rs.uniform(0, 1, n)
    zr = np.zeros(n, dtype=W.zred_dtype(2))
    for k in W.ZRED_NAMES:
        zr[k] = rs.uniform(0.1, 0.6, n)
    zr['zred'][rs.uniform(size=n) < 0.2] = -1.0
    lo, hi, cush, maxe = 0.15, 0.45, case['cushion'], case['maxe']
    clo, chi = max(lo - cush, 0.05), hi + cush
    sp = np.zeros(ns, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    sp['ra'], sp['dec'] = sra, sdec
    sp['z'] = away(away(rs.choice([clo, chi], ns)*rs.choice([1, 1, 1, 0.9, 1.1], ns)*rs.uniform(0.8, 1.25, ns), clo), chi)
    sp['z_err'] = away(rs.uniform(0, 2, ns)*maxe, maxe, 0.02*maxe)
    fitsio.write('train.fit', sp)
    other = sp[rs.permutation(ns)][:max(1, ns//2)].copy()
    other['z'] = np.clip(other['z'] + 0.003, clo + 0.001, chi - 0.001)
    fitsio.write('spec.fit', other)
    haszred = case['zred']
    gt, zf, order = W.write_galtable('tab', 'gal', g, 8, nmag, bands, bands[-1], area=50., zreds=zr if haszred else None)
    conf = dict(galfile=os.path.abspath(gt), refmag=bands[-1], zrange=[lo, hi], calib_zrange_cushion=cush, calib_spec_max_zerr=maxe, specfile=os.path.abspath('spec.fit'),
                seedfile=os.path.abspath('seeds.fit'), calib_smooth=0.003)
    if case['train']:
        conf['specfile_train'] = os.path.abspath('train.fit')
    if haszred:
        conf['zredfile'] = os.path.abspath(zf)
    elif case['missing']:
        conf['zredfile'] = os.path.abspath('not-there_zreds_master_table.fit')
    W.write_config('c.yaml', W.min_config(nmag, **conf))
    use = sp if (case['train'] and case['usetrain']) else other
    want = []
    for s in use:
        if not (clo <= s['z'] <= chi and s['z_err'] < maxe):
            continue
        d = W.sep(s['ra'], s['dec'], ra, dec)
        i = int(np.argmin(d))
        if d[i] > 3.0/3600:
            continue
        if haszred and not zr['zred'][i] > 0:
            continue
        want.append((i, s))
    if not want:
        return False
    kw = {} if case['usetrain'] else dict(usetrain=False)
    SelectSpecSeeds('c.yaml').run(**kw)
    out = fitsio.read('seeds.fit', ext=1, lower=True)
    require(out.size == len(want), '%d seeds, expected %d', out.size, len(want))
    key = lambda a, z: np.lexsort((z, a))
    wi = np.array([i for i, s in want])
    wz = np.array([s['z'] for i, s in want])
    q = key(ra[wi], wz)
    wi, wz = wi[q], wz[q]
    o = out[key(out['ra'], out['zspec'])]
    for k in ('ra', 'dec', 'mag', 'mag_err', 'refmag', 'refmag_err', 'ebv'):
        require(np.array_equal(o[k], g[k][wi]), 'column %s of a seed is not that of its galaxy', k)
    require(np.array_equal(o['zspec'], wz), 'seed has the redshift of another spectrum')
    for a, b in (('zred', 'zred'), ('zred_e', 'zred_e'), ('zred_chisq', 'chisq')):
        e = zr[b][wi] if haszred else np.full(wi.size, -1.0, 'f4')
        require(np.array_equal(o[a], e), 'column %s of the seeds', a)
    return ('zred' if haszred else 'plain') + ('-train' if use is sp else '-spec')


SEEDS = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'nmag': st.sampled_from([2, 3, 4, 5]), 'n': st.integers(1, 80), 'ns': st.integers(4, 60), 'sky': st.sampled_from(['mid', 'wrap', 'pole']),
                               'size': st.sampled_from([0.02, 1.0, 6.0]), 'pairs': st.booleans(), 'zred': st.booleans(), 'missing': st.booleans(), 'train': st.booleans(), 'usetrain': st.booleans(),
                               'cushion': st.sampled_from([0.0, 0.05, 0.12]), 'maxe': st.sampled_from([0.001, 0.01])})


# ---------------------------------------------------------------- red galaxies
def t_red(case):
    rs = np.random.RandomState(case['seed'])
    nmag, n = 4, case['n']
    bands = list('griz')
    tmpl = 'bc03_colors_sdss.fit'
    rg = RedGalInitialColors(tmpl)
    lo, hi = 0.15, 0.5
    modes = case['modes']
    z = rs.uniform(0.06, 0.6, n)
    red = rs.uniform(size=n) < case['red']
    refmag = rs.uniform(15, 21.5, n)
    g = np.zeros(n, dtype=W.gal_dtype(nmag))
    g['id'] = np.arange(n) + 1
    side = case['side']
    k = int(np.ceil(np.sqrt(n)))          # a jittered grid: no two galaxies near one spectrum
    cell = rs.permutation(k*k)[:n]
    ra, dec = 120 + (cell % k + rs.uniform(0.2, 0.8, n))*side/k, 5 + (cell//k + rs.uniform(0.2, 0.8, n))*side/k
    ra[:2] = 240., 270.
    g['ra'], g['dec'] = ra, dec
    sc = 0.03
    off = case['off']
    col = np.zeros((n, 3))
    for j in range(3):
        c = rg(bands[j], bands[j + 1], z)
        col[:, j] = c + off + np.where(red, rs.normal(0, sc, n), rs.normal(-0.5, 0.2, n))
    m = np.zeros((n, 4))
    m[:, 3] = refmag - 0.3
    for j in (2, 1, 0):
        m[:, j] = m[:, j + 1] + col[:, j]
    err = rs.uniform(0.01, 0.03, (n, 4))
    g['mag'], g['mag_err'] = m + err*rs.normal(size=m.shape), err
    g['refmag'], g['refmag_err'] = refmag, 0.02
    gt, _, _ = W.write_galtable('tab', 'gal', g, 8, nmag, bands, 'i', lim_ref=21.0, area=50.)
    has = rs.uniform(size=n) < 0.9
    sp = np.zeros(int(has.sum()), dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    ii = np.flatnonzero(has)
    sp['ra'], sp['dec'] = W.offset(ra[ii], dec[ii], rs.uniform(-1, 1, ii.size)/3600, rs.uniform(-1, 1, ii.size)/3600)
    sp['z'] = z[ii]
    sp['z_err'] = np.where(rs.uniform(size=ii.size) < 0.1, 0.01, 1e-4)
    perm = rs.permutation(ii.size)
    fitsio.write('spec.fit', sp[perm])
    W.write_config('c.yaml', W.min_config(nmag, galfile=os.path.abspath(gt), refmag='i', zrange=[lo, hi], specfile=os.path.abspath('spec.fit'), calib_redgal_template=tmpl, bands=bands,
                                          calib_spec_max_zerr=0.001, calib_pivotmag_nodesize=0.1, calib_redspec_nsig=case['nsig'], calib_colormem_zbounds=case['zb'], calib_colormem_colormodes=modes,
                                          calib_colormem_sigint=[0.05]*len(modes), redgalfile=os.path.abspath('rg.fit'), redgalmodelfile=os.path.abspath('rm.fit'), calib_smooth=0.003))
    os.makedirs('plots', exist_ok=True)
    conf = fitsio_free_config('c.yaml')
    SelectSpecRedGalaxies(conf).run()
    out = fitsio.read('rg.fit', ext=1, lower=True)
    mod = fitsio.read('rm.fit', ext=1, lower=True)[0]
    clo, chi = lo - 0.05, hi + 0.05
    ok = np.zeros(n, bool)
    zz = np.zeros(n)
    zz[ii] = sp['z']
    ok[ii] = (sp['z_err'] < 0.001)
    ok &= (zz > clo) & (zz < chi) & (g['refmag'] < 21.0)
    zb = [clo - 0.011] + list(case['zb']) + [chi + 0.011]
    sure, maybe = np.zeros(n, bool), np.zeros(n, bool)
    gc = (g['mag'][:, :-1] - g['mag'][:, 1:]).astype('f8')
    ge = np.sqrt(g['mag_err'][:, :-1].astype('f8')**2 + g['mag_err'][:, 1:].astype('f8')**2)
    for k, j in enumerate(modes):
        s = ok & (zz > zb[k]) & (zz < zb[k + 1])
        mn = W.natural_spline(mod['nodes'], mod['meancol'][:, j], zz)
        w = W.natural_spline(mod['nodes'], mod['meancol_scatter'][:, j], zz)
        d = np.abs(gc[:, j] - mn) - case['nsig']*np.sqrt(ge[:, j]**2 + w**2)
        sure |= s & (d < -1e-4)
        maybe |= s & (d < 1e-4)
        # the model describes the galaxies it was fitted to
        r = s & red
        if r.sum() > 30:
            inner = r & (zz > lo) & (zz < hi)
            x = np.abs(mn - rg(bands[j], bands[j + 1], zz) - off)[inner]
            require(np.median(x) < 0.06, 'fitted mean colour %d is off by %s', j, np.median(x))
            require(0.35*sc < np.median(w[inner]) < 4*sc, 'fitted scatter %s, true %s', np.median(w[inner]), sc)
    got = np.zeros(n, bool)
    got[out['id'] - 1] = True
    require(np.unique(out['id']).size == out.size, 'a training galaxy is repeated')
    require(not np.any(got & ~maybe), '%d training galaxies fail the selection', (got & ~maybe).sum())
    require(not np.any(sure & ~got), '%d galaxies passing the selection are missing', (sure & ~got).sum())
    i = out['id'] - 1
    require(np.array_equal(out['z'], zz[i].astype('f4')), 'training galaxy has the redshift of another spectrum')
    for k in ('ra', 'dec', 'mag', 'mag_err', 'refmag'):
        require(np.array_equal(out[k], g[k][i]), 'column %s of the training galaxies', k)
    return 'modes-%d' % len(modes)


RED = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 1), 'n': st.sampled_from([300, 600]), 'side': st.sampled_from([1.0, 8.0]), 'red': st.sampled_from([0.5, 0.8]), 'off': st.sampled_from([0.0, 0.05]),
                             'nsig': st.sampled_from([1.5, 2.0, 3.0]), 'zb_modes': st.just(0)}).flatmap(
    lambda d: st.sampled_from([([0.35], [0, 1]), ([0.3], [1, 2]), ([0.25, 0.4], [0, 1, 2]), ([0.33], [1, 0])]).map(lambda x: dict(d, zb=x[0], modes=x[1])))

TESTS = [
    T('members', MEMBERS, t_members, 150, 4000, 'calibration members against a loop over members; label: mode and whether a cut acts'),
    T('seeds-0', SEEDS, t_seeds, 120, 3000, 'spectroscopic seeds against a loop over spectra'),
    T('seeds-1', SEEDS, t_seeds, 120, 3000, 'spectroscopic seeds against a loop over spectra'),
    T('red', RED, t_red, 4, 80, 'red spectroscopic galaxies against the fitted model'),
]
