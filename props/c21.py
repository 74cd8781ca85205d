"""C21: merging per-pixel catalogues."""
import os
import shutil
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from redmapper.pipeline import RedmapperConsolidateTask, RuncatConsolidateTask
from redmapper.redmapper_run import RedmapperRun

ASSUMPTIONS = ['at least one cluster passes the basic cuts', 'likelihoods are distinct', 'every cluster has at least one member',
               'spectra are matched well inside or outside 3 arcsec']

CDT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4'), ('scaleval', 'f4'), ('maskfrac', 'f4'), ('z_lambda', 'f4'),
       ('lnlamlike', 'f4'), ('lnlike', 'f4'), ('cg_spec_z', 'f4'), ('uid', 'i8'), ('pz', 'f4', 3), ('name', 'S5')]
MDT = [('mem_match_id', 'i4'), ('ra', 'f8'), ('dec', 'f8'), ('zspec', 'f4'), ('p', 'f4'), ('uid', 'i8'), ('cuid', 'i8'), ('mag', 'f4', 2)]
CENTERS = [(10., 0.), (0.1, 41.8), (200., -60.), (45., 89.), (333., -89.)]
NAMES = [n for n, *_ in CDT]


def clusters(rs, case):
    """The true sky: one row per cluster, with its members."""
    ns, n = case['nside'], case['n']
    ra0, dec0 = CENTERS[case['center']]
    w = 58.6/ns*case['spread']
    c = np.zeros(n, dtype=CDT)
    c['ra'], c['dec'] = W.offset(ra0, dec0, rs.uniform(-w, w, n), rs.uniform(-w, w, n))
    if case['pixcen'] and n > 3:
        k = n//4
        pp = hpg.angle_to_pixel(ns, c['ra'][:k], c['dec'][:k], nest=False)
        c['ra'][:k], c['dec'][:k] = hpg.pixel_to_angle(ns, pp, nest=False)
    c['lambda'] = 10**rs.uniform(0.3, 2.2, n)
    c['scaleval'] = rs.uniform(1.0, 2.5, n)
    c['maskfrac'] = rs.choice([0.0, 0.05, 0.15, 0.19, 0.21, 0.5], n)
    c['z_lambda'] = rs.uniform(0.1, 0.42, n)
    c['lnlamlike'] = rs.permutation(n)*1.7 - 20. + rs.uniform(0, 1, n)
    c['lnlike'] = rs.permutation(n)*1.3 - 20. + rs.uniform(0, 1, n)
    c['cg_spec_z'] = rs.uniform(0.1, 0.4, n)
    c['uid'] = rs.permutation(n) + 1000
    c['pz'] = rs.uniform(size=(n, 3))
    c['name'] = ['n%d' % (i % 7) for i in range(n)]
    nm = rs.randint(1, 5, n)
    m = np.zeros(nm.sum(), dtype=MDT)
    own = np.repeat(np.arange(n), nm)
    m['cuid'] = c['uid'][own]
    m['ra'], m['dec'] = W.offset(c['ra'][own], c['dec'][own], rs.normal(0, 0.05, m.size), rs.normal(0, 0.05, m.size))
    m['zspec'], m['p'] = rs.uniform(size=(2, m.size))
    m['uid'] = np.arange(m.size) + 50000
    m['mag'] = rs.uniform(17, 20, (m.size, 2))
    return c, m


def split(rs, case, c, m):
    """{pixel: (clusters, members)}: clusters of the pixel and of its border, with local identifiers in any order."""
    ns = case['nside']
    pix = hpg.angle_to_pixel(ns, c['ra'], c['dec'], nest=False)
    out = {}
    for p in np.unique(pix):
        other = (pix != p) & (rs.uniform(size=pix.size) < case['border'])
        i = np.flatnonzero((pix == p) | other)
        i = rs.permutation(i)
        cc = c[i].copy()
        ids = rs.permutation(i.size*2)[:i.size] + 1 if case['gaps'] else np.arange(i.size) + 1
        cc['mem_match_id'] = ids
        mm = m[np.isin(m['cuid'], cc['uid'])].copy()
        loc = dict(zip(cc['uid'].tolist(), ids.tolist()))
        mm['mem_match_id'] = [loc[u] for u in mm['cuid'].tolist()]
        # the neighbouring pixel measured the border clusters a little differently
        oth = pix[i] != p
        cc['lambda'][oth] *= 1.01
        cc['lnlamlike'][oth] += 0.2
        cc['lnlike'][oth] += 0.2
        out[int(p)] = (cc, mm[rs.permutation(mm.size)])
    return out


def maxe(case):
    return (0.001, 0.003)[case['seed'] % 2]


def spectra(rs, c, m, maxe):
    """Spectra within 1 arcsec of some objects, others 8 arcsec away, some with large errors; the expected redshifts."""
    n, k = c.size, m.size
    ra, dec = np.append(c['ra'], m['ra']), np.append(c['dec'], m['dec'])
    kind = rs.choice([0, 1, 2, 3], n + k)
    a = rs.uniform(0, 2*np.pi, n + k)
    d = np.where(kind == 2, 8.0, 0.8)/3600.
    r = np.zeros(n + k, dtype=[('ra', 'f8'), ('dec', 'f8'), ('z', 'f4'), ('z_err', 'f4')])
    r['ra'], r['dec'] = W.offset(ra, dec, d*np.cos(a), d*np.sin(a))
    r['z'], r['z_err'] = rs.uniform(0.05, 0.6, n + k), np.where(kind == 3, rs.choice([1.2*maxe, 3*maxe, 0.1], n + k), rs.choice([0.8*maxe, 1e-4], n + k))
    exp = np.where(kind == 1, r['z'], np.float32(-1.0))
    ok = np.isin(kind, (1, 2))
    # an object is ambiguous when another object's spectrum lies near
    amb = np.array([np.sum(ok & (W.sep(x, y, r['ra'], r['dec']) < 12./3600) & (np.arange(n + k) != i)) > 0 for i, (x, y) in enumerate(zip(ra, dec))])
    r = r[kind > 0]
    if r.size == 0:
        r = np.zeros(1, dtype=r.dtype)
        r['dec'] = -45.
    fitsio.write('spec.fit', r[rs.permutation(r.size)], clobber=True)
    return dict(zip(c['uid'].tolist(), zip(exp[:n], amb[:n]))), dict(zip(m['uid'].tolist(), zip(exp[n:], amb[n:])))


def compare(what, catfile, memfile, cexp, mexp, csp=None, msp=None, memcols=True):
    """cexp: expected cluster rows with final identifiers; mexp: expected member rows likewise (any order)."""
    require(os.path.isfile(catfile), '%s: %s not written', what, os.path.basename(catfile))
    got = fitsio.read(catfile, ext=1, lower=True)
    require(len(set(got['uid'].tolist())) == got.size, '%s: a cluster appears twice', what)
    require(set(got['uid'].tolist()) == set(cexp['uid'].tolist()), '%s: clusters %s, expected %s', what, sorted(got['uid'].tolist()), sorted(cexp['uid'].tolist()))
    require(len(set(got['mem_match_id'].tolist())) == got.size, '%s: identifiers repeat', what)
    g, e = got[np.argsort(got['uid'])], cexp[np.argsort(cexp['uid'])]
    sk = set() if csp is None else {'cg_spec_z'}
    for nm in NAMES:
        if nm not in sk:
            require(np.array_equal(g[nm].astype('U') if nm == 'name' else g[nm], e[nm].astype('U') if nm == 'name' else e[nm]), '%s: column %s changed', what, nm)
    if csp is not None:
        for r in got:
            v, amb = csp[int(r['uid'])]
            require(amb or r['cg_spec_z'] == np.float32(v), '%s: cluster %d spectroscopic redshift %g, expected %g', what, r['uid'], r['cg_spec_z'], v)
    if memfile is None:
        return
    require(os.path.isfile(memfile), '%s: %s not written', what, os.path.basename(memfile))
    gm = fitsio.read(memfile, ext=1, lower=True)
    require(gm.size == mexp.size and set(gm['uid'].tolist()) == set(mexp['uid'].tolist()), '%s: %d members, expected %d', what, gm.size, mexp.size)
    g, e = gm[np.argsort(gm['uid'])], mexp[np.argsort(mexp['uid'])]
    sk = set() if msp is None else {'zspec'}
    for nm, *_ in MDT:
        if nm not in sk:
            require(np.array_equal(g[nm], e[nm]), '%s: member column %s changed', what, nm)
    if msp is not None:
        for r in gm:
            v, amb = msp[int(r['uid'])]
            require(amb or r['zspec'] == np.float32(v), '%s: member spectroscopic redshift %g, expected %g', what, r['zspec'], v)


def with_ids(rows, mem, order):
    """Apply identifiers 1.. in the given order of cluster uids."""
    ids = {u: i + 1 for i, u in enumerate(order)}
    rows, mem = rows.copy(), mem.copy()
    rows['mem_match_id'] = [ids[u] for u in rows['uid'].tolist()]
    mem = mem[np.isin(mem['cuid'], rows['uid'])]
    mem['mem_match_id'] = [ids[u] for u in mem['cuid'].tolist()]
    return rows, mem


def check_final(case):
    rs = np.random.RandomState(case['seed'])
    c, m = clusters(rs, case)
    files = split(rs, case, c, m)
    s = S.survey()
    csp = msp = None
    kw = {}
    if case['spec']:
        csp, msp = spectra(rs, c, m, maxe(case))
        kw['specfile'] = 'spec.fit'
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, outpath='out', outbase=case['outbase'], max_maskfrac=0.2, percolation_minlambda=3.0, select_scaleval=case['scaled'], area=100.0,
                  consolidate_lambda_cuts=case['cuts'], consolidate_vlim_lstars=case['vlims'], calib_spec_max_zerr=maxe(case), **kw)
    zmaxes = []
    import healsparse
    for v in case['vlims']:
        mp = healsparse.HealSparseMap.make_empty(4, 32, dtype=[('fracgood', 'f4'), ('zmax', 'f4')], primary='fracgood')
        pp = np.unique(hpg.angle_to_pixel(32, c['ra'], c['dec'], nest=True))
        pp = pp[rs.uniform(size=pp.size) < 0.85]
        if pp.size == 0:
            pp = np.array([0])
        val = np.zeros(pp.size, dtype=[('fracgood', 'f4'), ('zmax', 'f4')])
        val['fracgood'], val['zmax'] = 1.0, rs.uniform(0.15, 0.4, pp.size)
        mp.update_values_pix(pp, val)
        mp.write(conf.redmapper_filename('vl%02d_vlim_zmask' % int(v*10), withversion=True), clobber=True)
        look = dict(zip(pp.tolist(), val['zmax'].tolist()))
        zmaxes.append(np.array([look.get(int(q), 0.0) for q in hpg.angle_to_pixel(32, c['ra'], c['dec'], nest=True)]))
    if not case['vlims']:
        zmaxes = [np.full(c.size, 0.38)]
    if np.any([np.abs(z - c['z_lambda']).min() < 1e-6 for z in zmaxes]):
        return False
    for p, (cc, mm) in files.items():
        base = 'out/%s_%d_%05d_final_catalog' % (case['outbase'], case['nside'], p)
        fitsio.write(base + '.fit', cc, clobber=True)
        fitsio.write(base + '_members.fit', mm, clobber=True)
    keep = (c['maskfrac'] < 0.2) & (c['lambda'] > 3.0)
    if not keep.any():
        return False
    sc = c['scaleval'] if case['scaled'] else 1.0
    if case['args']:
        task = RedmapperConsolidateTask('conf.yaml', lambda_cuts=case['cuts'], vlim_lstars=case['vlims'], path='out')
    else:
        shutil.copy('conf.yaml', 'out/conf.yaml')
        task = RedmapperConsolidateTask('out/conf.yaml')
    for rerun in range(1 + case['again']):
        task.run(do_plots=False, match_spec=case['spec'])
        order = [u for u in c['uid'][np.argsort(-c['lnlamlike'].astype('f8'))].tolist() if keep[c['uid'] == u][0]]
        ncut = 0
        for cut in case['cuts']:
            for v, zm in zip(case['vlims'] or [None], zmaxes):
                sel = keep & (c['lambda']/sc > cut) & (zm > c['z_lambda'])
                nm = 'lgt%02d' % cut + ('' if v is None else '_vl%02d' % int(v*10)) + '_catalog'
                fn = conf.redmapper_filename(nm, withversion=True)
                if not sel.any():
                    require(not os.path.isfile(fn) or fitsio.FITS(fn)[1].get_nrows() == 0, '%s written for no clusters', nm)
                    continue
                ncut += 1
                rows, mem = with_ids(c[sel], m, order)
                compare(nm, fn, conf.redmapper_filename(nm + '_members', withversion=True), rows, mem, csp, msp)
    return 'pixels-%d' % min(len(files), 3) if ncut and len(files) > 1 else ('one-pixel' if ncut else 'trivial-nothing-kept')


def check_runcat(case):
    rs = np.random.RandomState(case['seed'])
    c, m = clusters(rs, case)
    files = split(rs, case, c, m)
    # identifiers of the input catalogue are global
    gid = dict(zip(c['uid'].tolist(), (rs.permutation(c.size*2)[:c.size] + 1).tolist()))
    s = S.survey()
    csp = msp = None
    kw = {}
    if case['spec']:
        csp, msp = spectra(rs, c, m, maxe(case))
        kw['specfile'] = 'spec.fit'
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, outpath='out', outbase=case['outbase'], max_maskfrac=0.2, percolation_minlambda=3.0, area=100.0, calib_spec_max_zerr=maxe(case), **kw)
    ct = case['cattype']
    for p, (cc, mm) in files.items():
        base = 'out/%s_%d_%05d_%s_catalog' % (case['outbase'], case['nside'], p, ct)
        cc['mem_match_id'] = [gid[u] for u in cc['uid'].tolist()]
        mm['mem_match_id'] = [gid[u] for u in mm['cuid'].tolist()]
        fitsio.write(base + '.fit', cc, clobber=True)
        if case['members']:
            fitsio.write(base + '_members.fit', mm, clobber=True)
    shutil.copy('conf.yaml', 'out/conf.yaml')
    for rerun in range(1 + case['seed'] % 2):
        RuncatConsolidateTask('out/conf.yaml').run(do_plots=False, match_spec=case['spec'], consolidate_members=case['members'], cattype=ct)
    rows, mem = c.copy(), m.copy()
    rows['mem_match_id'] = [gid[u] for u in c['uid'].tolist()]
    mem['mem_match_id'] = [gid[u] for u in m['cuid'].tolist()]
    fn = conf.redmapper_filename('%s_catalog' % ct, withversion=True)
    mfn = conf.redmapper_filename('%s_catalog_members' % ct, withversion=True)
    if not case['members']:
        require(not os.path.isfile(mfn), 'members written without being asked for')
    for f in (fn, mfn):
        if os.path.isfile(f):
            with fitsio.FITS(f) as x:
                require(len(x) == 2, '%s has %d extensions', f, len(x))
    compare('runcat', fn, mfn if case['members'] else None, rows, mem, csp, msp)
    return 'pixels-%d' % min(len(files), 3) if len(files) > 1 else 'one-pixel'


def check_run(case):
    """The merge at the end of a pixelised run whose stages are all done."""
    rs = np.random.RandomState(case['seed'])
    c, m = clusters(rs, case)
    files = split(rs, case, c, m)
    s = S.survey()
    ns = case['nside']
    g = np.zeros(c.size, dtype=W.gal_dtype(4))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = np.arange(c.size) + 1, c['ra'], c['dec'], 18, 0.01, 18, 0.01
    gf = W.write_galtable('gals', 'g', g, ns, 4, S.BANDS, 'i', lim_ref=s.limmag)[0]
    keep = (c['maskfrac'] < 0.2) & (c['lambda']/c['scaleval'] > 3.0)
    if not keep.any():
        return False
    os.makedirs('out', exist_ok=True)
    conf = S.conf(s, outpath='out', outbase=case['outbase'], max_maskfrac=0.2, percolation_minlambda=3.0, area=100.0, galfile=gf, seedfile='none.fit',
                  calib_run_nproc=case['nproc'], calib_run_min_nside=ns, zredfile='none.fit', catfile='none.fit')
    for p, (cc, mm) in files.items():
        base = 'out/%s_%d_%05d_' % (case['outbase'], ns, p)
        for t in ('firstpass', 'like', 'final'):
            fitsio.write(base + t + '_catalog.fit', cc, clobber=True)
        fitsio.write(base + 'final_catalog_members.fit', mm, clobber=True)
    res = RedmapperRun(conf).run(check=True, consolidate_like=case['like'])
    fin, like = res if case['like'] else (res, None)
    order = c['uid'][keep][np.argsort(-c['lnlike'][keep].astype('f8'))].tolist()
    rows, mem = with_ids(c[keep], m, order)
    require(os.path.abspath(fin) == os.path.abspath('out/%s_final.fit' % case['outbase']), 'merged file is %s', fin)
    compare('run', fin, fin.replace('_final.fit', '_final_members.fit'), rows, mem)
    got = fitsio.read(fin, ext=1, lower=True)
    require(np.array_equal(got['mem_match_id'], np.arange(got.size) + 1), 'merged catalogue not in order of likelihood')
    if like is not None:
        lk = fitsio.read(like, ext=1, lower=True)
        require(sorted(lk['uid'].tolist()) == sorted(rows['uid'].tolist()), 'likelihood catalogue holds other clusters')
        a, b = lk[np.argsort(lk['uid'])], rows[np.argsort(rows['uid'])]
        for nm in NAMES:
            if nm not in ('mem_match_id', 'name'):
                require(np.array_equal(a[nm], b[nm]), 'likelihood catalogue: column %s changed', nm)
    return 'pixels-%d' % min(len(files), 3) if len(files) > 1 else 'one-pixel'


def base(**kw):
    d = dict(seed=st.integers(0, 2**31 - 1), nside=st.sampled_from([1, 2, 4, 8, 32]), center=st.integers(0, len(CENTERS) - 1), n=st.integers(1, 30),
             spread=st.sampled_from([0.3, 1.0, 1.6]), border=st.sampled_from([0.0, 0.3, 0.8]), gaps=st.booleans(), pixcen=st.booleans(),
             outbase=st.sampled_from(['t', 'sv_7_v2', 'y3.a1', 'run_4_00001']))
    d.update(kw)
    return st.fixed_dictionaries(d)


TESTS = [
    T('final', base(spec=st.booleans(), scaled=st.booleans(), args=st.booleans(), again=st.integers(0, 1),
                    cuts=st.sampled_from([[5.0], [5.0, 20.0], [20.0, 5.0], [3.0, 100.0], [20.0], [0.0, 10.0]]),
                    vlims=st.sampled_from([[], [0.2], [0.2, 5.0]])), check_final, 250, 4000, 'at least one output file with clusters'),
    T('runcat', base(spec=st.booleans(), members=st.booleans(), cattype=st.sampled_from(['runcat', 'colormem'])), check_runcat, 150, 2500, 'always'),
    T('run', base(nproc=st.sampled_from([2, 3]), like=st.booleans(), nside=st.sampled_from([2, 4, 8])), check_run, 120, 1500, 'a cluster passes the cuts'),
]
