"""C08: ingestion of galaxies into a pixelised table."""
import os
import time
import multiprocessing
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation
from redmapper.galaxy import GalaxyCatalogMaker, GalaxyCatalog

ASSUMPTIONS = ['all writers have finished appending before the table is finalised',
               'lock waiting times are shortened (time.sleep) in the concurrent runs']
IND = {'u': 'u_ind', 'g': 'g_ind', 'r': 'r_ind', 'i': 'i_ind', 'z': 'z_ind', 'y': 'y_ind'}


def place(case):
    """Directory and base name of the table."""
    return ['tab', 'run_0000007', 'a.fit_1234567'][case['seed'] % 3], ['cat', 'x_0000003', 'cat_7'][case['seed']//3 % 3]


def info(case):
    d = dict(LIM_REF=21.0 + case['seed'] % 7*0.25, REF_IND=case['nmag'] - 1, AREA=33.0 + case['seed'] % 11, NMAG=case['nmag'],
             MODE=['SDSS', 'DES', 'LSST'][case['seed'] % 3], ZP=22.5 + case['seed'] % 3)
    if case['b']:
        d['B'] = np.linspace(1e-10, 5e-10, case['nmag'])
    for i, b in enumerate(['griz', 'ugri', 'izyg', 'yrgu'][case['seed']//7 % 4][:case['nmag']]):
        d['%s_IND' % b.upper()] = i
    return d


def gals(case, n, first, rs):
    dt = GalaxyCatalogMaker.get_galaxy_dtype(case['nmag'], truth=case['truth'], zspec=case['zspec'])
    if case['extra']:
        dt = dt + [('extra', 'i4')]
    if case['shuf']:
        dt = [dt[i] for i in rs.permutation(len(dt))]
    if case['big']:
        dt = [(d[0], d[1].replace('f4', 'f8')) + d[2:] for d in dt]
    g = np.zeros(n, dtype=dt)
    g['id'] = first + rs.permutation(n)
    if case['area'] == 'wide':
        g['ra'], g['dec'] = rs.uniform(0, 360, n), np.degrees(np.arcsin(rs.uniform(-1, 1, n)))
    elif case['area'] == 'pole':
        g['ra'], g['dec'] = rs.uniform(0, 360, n), 90 - rs.uniform(0, 8, n)
        g['ra'][:1], g['dec'][:1] = 360.0, -90.0
    else:
        g['ra'], g['dec'] = rs.uniform(350, 370, n) % 360, rs.uniform(-8, 8, n)
        g['ra'][:1] = 0.0
    g['refmag'] = rs.uniform(15, 21, n)
    g['refmag_err'] = rs.uniform(0.01, .1, n)
    g['mag'] = rs.uniform(15, 25, (n, case['nmag']))
    g['mag_err'] = rs.uniform(0.01, .1, (n, case['nmag']))
    g['ebv'] = rs.uniform(0, .1, n)
    for c in g.dtype.names:
        if c in ('ztrue', 'm200', 'zspec', 'zspec_err', 'central', 'halo_id', 'extra'):
            g[c] = rs.uniform(0, 100, n).astype(g[c].dtype)
    return g


def listing():
    out = {}
    for r, _, fs in os.walk('.'):
        for f in fs:
            out[os.path.join(r, f)] = open(os.path.join(r, f), 'rb').read()
    return out


def verify(case, allg, single_known=True):
    tab, base = place(case)
    files = sorted(os.listdir(tab))
    master = '%s/%s_master_table.fit' % (tab, base)
    if allg.size == 0:
        return
    pix = hpg.angle_to_pixel(case['nside'], allg['ra'], allg['dec'], nest=False)
    up = np.unique(pix)
    require(files == sorted(['%s_%07d.fit' % (base, p) for p in up] + [base + '_master_table.fit']), 'files in the table directory: %s', files[:8])
    t = fitsio.read(master, ext=1, lower=True)
    h = fitsio.read_header(master, ext=1)
    require(h.get('PIXELS') == 1 and h.get('FITS') == 1, 'table header')
    one = lambda k: np.atleast_1d(t[k][0])
    require(np.array_equal(one('hpix'), up), 'table pixels %s, galaxies are in %s', one('hpix')[:6], up[:6])
    require(np.array_equal(one('ngals'), [np.sum(pix == p) for p in up]), 'counts in the table')
    ra, dec = hpg.pixel_to_angle(case['nside'], up, nest=False)
    require(np.allclose(one('ra_pix'), ra) and np.allclose(one('dec_pix'), dec), 'pixel positions in the table')
    names = [x.decode() if isinstance(x, bytes) else x for x in one('filenames')]
    require([x.strip() for x in names] == ['%s_%07d.fit' % (base, p) for p in up], 'file names in the table')
    inf = info(case)
    require(t['nside'][0] == case['nside'] and abs(t['lim_ref'][0] - inf['LIM_REF']) < 1e-5 and t['ref_ind'][0] == inf['REF_IND'] and
            t['area'][0] == inf['AREA'] and t['nmag'][0] == inf['NMAG'] and abs(t['zeropoint'][0] - inf['ZP']) < 1e-5, 'table information')
    md = t['mode'][0]
    require((md.decode() if isinstance(md, bytes) else md).strip() == inf['MODE'], 'mode')
    require(np.allclose(np.atleast_1d(t['b'][0])[:case['nmag']], inf.get('B', np.zeros(case['nmag']))), 'softening values')
    for b in 'ugrizy':
        k = '%s_IND' % b.upper()
        require((k.lower() in t.dtype.names) == (k in inf), 'band index columns')
        if k in inf:
            require(t[k.lower()][0] == inf[k], 'band index')
    require(bool(t['has_truth'][0]) == case['truth'] and bool(t['has_zspec'][0]) == case['zspec'], 'truth flags')
    rows = []
    for p in up:
        r = fitsio.read('%s/%s_%07d.fit' % (tab, base, p), ext=1, lower=True)
        require(np.all(hpg.angle_to_pixel(case['nside'], r['ra'], r['dec'], nest=False) == p), 'galaxy filed under another pixel')
        rows.append(r)
    rows = np.concatenate(rows)
    require(rows.size == allg.size, '%d galaxies stored, %d given', rows.size, allg.size)
    require(set(rows.dtype.names) == set(allg.dtype.names), 'columns')
    require(np.unique(rows['id']).size == rows.size, 'identifiers are not unique')
    # match on position (exact) rather than id, ids may be regenerated
    k1, k2 = np.lexsort((rows['refmag'], rows['dec'], rows['ra'])), np.lexsort((allg['refmag'], allg['dec'], allg['ra']))
    for c in allg.dtype.names:
        if c == 'id' and case['gen']:
            continue
        require(np.array_equal(rows[c][k1], allg[c][k2]), 'column %s changed during ingestion', c)
    # through the library's reader
    try:
        cat = GalaxyCatalog.from_galfile(master, truth=case['truth'])
    except Exception as e:
        if up.size == 1:
            raise Violation('a one-pixel table cannot be read back: %s' % e, sig='one-pixel-table')
        raise
    require(cat.size == allg.size, 'reader returns %d galaxies of %d', cat.size, allg.size)
    k1 = np.lexsort((cat.refmag, cat.dec, cat.ra))
    for c in allg.dtype.names:
        if c == 'id' and case['gen'] or not case['truth'] and c in ('ztrue', 'm200', 'central', 'halo_id'):
            continue
        require(np.array_equal(getattr(cat, c)[k1], allg[c][k2]), 'column %s changed by reading', c)


def expect(f, what, exc=RuntimeError):
    before = listing()
    try:
        f()
    except exc:
        require(listing() == before, '%s was refused but changed files', what)
        return
    raise Violation('%s accepted' % what)


def maker(case, parallel=False, **kw):
    return GalaxyCatalogMaker('%s/%s' % place(case), info(case), nside=case['nside'], parallel=parallel, generate_unique_ids=case['gen'],
                              ingest_truth=case['truth'], ingest_zspec=case['zspec'], **kw)


def batches(case, rs):
    out, first = [], 1
    for n in case['sizes']:
        g = gals(case, n, first, rs)
        if case['shuf'] and out:
            g = g[list(out[0].dtype.names)].astype(out[0].dtype)
        first += n
        out.append(g)
    return out


def check(case):
    rs = np.random.RandomState(case['seed'])
    kw = {}
    bs = batches(case, rs)
    if case['mask']:
        import healsparse
        hm = healsparse.HealSparseMap.make_empty(8, 64, np.float32)
        allpix = hpg.angle_to_pixel(64, np.concatenate([b['ra'] for b in bs]), np.concatenate([b['dec'] for b in bs]))
        good = np.unique(allpix[rs.uniform(size=allpix.size) < 0.6])
        if good.size:
            hm.update_values_pix(good, np.ones(good.size, dtype=np.float32))
        hm.write('mask.hsp', clobber=True)
        kw = dict(maskfile='mask.hsp', mask_mode=3)
    try:
        GalaxyCatalogMaker('nopath', info(case), nside=case['nside'])
        require(False, 'output base without a path accepted')
    except RuntimeError:
        pass
    m = maker(case, **kw)
    done = []
    inputs = [b.copy() for b in bs]
    for i, b in enumerate(bs):
        if case['bad'] == i:
            x = b.copy()
            j = rs.randint(x.size)
            kind = case['kind']
            if kind == 'nan':
                x[['refmag', 'ebv', 'ra', 'dec', 'refmag_err'][case['seed'] % 5]][j] = [np.nan, np.inf][case['seed'] % 2]
            elif kind == 'magnan':
                x['mag'][j, case['seed'] % case['nmag']] = np.nan
            elif kind == 'mag99':
                x['mag'][j, case['seed'] % case['nmag']] = 99.0
            elif kind == 'mag0':
                x['mag'][j, case['seed'] % case['nmag']] = [0.0, -3.0][case['seed'] % 2]
            elif kind == 'err0':
                x['mag_err'][j, case['seed'] % case['nmag']] = [0.0, -3.0][case['seed'] % 2]
            elif kind == 'err99' and not case['b']:
                x['mag_err'][j, case['seed'] % case['nmag']] = 99.0
            elif kind == 'ra':
                x['ra'][j] = [-1e-6, 360.0001, 400.][case['seed'] % 3]
            elif kind == 'dec':
                x['dec'][j] = [-90.001, 91.0][case['seed'] % 2]
            elif kind == 'missing':
                drop = ['ebv', 'refmag_err', 'mag_err', 'id'][case['seed'] % 4]
                x = x[[c for c in x.dtype.names if c != drop]].copy()
            elif kind == 'nmag':
                dt = [(d[0], d[1]) + ((case['nmag'] + 1,) if d[0] in ('mag', 'mag_err') else d[2:]) for d in x.dtype.descr]
                y = np.zeros(x.size, dtype=dt)
                for c in x.dtype.names:
                    if c in ('mag', 'mag_err'):
                        y[c] = x[c][:, :1]
                    else:
                        y[c] = x[c]
                x = y
            elif kind == 'type':
                c, t = [('id', 'f8'), ('refmag', 'i4')][case['seed'] % 2]
                x = x.astype([(d[0], t) + d[2:] if d[0] == c else d for d in x.dtype.descr])
            elif kind == 'dup' and not case['gen'] and x.size > 1:
                x['id'][j] = x['id'][j - 1]
            else:
                x = None
            if x is not None:
                expect(lambda: m.append_galaxies(x), 'malformed input (%s)' % kind)
        m.append_galaxies(b)
        require(np.array_equal(b, inputs[i]), 'ingestion changed the caller\'s galaxies')
        if case['mask']:
            keep = np.isin(hpg.angle_to_pixel(64, b['ra'], b['dec']), good) & (np.abs(b['dec']) < 90.0)
            b = b[keep]
        done.append(b)
    allg = np.concatenate(done)
    if allg.size == 0:
        return False
    require(not os.path.exists('%s/%s_master_table.fit' % place(case)), 'master table written before the catalogue is finalised')
    if case['dupx'] and not case['gen'] and len(bs) > 1 and done[0].size and not case['mask']:
        x = done[0][:1].copy()
        x['ra'], x['dec'] = (x['ra'] + 90) % 360, -x['dec']/2
        m.append_galaxies(x)
        expect(m.finalize_catalog, 'identifiers repeated across appends')
        require(not os.path.exists('%s/%s_master_table.fit' % place(case)), 'refused catalogue has a master table')
        return 'dup-across'
    m.finalize_catalog()
    verify(case, allg)
    expect(lambda: m.append_galaxies(gals(case, 3, 10**6, rs)), 'append to a finished table')
    expect(lambda: m.split_galaxies(gals(case, 3, 10**6, rs)), 'split into a finished table')
    expect(lambda: maker(case), 'second ingestion into a finished table')
    return ('mask' if case['mask'] else '') + ('bad-' + case['kind'] if 0 <= case['bad'] < len(bs) else 'plain')


def worker(case, bs, idx, barrier, fin):
    real = time.sleep
    time.sleep = lambda s: real(min(s, 0.003))
    try:
        m = maker(case, parallel=True)
        barrier.wait(60)
        for i in idx:
            m.append_galaxies(bs[i])
        barrier.wait(120)
        if fin:
            m.finalize_catalog()
        os._exit(0)
    except BaseException:
        import traceback
        open('err.%d' % os.getpid(), 'w').write(traceback.format_exc())
        os._exit(1)


def check_par(case):
    rs = np.random.RandomState(case['seed'])
    bs = batches(case, rs)
    ctx = multiprocessing.get_context('fork')
    npr = case['nproc']
    barrier = ctx.Barrier(npr)
    own = rs.randint(0, npr, len(bs))
    ps = [ctx.Process(target=worker, args=(case, bs, np.flatnonzero(own == k), barrier, case['fin'] == 'all' or k == 0)) for k in range(npr)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
    errs = [open(f).read() for f in os.listdir('.') if f.startswith('err.')]
    require(not errs, 'concurrent ingestion failed: %s', errs[:1])
    for f in os.listdir('.'):
        if f.startswith('err.'):
            os.unlink(f)
    verify(case, np.concatenate(bs))
    expect(lambda: maker(case, parallel=True), 'second ingestion into a finished table')
    return 'finalise-' + case['fin']


base = dict(seed=st.integers(0, 2**31 - 1), nmag=st.integers(2, 4), nside=st.sampled_from([2, 8, 32]), truth=st.booleans(),
            zspec=st.booleans(), extra=st.booleans(), shuf=st.booleans(), big=st.booleans(), b=st.booleans(), gen=st.booleans(),
            area=st.sampled_from(['wide', 'pole', 'wrap']))
s1 = st.fixed_dictionaries(dict(base, sizes=st.lists(st.integers(1, 12), min_size=1, max_size=5), mask=st.booleans(),
                                bad=st.integers(-3, 4), dupx=st.integers(0, 4).map(lambda x: x == 0),
                                kind=st.sampled_from(['nan', 'magnan', 'mag99', 'mag0', 'err0', 'err99', 'ra', 'dec', 'missing', 'nmag', 'type', 'dup'])))
s2 = st.fixed_dictionaries(dict(base, sizes=st.lists(st.integers(1, 12), min_size=2, max_size=7), nproc=st.integers(2, 4),
                                fin=st.sampled_from(['one', 'all'])))
TESTS = ([T('serial-%d' % i, s1, check, 250, 4000, 'non-empty table; label: kind of malformed input offered') for i in range(4)] +
         [T('parallel-%d' % i, s2, check_par, 110, 1500, 'concurrent ingestion; label: who finalises') for i in range(4)])
