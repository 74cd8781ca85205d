"""C06: background look-ups."""
import numpy as np
import fitsio
from hypothesis import strategies as st

from vp.core import T, require
from redmapper.background import Background, ZredBackground
from redmapper.color_background import ColorBackground

ASSUMPTIONS = ['a request within 1e-6 of a bin edge may be assigned to either bin',
               'look-ups take arrays; tables are non-negative']
EDGE = 2e-6


def lin(v, x, q, extrap):
    """Linear interpolation of v (last axis on x) at q, held or extended at the ends."""
    x = np.asarray(x, 'f8')
    s = np.clip(np.searchsorted(x, q, side='right') - 1, 0, x.size - 2)
    t = (q - x[s])/(x[s+1] - x[s])
    if not extrap:
        t = np.clip(t, 0.0, 1.0)
    return v[..., s]*(1 - t) + v[..., s+1]*t


def fine(lo, hi, step):
    return np.arange(lo, hi, step)


def bins_of(edges, x, step, rule):
    """Candidate bin numbers of x: several only on an edge.  None: out of range.

    rule 'in': (lo, hi] bins with both ends closed outside range; see callers."""
    out = set()
    for d in (-EDGE, 0.0, EDGE):
        out.add(rule(x + d))
    return out


def sample(rs, lo, hi, step, n):
    x = rs.uniform(lo - 0.2*(hi - lo), hi + 0.2*(hi - lo), n)
    k = rs.randint(0, 6, n)
    x = np.where(k == 0, lo + step*rs.randint(0, max(1, int(round((hi - lo)/step))), n) + 0.3*step, x)
    x[k == 1] = lo + 0.4*step
    x[k == 2] = hi - 0.4*step
    x[k == 3] = hi + rs.choice([0.5, 3.0, 100., 1e4], (k == 3).sum())*step
    x[k == 4] = rs.uniform(lo, hi, (k == 4).sum())
    return x


def match(got, cands, what, i):
    ok = any((np.isinf(c) and np.isinf(got)) or abs(got - c) <= 1e-3*abs(c) + 1e-6 for c in cands)
    require(ok, '%s: request %d gives %g, the table says %s', what, i, got, sorted(cands)[:4])


def per_element(f, args, got, what):
    n = got.size
    require(np.all(~np.isnan(got)) and np.all(got >= 0), '%s: negative or NaN density', what)
    keep = [np.array(a) for a in args]
    perm = np.arange(n)[::-1]
    require(np.array_equal(f(*[a[perm] for a in args]), got[perm]), '%s depends on the order of requests', what)
    i = n//2
    require(f(*[a[i:i+1] for a in args])[0] == got[i], '%s: one request differs from many', what)
    require(all(np.array_equal(a, b) for a, b in zip(args, keep)), '%s changed its inputs', what)


def table(rs, shape, zero):
    t = rs.uniform(0.1, 10., shape)
    if zero:
        t[rs.uniform(size=shape) < 0.4] = 0.0
        sl = [slice(None)]*len(shape)
        sl[1] = slice(0, max(1, shape[1]//2))
        t[tuple(sl)] = 0.0
    return t.astype('f4')


def check_chisq(case):
    rs = np.random.RandomState(case['seed'])
    zr = np.array([0.1, 0.1 + 0.02*case['nz'] - 0.0004])
    mr = np.array([12.0, 12.0 + 0.2*case['nm'] - 0.004])
    cr = np.array([0.0, 0.5*case['nc']])
    cb = case['cb']
    nc = int(round(cr[1]/cb))
    zb, mb, chb = zr[0] + 0.02*np.arange(case['nz']), mr[0] + 0.2*np.arange(case['nm']), cb*np.arange(nc)
    lnb = -2 + 0.2*np.arange(case['nln'])
    dt = [('zbins', 'f4', zb.size), ('zrange', 'f4', 2), ('zbinsize', 'f4'), ('chisqbins', 'f4', nc), ('chisqrange', 'f4', 2),
          ('chisqbinsize', 'f4'), ('lnchisqbins', 'f4', lnb.size), ('lnchisqrange', 'f4', 2), ('lnchisqbinsize', 'f4'),
          ('areas', 'f4', mb.size), ('refmagbins', 'f4', mb.size), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'),
          ('sigma_g', 'f4', (mb.size, nc, zb.size)), ('sigma_lng', 'f4', (mb.size, lnb.size, zb.size))]
    e = np.zeros(1, dtype=dt)
    e['zbins'], e['zrange'], e['chisqbins'], e['chisqrange'] = zb, zr, chb, cr
    e['lnchisqbins'], e['refmagbins'], e['refmagrange'], e['areas'] = lnb, mb, mr, 10.
    e['sigma_g'][0] = table(rs, e['sigma_g'].shape[1:], case['zero'])
    e['sigma_lng'][0] = table(rs, e['sigma_lng'].shape[1:], False)
    fitsio.write('b.fit', e, extname='CHISQBKG', clobber=True)
    b = Background('b.fit')
    n = case['n']
    chisq = sample(rs, cr[0], cr[1], 0.5, n)
    if n > 2:
        chisq[rs.randint(n)] = cr[0]
    refmag = sample(rs, mr[0], mr[1], 0.01, n)
    z = sample(rs, zr[0], zr[1], 0.001, n) if case['zarr'] else float(sample(rs, zr[0], zr[1], 0.001, 1)[0])
    got = b.sigma_g_lookup(z, chisq, refmag, allow0=case['allow0'])
    args = [chisq, refmag] + ([z] if case['zarr'] else [])
    f = (lambda c, m, *q: b.sigma_g_lookup(q[0] if q else z, c, m, allow0=case['allow0']))
    per_element(f, args, got, 'chisq background')
    # reference table
    mf = fine(e['refmagrange'][0, 0].astype('f8'), e['refmagrange'][0, 1].astype('f8'), 0.01)
    cf = fine(e['chisqrange'][0, 0].astype('f8'), e['chisqrange'][0, 1].astype('f8'), 0.5)
    zf = fine(e['zrange'][0, 0].astype('f8'), e['zrange'][0, 1].astype('f8'), 0.001)
    t = e['sigma_g'][0].astype('f8')
    fmag, fchi, fz = e['refmagbins'][0].astype('f8'), e['chisqbins'][0].astype('f8'), e['zbins'][0].astype('f8')
    zz = np.broadcast_to(z, n)
    lab = set()
    for i in range(n):
        cands = set()
        for dm in (-EDGE, 0, EDGE):
            for dc in (-EDGE, 0, EDGE):
                for dz in (-EDGE, 0, EDGE):
                    m_, c_ = refmag[i] + dm, chisq[i] + dc
                    if c_ < cf[0] and chisq[i] >= cf[0]:
                        c_ = cf[0] + EDGE
                    if m_ <= mf[0] or m_ > mf[-1] + 0.01 or c_ < cf[0] or c_ > cf[-1] + 0.5:
                        cands.add(np.inf)
                        continue
                    im = max(int(np.searchsorted(mf, m_)) - 1, 0)
                    ic = max(int(np.searchsorted(cf, c_)) - 1, 0)
                    iz = int(np.clip(np.round((zz[i] + dz - zf[0])/0.001), 0, zf.size - 1))
                    v = lin(t, fz, zf[iz], False)
                    v = lin(v, fchi, cf[ic], False)
                    v = float(lin(v, fmag, mf[im], False))
                    if v == 0.0 and not case['allow0']:
                        v = np.inf
                    cands.add(v)
        match(got[i], cands, 'chisq background (chisq=%g mag=%g z=%g)' % (chisq[i], refmag[i], zz[i]), i)
        lab.add('inf' if np.isinf(got[i]) else 'in')
    return '+'.join(sorted(lab))


def check_zred(case):
    rs = np.random.RandomState(case['seed'])
    zr = np.array([0.1, 0.1 + 0.01*case['nz'] - 0.0004])
    mr = np.array([12.0, 12.0 + 0.2*case['nm'] - 0.004])
    zb, mb = zr[0] + 0.01*np.arange(case['nz']), mr[0] + 0.2*np.arange(case['nm'])
    dt = [('zredbins', 'f4', zb.size), ('zredrange', 'f4', 2), ('zredbinsize', 'f4'), ('zred_index', 'i2'), ('refmag_index', 'i2'),
          ('refmagbins', 'f4', mb.size), ('refmagrange', 'f4', 2), ('refmagbinsize', 'f4'), ('areas', 'f4', mb.size),
          ('sigma_g', 'f4', (mb.size, zb.size))]
    e = np.zeros(1, dtype=dt)
    e['zredbins'], e['zredrange'], e['refmagbins'], e['refmagrange'] = zb, zr, mb, mr
    e['sigma_g'][0] = table(rs, e['sigma_g'].shape[1:], False)
    fitsio.write('b.fit', e, extname='ZREDBKG', clobber=True)
    b = ZredBackground('b.fit')
    n = case['n']
    zred = sample(rs, zr[0], zr[1], 0.001, n)
    refmag = sample(rs, mr[0], mr[1], 0.01, n)
    got = b.sigma_g_lookup(zred, refmag)
    per_element(b.sigma_g_lookup, [zred, refmag], got, 'redshift background')
    mf = fine(e['refmagrange'][0, 0].astype('f8'), e['refmagrange'][0, 1].astype('f8'), 0.01)
    zf = fine(e['zredrange'][0, 0].astype('f8'), e['zredrange'][0, 1].astype('f8'), 0.001)
    t = e['sigma_g'][0].astype('f8')
    fl = t.min()
    fm, fz = e['refmagbins'][0].astype('f8'), e['zredbins'][0].astype('f8')
    lab = set()
    for i in range(n):
        cands = set()
        for dm in (-EDGE, 0, EDGE):
            for dz in (-EDGE, 0, EDGE):
                im = int(np.searchsorted(mf, refmag[i] + dm)) - 1
                iz = int(np.searchsorted(zf, zred[i] + dz)) - 1
                if im < 0 or iz < 0:
                    cands.add(np.inf)
                    continue
                v = np.maximum(lin(t.T, fm, mf[im], True), fl)
                cands.add(float(np.maximum(lin(v, fz, zf[iz], True), fl)))
        match(got[i], cands, 'redshift background (zred=%g mag=%g)' % (zred[i], refmag[i]), i)
        lab.add('inf' if np.isinf(got[i]) else 'in')
    return '+'.join(sorted(lab))


def check_color(case):
    rs = np.random.RandomState(case['seed'])
    mr = np.array([12.0, 12.0 + 0.05*case['nm'] - 0.004])
    mb = mr[0] + 0.05*np.arange(case['nm'])
    areas = rs.uniform(40, 50., case['nm'])
    crs, tabs = {}, {}
    f = fitsio.FITS('c.fit', 'rw', clobber=True)
    for i in (0, 1):
        lo = round(rs.uniform(-0.5, 1.0), 2)
        crs[i] = np.array([lo, lo + 0.02*rs.randint(4, 9) - 0.004])
    cbin = {i: crs[i][0] + 0.02*np.arange(int(round((crs[i][1] - crs[i][0] + 0.004)/0.02))) for i in crs}
    for i in (0, 1):
        for j in range(i, 2):
            if i == j:
                dt = [('COLBINS', 'f4', cbin[i].size), ('COLRANGE', 'f4', 2), ('COLBINSIZE', 'f4')]
                shp = (mb.size, cbin[i].size)
            else:
                dt = [('COL1BINS', 'f4', cbin[i].size), ('COL1RANGE', 'f4', 2), ('COL1BINSIZE', 'f4'),
                      ('COL2BINS', 'f4', cbin[j].size), ('COL2RANGE', 'f4', 2), ('COL2BINSIZE', 'f4')]
                shp = (mb.size, cbin[j].size, cbin[i].size)
            dt += [('REFMAGBINS', 'f4', mb.size), ('REFMAGRANGE', 'f4', 2), ('REFMAGBINSIZE', 'f4'), ('AREAS', 'f4', mb.size),
                   ('BC', 'f4', shp), ('N', 'f4', mb.size)]
            e = np.zeros(1, dtype=dt)
            if i == j:
                e['COLBINS'], e['COLRANGE'], e['COLBINSIZE'] = cbin[i], crs[i], 0.02
            else:
                e['COL1BINS'], e['COL1RANGE'], e['COL1BINSIZE'] = cbin[i], crs[i], 0.02
                e['COL2BINS'], e['COL2RANGE'], e['COL2BINSIZE'] = cbin[j], crs[j], 0.02
            e['REFMAGBINS'], e['REFMAGRANGE'], e['AREAS'] = mb, mr, areas
            e['BC'][0] = table(rs, shp, case['zero'] and i == j)
            tabs[i, j] = e
            f.write(e, extname='%02d_%02d_REF' % (i, j), header=dict(AREA=12.5))
    f.close()
    b = ColorBackground('c.fit', usehdrarea=case['area'])
    n = case['n']
    col = {i: sample(rs, crs[i][0], crs[i][1], 0.01, n) for i in (0, 1)}
    mag = sample(rs, mr[0], mr[1], 0.01, n)
    e = tabs[0, 0]
    mf = fine(e['REFMAGRANGE'][0, 0].astype('f8'), e['REFMAGRANGE'][0, 1].astype('f8'), 0.01)
    fm = e['REFMAGBINS'][0].astype('f8')
    cf = {i: fine(tabs[i, i]['COLRANGE'][0, 0].astype('f8'), tabs[i, i]['COLRANGE'][0, 1].astype('f8'), 0.01) for i in (0, 1)}
    fc = {i: tabs[i, i]['COLBINS'][0].astype('f8') for i in (0, 1)}
    pos = lambda v: np.maximum(v, 0.0)
    k = case['col']
    sg = b.sigma_g_diagonal(k, col[k], mag)
    per_element(lambda c, m: b.sigma_g_diagonal(k, c, m), [col[k], mag], sg, 'colour background')
    ld = b.lookup_diagonal(k, col[k], mag)
    lo = b.lookup_offdiag(0, 1, col[0], col[1], mag)
    if not case['zero']:
        per_element(lambda c, m: b.lookup_diagonal(k, c, m), [col[k], mag], ld, 'diagonal look-up')
    per_element(lambda c, d, m: b.lookup_offdiag(0, 1, c, d, m), [col[0], col[1], mag], lo, 'off-diagonal look-up')
    require(np.array_equal(b.lookup_offdiag(1, 0, col[1], col[0], mag), lo), 'off-diagonal look-up depends on the order of the colours')
    require(np.allclose(b.get_colrange(k), crs[k], atol=1e-6), 'colour range')
    t = tabs[k, k]['BC'][0].astype('f8')
    t2 = tabs[0, 1]['BC'][0].astype('f8')
    lab = set()
    offtab = {}

    def off_table(im):
        if im not in offtab:
            v = pos(lin(np.moveaxis(t2, 0, -1), fm, mf[im], True))     # (col2, col1)
            v = pos(lin(v, fc[0], cf[0], True))
            v = pos(lin(v.T, fc[1], cf[1], True)).T                    # (col2, col1)
            offtab[im] = (v, v.sum()*0.01*0.01)
        return offtab[im]

    for i in range(n):
        cs, cd, co = set(), set(), set()
        for dm in (-EDGE, 0, EDGE):
            im0 = int(np.searchsorted(mf, mag[i] + dm - 0.01))
            im = min(im0, mf.size - 1)
            v = pos(lin(t.T, fm, mf[im], True))
            nn = v.sum()*(0.01/0.02)
            ar = lin(areas.astype('f4').astype('f8'), fm, mf[im], True) if case['area'] else 1.0
            for dc in (-EDGE, 0, EDGE):
                ic0 = int(np.searchsorted(cf[k], col[k][i] + dc - 0.01))
                ic = min(ic0, cf[k].size - 1)
                d = float(pos(lin(v, fc[k], cf[k][ic], True)))
                cd.add(d/nn if nn > 0 else np.nan)
                if im0 >= mf.size or ic0 >= cf[k].size or d == 0.0:
                    cs.add(np.inf)
                else:
                    cs.add(d/ar)
                i1 = min(int(np.searchsorted(cf[0], col[0][i] + dc - 0.01)), cf[0].size - 1)
                for de in (-EDGE, 0, EDGE):
                    i2 = min(int(np.searchsorted(cf[1], col[1][i] + de - 0.01)), cf[1].size - 1)
                    tab, norm = off_table(im)
                    co.add(float(tab[i2, i1])/norm)
        match(sg[i], cs, 'colour background (colour %g mag %g)' % (col[k][i], mag[i]), i)
        if not any(np.isnan(x) for x in cd):
            match(ld[i], cd, 'diagonal look-up', i)
        match(lo[i], co, 'off-diagonal look-up', i)
        lab.add('inf' if np.isinf(sg[i]) else 'in')
    try:
        b.lookup_diagonal(7, col[0], mag)
        require(False, 'missing colour not reported')
    except KeyError:
        pass
    require(np.all(b.lookup_diagonal(7, col[0], mag, doRaise=False) == 0) and
            np.all(b.lookup_offdiag(7, 8, col[0], col[1], mag, doRaise=False) == 0), 'missing colour without raising')
    return '+'.join(sorted(lab))


seed = st.integers(0, 2**31 - 1)
s1 = st.fixed_dictionaries(dict(seed=seed, nz=st.integers(2, 5), nm=st.integers(2, 6), nc=st.integers(2, 12), cb=st.sampled_from([0.5, 0.25]),
                                nln=st.integers(2, 14), n=st.integers(1, 12), zero=st.booleans(), allow0=st.booleans(),
                                zarr=st.booleans()))
s2 = st.fixed_dictionaries(dict(seed=seed, nz=st.integers(2, 8), nm=st.integers(2, 8), n=st.integers(1, 15)))
s3 = st.fixed_dictionaries(dict(seed=seed, nm=st.integers(2, 8), n=st.integers(1, 12), zero=st.booleans(), area=st.booleans(),
                                col=st.integers(0, 1)))
TESTS = ([T('chisq-%d' % i, s1, check_chisq, 200, 4000, 'table with requests inside and outside') for i in range(3)] +
         [T('zred-%d' % i, s2, check_zred, 300, 6000, 'table with requests inside and outside') for i in range(2)] +
         [T('colour-%d' % i, s3, check_color, 200, 4000, 'table with requests inside and outside') for i in range(3)])
