"""C03: colour chi-squared in all modes and layouts."""
import numpy as np
from hypothesis import strategies as st

from vp.core import T, require
from redmapper.chisq_dist import compute_chisq

ASSUMPTIONS = ['covariances with an eigenvalue below 1e-6 are repaired by raising it to 1e-6; '
               'an intrinsic variance below 1e-6 gives the sentinel 1e11']
MIN_EIG = 1e-6
SEEN = {}


def make(case):
    n, ncol = case['n'], case['ncol']
    rs = np.random.RandomState(case['seed'])
    d = dict(n=n, ncol=ncol)
    d['cov'] = np.zeros((n, ncol, ncol))
    for i in range(n):
        s = 10.**rs.uniform(-2, -0.7, size=ncol)
        if case['kind'] == 'indef':
            # correlations that need not be consistent with each other
            c = rs.uniform(-.99, .99, size=(ncol, ncol))
            c = np.sign(c) * np.abs(c)**0.3 * 0.99
            c = np.triu(c, 1)
            c = c + c.T + np.eye(ncol)
        elif case['kind'] == 'diag':
            c = np.eye(ncol)
        else:
            a = rs.normal(size=(ncol, ncol + 2))
            c = np.dot(a, a.T)
            q = np.sqrt(np.diag(c))
            c = c / np.outer(q, q)
        d['cov'][i] = c * np.outer(s, s)
    d['cov'] = 0.5 * (d['cov'] + d['cov'].transpose(0, 2, 1))
    if case['tiny'] is not None:
        i = case['tiny'] % n
        j = case['tiny'] % ncol
        d['cov'][i, j, :] = 0.0
        d['cov'][i, :, j] = 0.0
        d['cov'][i, j, j] = 1e-7
    d['c'] = rs.uniform(-0.5, 2., size=(n, ncol))
    d['slope'] = rs.uniform(-0.1, 0.1, size=(n, ncol))
    d['pivot'] = rs.uniform(16., 22., size=n)
    d['refmag'] = rs.uniform(14., 24., size=n)
    d['refmagerr'] = 10.**rs.uniform(-3, -0.3, size=n) if case['rme'] else None
    d['magerr'] = 10.**rs.uniform(-3, 0, size=(n, ncol + 1))
    if case['zeroerr'] and case['kind'] != 'indef':
        d['magerr'][rs.uniform(size=d['magerr'].shape) < 0.3] = 0.0
    d['color'] = d['c'] + rs.normal(size=(n, ncol)) * case['off']
    d['lup'] = rs.normal(size=(n, ncol)) * 0.05 if case['lup'] else None
    if case['f4']:
        # values representable in single precision, so a dtype change is exact
        for k in d:
            if isinstance(d[k], np.ndarray):
                d[k] = d[k].astype('f4').astype('f8')
        d['cov'] = 0.5*(d['cov'] + d['cov'].transpose(0, 2, 1))
    return d


def ref(cov, c, slope, pivot, refmag, rme, magerr, color, lup, nophot):
    """(chisq, lkhd, conditioning) for one pair."""
    ncol = c.size
    if np.any(np.diag(cov) < 1e-6):
        return 1e11, -1e11, 1.0
    C = cov.copy()
    if not nophot:
        J = np.zeros((ncol, ncol + 1))
        for j in range(ncol):
            J[j, j] = 1.
            J[j, j+1] = -1.
        C = C + np.dot(J * magerr**2, J.T)
    if rme is not None:
        C = C + np.outer(slope, slope) * rme**2
    w, v = np.linalg.eigh(C)
    if np.any(w < MIN_EIG):
        w = np.clip(w, MIN_EIG, None)
    d = c + slope*(refmag - pivot) + (0 if lup is None else lup) - color
    y = np.dot(v.T, d)
    chisq = np.sum(y**2 / w)
    if w.min() <= MIN_EIG:
        SEEN['repaired'] = True
    return chisq, -0.5*chisq - 0.5*np.sum(np.log(w)), w.max()/w.min()


def lay(a, how):
    """The same array in another memory layout / dtype."""
    if a is None or how == 'C':
        return a
    if how == 'F':
        return np.asfortranarray(a)
    if how == 'stride':
        b = np.full(tuple(2*s for s in a.shape), -7.5)
        sl = tuple(slice(1, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if how == 'rev':
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == 'f4':
        return a.astype('f4')
    if how == 'big':
        return a.astype('>f8')
    if how == 'slow':    # last axis slowest in memory
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, -1, 0)), 0, -1)
    raise ValueError(how)


def call(mode, d, idx, nophot, lays, both=True):
    """compute_chisq on the pairs selected by idx in the given mode."""
    L = lambda k, a: lay(a, lays[k])
    none = lambda k: d[k] is None
    cov3 = np.ascontiguousarray(d['cov'][idx].transpose(1, 2, 0))
    if mode == 0:
        i = idx[0]
        a = (L('cov', d['cov'][i].copy()), L('c', d['c'][i].copy()), L('slope', d['slope'][i].copy()),
             np.array(d['pivot'][i]), L('refmag', d['refmag'][idx]), L('magerr', d['magerr'][idx]),
             L('color', d['color'][idx]))
        kw = dict(refmagerr=None if none('refmagerr') else L('refmag', d['refmagerr'][idx]),
                  lupcorr=None if none('lup') else L('lup', d['lup'][idx]))
    elif mode == 1:
        i = idx[0]
        a = (L('cov', cov3), L('c', d['c'][idx]), L('slope', d['slope'][idx]), L('pivot', d['pivot'][idx]),
             np.array(d['refmag'][i]), L('magerr', d['magerr'][i].copy()), L('color', d['color'][i].copy()))
        kw = dict(refmagerr=None if none('refmagerr') else np.array(d['refmagerr'][i]),
                  lupcorr=None if none('lup') else L('lup', d['lup'][idx]))
    else:
        a = (L('cov', cov3), L('c', d['c'][idx]), L('slope', d['slope'][idx]), L('pivot', d['pivot'][idx]),
             L('refmag', d['refmag'][idx]), L('magerr', d['magerr'][idx]), L('color', d['color'][idx]))
        kw = dict(refmagerr=None if none('refmagerr') else L('refmag', d['refmagerr'][idx]),
                  lupcorr=None if none('lup') else L('lup', d['lup'][idx]))
    arrs = [x for x in list(a) + list(kw.values()) if isinstance(x, np.ndarray)]
    before = [x.copy() for x in arrs]
    if both:
        out = compute_chisq(*a, calc_chisq=True, calc_lkhd=True, nophotoerr=nophot, **kw)
        require(isinstance(out, tuple) and len(out) == 2, 'chisq and likelihood not both returned')
        x1 = compute_chisq(*a, calc_chisq=True, calc_lkhd=False, nophotoerr=nophot, **kw)
        x2 = compute_chisq(*a, calc_chisq=False, calc_lkhd=True, nophotoerr=nophot, **kw)
        require(np.array_equal(x1, out[0]) and np.array_equal(x2, out[1]),
                'asking for one quantity changes it')
    for x, y in zip(arrs, before):
        require(np.array_equal(x, y), 'input array modified')
    return np.array(out[0]), np.array(out[1])


def expected(mode, d, idx, nophot):
    r = []
    g = lambda k, i: None if d[k] is None else d[k][i]
    for i in idx:
        m = idx[0] if mode == 0 else i      # model row
        o = idx[0] if mode == 1 else i      # galaxy row
        lup = g('lup', i)
        r.append(ref(d['cov'][m], d['c'][m], d['slope'][m], d['pivot'][m], d['refmag'][o],
                     g('refmagerr', o), d['magerr'][o], d['color'][o], lup, nophot))
    return np.array(r).reshape(-1, 3)


def close(x, e, cond, what, mode):
    tol = 1e-7 + 1e-13 * cond
    bad = ~(np.abs(x - e) <= tol * (1 + np.abs(e)))
    require(not np.any(bad), 'mode %d: %s[%s] is %s, expected %s', mode, what,
            np.flatnonzero(bad)[:1], x[bad][:1], e[bad][:1])


def check(case):
    SEEN.clear()
    d = make(case)
    n = d['n']
    lays = case['lays']
    if case['f4']:
        lays = {k: 'f4' if v == 'C' else v for k, v in lays.items()}
    idx = np.arange(n)
    res = {}
    for mode in (0, 1, 2):
        e = expected(mode, d, idx, case['nophot'])
        x, l = call(mode, d, idx, case['nophot'], lays)
        require(x.shape == (n,) and l.shape == (n,), 'mode %d: shapes', mode)
        close(x, e[:, 0], e[:, 2], 'chisq', mode)
        close(l, e[:, 1], e[:, 2], 'likelihood', mode)
        res[mode] = (x, l)
    # one pair at a time gives the same number in every mode
    plain = {k: 'C' for k in lays}
    for i in range(n):
        one = np.array([i])
        v = [call(m, d, one, case['nophot'], plain) for m in (0, 1, 2)]
        for m in (0, 1):
            require(abs(v[m][0][0] - v[2][0][0]) <= 1e-7*(1 + abs(v[2][0][0])),
                    'modes %d and 2 disagree: %r %r', m, v[m][0][0], v[2][0][0])
        require(abs(v[2][0][0] - res[2][0][i]) <= 1e-7*(1 + abs(v[2][0][0])) and
                abs(v[2][1][0] - res[2][1][i]) <= 1e-7*(1 + abs(v[2][1][0])),
                'pair %d depends on the other galaxies', i)
    perm = np.array(case['perm'])
    perm = np.argsort(np.random.RandomState(case['seed']+1).uniform(size=n)) if n > 1 else idx
    x, l = call(2, d, perm, case['nophot'], plain)
    require(np.allclose(x, res[2][0][perm], rtol=1e-7, atol=1e-7), 'result depends on galaxy order')
    return case['kind'] + ('-repaired' if SEEN else '') + ('-layout' if any(v != 'C' for v in lays.values()) else '')


def check_bad(case):
    """Inconsistent shapes are refused, not silently misread."""
    d = make(dict(case, kind='pd', tiny=None, f4=False, zeroerr=False))
    n, ncol, mode = d['n'], d['ncol'], case['mode']
    idx = np.arange(n)
    cov3 = np.ascontiguousarray(d['cov'].transpose(1, 2, 0))
    a = dict(covmat=d['cov'][0] if mode == 0 else cov3, c=d['c'][0] if mode == 0 else d['c'],
             slope=d['slope'][0] if mode == 0 else d['slope'],
             pivotmag=np.array(d['pivot'][0]) if mode == 0 else d['pivot'],
             refmag=np.array(d['refmag'][0]) if mode == 1 else d['refmag'],
             magerr=d['magerr'][0] if mode == 1 else d['magerr'],
             color=d['color'][0] if mode == 1 else d['color'])
    compute_chisq(**a)
    k = case['which']
    x = a[k]
    if k == 'refmag' and mode == 1:
        a['refmagerr'] = np.zeros(n + 1)
    elif x.ndim == 0:
        a[k] = np.array([float(x)]*2)
    else:
        ax = case['axis'] % x.ndim
        if k == 'covmat' and mode == 2:
            ax = 2      # the documented per-galaxy axis
        if k == 'c':
            ax = x.ndim - 1
        a[k] = np.concatenate((x, np.take(x, [0], axis=ax)), axis=ax)
    try:
        compute_chisq(**a)
    except ValueError:
        return k
    require(False, 'mode %d: wrong shape of %s accepted', mode, k)


how2 = st.sampled_from(['C', 'C', 'F', 'stride', 'rev', 'f4x', 'big']).map(lambda x: 'C' if x == 'f4x' else x)
lays = st.fixed_dictionaries(dict(
    cov=st.sampled_from(['C', 'F', 'slow', 'stride', 'big']), c=how2, slope=how2, pivot=how2,
    refmag=how2, magerr=how2, color=how2, lup=how2))
base = dict(n=st.integers(1, 7), ncol=st.integers(1, 5), seed=st.integers(0, 2**31),
            rme=st.booleans(), lup=st.booleans(), nophot=st.sampled_from([False, False, True]),
            off=st.sampled_from([0.0, 0.05, 0.3, 2.0]))
strat = st.fixed_dictionaries(dict(
    base, kind=st.sampled_from(['pd', 'pd', 'diag', 'indef']),
    tiny=st.one_of(st.none(), st.none(), st.integers(0, 30)), zeroerr=st.booleans(),
    f4=st.booleans(), lays=st.one_of(st.just({k: 'C' for k in ('cov', 'c', 'slope', 'pivot', 'refmag',
                                                             'magerr', 'color', 'lup')}), lays),
    perm=st.just([])))
bad = st.fixed_dictionaries(dict(base, mode=st.integers(0, 2), axis=st.integers(0, 2),
                                 which=st.sampled_from(['covmat', 'slope', 'pivotmag', 'refmag', 'magerr', 'color'])))

TESTS = [T('gls-%d' % i, strat, check, 900, 20000, 'three modes compared with numpy linear algebra; label = covariance kind / non-standard layout')
         for i in range(5)] + [
         T('shapes', bad, check_bad, 300, 3000, 'one input array given one row/column too many')]
