"""C26: calibration fitters."""
import numpy as np
from scipy import special
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W
from redmapper.fitters import (MedZFitter, RedSequenceFitter, RedSequenceOffDiagonalFitter, CorrectionFitter,
                               EcgmmFitter, ErrorBinFitter)
from redmapper.calibration.zlambdacal import ZLambdaFitter
from redmapper.calibration.centeringcal import WcenFgFitter, WcenCFitter, WcenCwFitter

ASSUMPTIONS = ['redshifts lie inside the nodes', 'at least three nodes per spline', 'fitted start values respect the bounds',
               'evaluations with a point on the edge of floating-point underflow are not compared']


class Edge(Exception):
    """The reference is not well conditioned at this point."""


def recorded(cls):
    class Recorded(cls):
        def __init__(self, *a, **k):
            self.history = []
            super().__init__(*a, **k)

        def __call__(self, pars):
            pars = np.asarray(pars)
            before = pars.copy()
            v = super().__call__(pars)
            require(np.array_equal(pars, before), '%s changed the parameters it was given', cls.__name__)
            self.history.append((before, float(v)))
            return v
    return Recorded


def expo(e):
    """exp(e), refusing arguments at the edge of underflow."""
    if np.any((e < -690) & (e > -760)):
        raise Edge()
    return np.exp(e)


def same(v, r, n):
    return np.isfinite(v) and abs(v - r) <= 1e-7*n + 1e-8*abs(r)


def compare(hist, ref, n, who, step=1):
    """Every recorded evaluation equals the reference."""
    k = 0
    for pars, v in hist[::step] + hist[-1:]:
        try:
            r = ref(pars)
        except Edge:
            continue
        k += 1
        require(same(v, r, n), '%s objective at %s is %.10g, definition gives %.10g', who, np.round(pars, 6).tolist(), v, r)
    return k


def frozen(arrs):
    return [None if a is None else np.array(a, copy=True) for a in arrs]


def unchanged(arrs, copies, who):
    for a, c in zip(arrs, copies):
        require(a is None or np.array_equal(a, c), '%s changed the data it was given', who)


def improved(ref, start, end, n, who, lo=None, hi=None, gain=None):
    """End is no worse than start and inside the bounds."""
    if lo is not None:
        require(np.all(end >= np.asarray(lo) - 1e-9) and np.all(end <= np.asarray(hi) + 1e-9), '%s left its bounds: %s', who, end.tolist())
        start = np.clip(start, lo, hi)
    try:
        a, b = ref(start), ref(end)
    except Edge:
        return False
    require(np.isfinite(b) and b <= a + 1e-6*(n + abs(a)), '%s made the objective worse: %.8g to %.8g', who, a, b)
    if gain is not None:
        c = ref(gain)
        require(b <= c + 0.3*max(a - c, 0.0) + 0.05*n + 0.5, '%s stopped at %.6g although %.6g is reachable (start %.6g)', who, b, c, a)
    return True


def nodes(rs, lo, hi, n):
    x = np.linspace(lo, hi, n)
    x[1:-1] += rs.uniform(-0.3, 0.3, n - 2)*(hi - lo)/(n - 1)
    return x


# ---------------------------------------------------------------- median
def t_median(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    x = nodes(rs, 0.1, 0.5, case['nn'])
    z = rs.uniform(0.1, 0.5, n)
    true = rs.uniform(-1, 1, x.size)*case['amp']
    y = W.natural_spline(x, true, z) + rs.normal(0, case['sig'], n)
    if case['f4']:
        x, z, y = x.astype('f4'), z.astype('f4'), y.astype('f4')
        z = np.clip(z, x[0], x[-1])
    data = [x, z, y]
    cp = frozen(data)

    def ref(p):
        return np.sum(np.abs(y.astype('f8') - W.natural_spline(x, p, z.astype('f8'))))
    fit = recorded(MedZFitter)(*data)
    p0 = np.full(x.size, np.median(y), dtype='f8') if case['start'] == 'median' else rs.uniform(-1, 1, x.size)*case['amp']
    lo, hi = case['lo'], case['hi']
    for rep in range(2):
        kw = {}
        if lo is not None:
            kw['min_val'] = lo
        if hi is not None:
            kw['max_val'] = hi
        fit.history = []
        p = np.array(fit.fit(p0.copy(), **kw))
        require(p.shape == x.shape, 'median fit returned %s', p.shape)
        compare(fit.history, ref, n, 'median', 7)
        good = n > 20 and lo is None and hi is None and case['sig'] > 0.01
        improved(ref, p0, p, n, 'median fit', -np.inf if lo is None else lo, np.inf if hi is None else hi)
        if good and rep == 0:
            require(ref(p) <= ref(true) + 0.2*n*case['sig'] + 0.02*n*case['amp'], 'median fit ends at %.5g although the truth has %.5g', ref(p), ref(true))
        p0 = p
    o = rs.permutation(n)
    g = MedZFitter(x, z[o], y[o])
    for q in (p, true):
        require(same(float(g(q)), ref(q), n) and same(float(fit(q)), ref(q), n), 'median objective depends on the data order')
    unchanged(data, cp, 'median fitter')
    return 'bounded' if lo is not None or hi is not None else 'free'


MEDIAN = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 80), 'nn': st.integers(3, 6), 'amp': st.sampled_from([0.1, 1.0, 20.0]),
                                'sig': st.sampled_from([0.0, 0.02, 0.3]), 'f4': st.booleans(), 'start': st.sampled_from(['median', 'random']),
                                'lo': st.sampled_from([None, None, -0.05, 0.0]), 'hi': st.sampled_from([None, None, 0.06, 0.5])})


# ---------------------------------------------------------------- red sequence
class RedRef(object):
    def __init__(self, d):
        self.d = d

    def errors(self, e0, ep, ind):
        d = self.d
        ratio = ep[0] + ep[1]*d['derr']
        e1 = d['err'][:, 1]**2*(ratio**2 if 1 in ind else 1.0)
        return (d['err'][:, 0]**2 if e0 is None else e0)*(ratio**2 if 0 in ind else 1.0) + e1

    def __call__(self, mean, slope, scat, smin, ep, ind, prior, e0=None):
        d = self.d
        z = d['z']
        sig = np.sqrt(np.clip(W.natural_spline(d['sx'], scat, z), smin, None)**2 + self.errors(e0, ep, ind))
        model = W.natural_spline(d['mx'], mean, z)
        if d['dmag'] is not None:
            model = model + W.natural_spline(d['lx'], slope, z)*d['dmag'] + (d['lup'] if d['lup'] is not None else 0.0)
        g = expo(-0.5*((d['col'] - model)/sig)**2)/(np.sqrt(2*np.pi)*sig)
        if d['trunc'] is not None:
            g = g/special.erf(d['trunc']/sig/np.sqrt(2))
        with np.errstate(all='ignore'):
            v = np.log(g if d['prob'] is None else d['prob']*g + (1 - d['prob'])*d['bkg'])
        v[~np.isfinite(v)] = -100.0
        t = -np.sum(v)
        if prior:
            t += np.sum(np.log(np.clip(scat, smin, None)))
        return t


def t_red(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    d = dict(mx=nodes(rs, 0.1, 0.4, case['nn'][0]))
    d['lx'] = nodes(rs, 0.1, 0.4, case['nn'][1]) if case['nn'][1] else d['mx']
    d['sx'] = nodes(rs, 0.1, 0.4, case['nn'][2]) if case['nn'][2] else d['mx']
    d['z'] = rs.uniform(0.1, 0.4, n)
    d['dmag'] = rs.uniform(-1.5, 1.5, n) if case['dmag'] else None
    d['lup'] = rs.normal(0, 0.03, n) if case['dmag'] and case['lup'] else None
    d['derr'] = rs.uniform(-1, 1, n) if case['derr'] else np.zeros(n)
    d['trunc'] = rs.uniform(0.2, 0.6, n) if case['trunc'] else None
    d['prob'] = rs.uniform(0.3, 0.99, n) if case['prob'] else None
    d['bkg'] = rs.uniform(0.05, 1.0, n) if case['prob'] else None
    d['err'] = rs.uniform(0.01, 0.06, (n, 2))
    mean, slope, scat = rs.uniform(0.5, 1.5, d['mx'].size), rs.uniform(-0.05, 0.05, d['lx'].size), rs.uniform(0.02, 0.08, d['sx'].size)
    tot = np.sqrt(W.natural_spline(d['sx'], scat, d['z'])**2 + d['err'][:, 0]**2 + d['err'][:, 1]**2)
    d['col'] = W.natural_spline(d['mx'], mean, d['z']) + (W.natural_spline(d['lx'], slope, d['z'])*d['dmag'] if case['dmag'] else 0) + \
        rs.normal(0, 1, n)*tot + (d['lup'] if d['lup'] is not None else 0)
    smax = rs.uniform(0.1, 0.3, d['sx'].size) if case['smax'] else None
    raw = [d['mx'], d['z'], d['col'], d['err'], d['dmag'], d['trunc'], d['lx'], d['sx'], d['lup'], d['prob'], d['bkg'], smax, d['derr']]
    cp = frozen(raw)

    def make(o=None):
        s = (lambda a: None if a is None else a) if o is None else (lambda a: None if a is None else a[o])
        return recorded(RedSequenceFitter)(d['mx'], s(d['z']), s(d['col']), s(d['err']), dmags=s(d['dmag']), trunc=s(d['trunc']),
                                           slope_nodes=d['lx'] if case['nn'][1] else None, scatter_nodes=d['sx'] if case['nn'][2] else None,
                                           lupcorrs=s(d['lup']), probs=s(d['prob']), bkgs=s(d['bkg']), scatter_max=smax,
                                           use_scatter_prior=case['prior'], dmags_err_ratio=s(d['derr']) if case['derr'] else None)
    ref = RedRef(d)
    fit = make()
    m0, l0, s0 = mean + rs.normal(0, 0.03, mean.size), slope*0.5, np.full(scat.size, 0.05)
    stored, drift, label = d['err'][:, 0]**2, False, 'plain'
    for what, ratio in case['ops']:
        what = [w for w in what if case['dmag'] or w != 'slope']
        if not what:
            what = ['mean']
        fm, fl, fs = 'mean' in what, 'slope' in what, 'scatter' in what
        ep0 = [1.1, 0.05]
        ind = list(ratio) if ratio is not None else []
        kw = {'min_scatter': case['smin']}
        if ratio is not None:
            kw.update(err_ratio_pars=list(ep0), fit_err_ratio_ind=list(ratio))
        efix = ep0 if ratio is not None else [1.0, 0.0]
        ia, ib, ic = mean.size*fm, mean.size*fm + slope.size*fl, mean.size*fm + slope.size*fl + scat.size*fs

        def val(p, e0=None, m0=m0, l0=l0, s0=s0):
            return ref(p[:ia] if fm else m0, p[ia:ib] if fl else l0, p[ib:ic] if fs else s0, case['smin'],
                       p[-2:] if fs and ratio is not None else efix, ind, case['prior'] and fs, e0=e0)
        fit.history = []
        out = fit.fit(m0.copy(), l0.copy(), s0.copy(), fit_mean=fm, fit_slope=fl, fit_scatter=fs, **kw)
        want = [x.size for x, f in ((mean, fm), (slope, fl)) if f] + ([scat.size + (2 if ratio is not None else 0)] if fs else [])
        require([np.size(a) for a in out] == want, 'red-sequence fit of %s returned pieces of %s, not %s', what, [np.size(a) for a in out], want)
        allp = np.concatenate(out)
        probe = [allp, np.concatenate([a for a, f in ((m0, fm), (l0, fl), (s0, fs)) if f] + ([np.array([1.4, -0.1])] if fs and ratio is not None else []))]
        for q in probe + probe:
            fit(q)
        # known finding: whenever the first error is not scaled, an evaluation adds the second error to the stored first one
        clean = 0 in ind
        now = stored
        if not fs and not clean:
            stored = ref.errors(stored, efix, ind)
        for i, (p, v) in enumerate(fit.history):
            if fs:
                now = stored
                if not clean:
                    stored = ref.errors(stored, p[-2:] if ratio is not None else efix, ind)
            try:
                if same(v, val(p), n):
                    continue
                require(same(v, val(p, now), n), 'red-sequence objective of %s (evaluation %d) at %s is %.9g, definition gives %.9g', what, i, np.round(p, 5).tolist(), v, val(p))
            except Edge:
                continue
            drift = True
        j = 0
        for a, f, nm in ((mean, fm, 'mean'), (slope, fl, 'slope')):
            if f:
                require(np.all(np.isfinite(out[j])), 'red-sequence %s is not finite', nm)
                j += 1
        if fs:
            sc = np.asarray(out[j][:scat.size])
            require(np.all(sc >= case['smin'] - 1e-9) and (smax is None or np.all(sc <= smax + 1e-9)), 'fitted scatter %s outside its bounds', sc.tolist())
            if ratio is not None:
                er = out[j][scat.size:]
                require(0.5 - 1e-9 <= er[0] <= 10 + 1e-9 and -5 - 1e-9 <= er[1] <= 5 + 1e-9, 'error ratio %s outside its bounds', list(er))
        if not drift:
            try:
                base = probe[1].copy()
                if fs and ratio is not None:
                    base[-2:] = ep0
                a, b = val(base), val(allp)
                require(b <= a + 1e-6*(n + abs(a)), 'red-sequence fit of %s made the objective worse: %.8g to %.8g', what, a, b)
                tr = np.concatenate([x for x, f in ((mean, fm), (slope, fl), (scat, fs)) if f] + ([np.array([1.0, 0.0])] if fs and ratio is not None else []))
                if n >= 20:
                    require(b <= val(tr) + 0.1*n + 1 or b <= a - 0.5*(a - val(tr)), 'red-sequence fit of %s stopped at %.6g; the truth gives %.6g (start %.6g)', what, b, val(tr), a)
            except Edge:
                pass
        j = 0
        if fm:
            m0 = np.array(out[j])
            j += 1
        if fl:
            l0 = np.array(out[j])
            j += 1
        if fs:
            s0 = np.array(out[j][:scat.size])
            label = 'scatter'
    if not drift and 'mean' in case['ops'][0][0]:
        o = rs.permutation(n)
        g = make(o)
        g.fit(m0.copy(), l0.copy(), s0.copy(), fit_mean=True, min_scatter=case['smin'])
        try:
            r = ref(m0, l0, s0, case['smin'], [1.0, 0.0], [], False)
            require(same(g(m0), r, n), 'red-sequence objective depends on the data order: %.9g, %.9g', g(m0), r)
        except Edge:
            pass
    unchanged(raw, cp, 'red-sequence fitter')
    if drift:
        raise Violation('the stored magnitude errors grow by the second error at every scatter evaluation', sig='magnitude-errors-grow')
    return label


WHAT = st.lists(st.sampled_from(['mean', 'slope', 'scatter']), min_size=1, max_size=3, unique=True)
RATIO = st.sampled_from([None, (0, 1), (0,), (1,)])


def red(ops):
    return st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(2, 60), 'nn': st.tuples(st.integers(3, 5), st.sampled_from([0, 3]), st.sampled_from([0, 3, 4])),
                                  'dmag': st.booleans(), 'lup': st.booleans(), 'derr': st.booleans(), 'trunc': st.booleans(), 'prob': st.booleans(), 'smax': st.booleans(),
                                  'prior': st.booleans(), 'smin': st.sampled_from([0.001, 0.001, 0.04]), 'ops': ops})


CLEAN = red(st.one_of(st.lists(st.tuples(WHAT, st.sampled_from([(0, 1), (0,)])), min_size=1, max_size=3),
                      st.tuples(st.tuples(st.sampled_from([('mean',), ('slope',), ('mean', 'slope')]), RATIO)).map(list)))
DRIFT = red(st.lists(st.tuples(WHAT, RATIO), min_size=1, max_size=2))


# ---------------------------------------------------------------- off-diagonal
def t_offdiag(case):
    rs = np.random.RandomState(case['seed'])
    n, nc = case['n'], case['nc']
    x = nodes(rs, 0.1, 0.4, case['nn'])
    z = rs.uniform(0.1, 0.4, n)
    j = rs.randint(0, nc - 1)
    k = rs.randint(j + 1, nc)
    s1, s2 = rs.uniform(0.02, 0.1, n), rs.uniform(0.02, 0.1, n)
    me = rs.uniform(0.005, 0.05, (n, nc + 1))
    r = np.clip(W.natural_spline(x, rs.uniform(-0.8, 0.8, x.size), z), -0.85, 0.85)
    c = np.zeros((n, 2, 2))
    c[:, 0, 0], c[:, 1, 1] = s1**2 + me[:, j]**2 + me[:, j + 1]**2, s2**2 + me[:, k]**2 + me[:, k + 1]**2
    c[:, 0, 1] = c[:, 1, 0] = r*s1*s2 - (me[:, k]**2 if k == j + 1 else 0)
    d = np.array([np.linalg.cholesky(m).dot(rs.normal(size=2)) for m in c])
    prob, bkg = rs.uniform(0.3, 1.0, n), rs.uniform(0.0, 3.0, n)
    full = None
    if case['full']:
        full = np.zeros((nc, nc, x.size))
        for i in range(x.size):
            sg = rs.uniform(0.02, 0.1, nc)
            full[:, :, i] = np.diag(sg**2)
            for _ in range(2):
                a, b = rs.randint(nc), rs.randint(nc)
                if a != b and {a, b} != {j, k}:
                    full[a, b, i] = full[b, a, i] = rs.uniform(-0.6, 0.6)*sg[a]*sg[b]
    prior = case['prior']
    data = [x, z, d[:, 0].copy(), d[:, 1].copy(), s1, s2, me]
    cp = frozen(data + [prob, bkg])
    orig = None if full is None else full.copy()
    fit = recorded(RedSequenceOffDiagonalFitter)(*data, j, k, prob, bkg, prior, min_eigenvalue=case['eig'])

    def ref(p):
        rr = np.clip(W.natural_spline(x, p, z), -0.9, 0.9)
        m = c.copy()
        m[:, 0, 1] = m[:, 1, 0] = rr*s1*s2 - (me[:, k]**2 if k == j + 1 else 0)
        e = -0.5*np.einsum('ni,nij,nj->n', d, np.linalg.inv(m), d)
        det = np.linalg.det(m)
        if np.any(det <= 0) or np.any(det < 1e-6*m[:, 0, 0]*m[:, 1, 1]):
            raise Edge()
        g = expo(e)/(2*np.pi*np.sqrt(det))
        with np.errstate(all='ignore'):
            v = np.log(prob*g + (1 - prob)*bkg)
        v[~np.isfinite(v)] = -100.0
        t = -np.sum(v) + np.sum(0.5*(p/prior)**2)
        if orig is not None:
            for i in range(x.size):
                a = orig[:, :, i].copy()
                a[j, k] = a[k, j] = p[i]*np.sqrt(a[j, j]*a[k, k])
                ev = np.linalg.eigvalsh(a).min()
                if abs(ev - case['eig']) < 1e-9:
                    raise Edge()
                if ev < case['eig']:
                    return t + 100000.0
        return t
    p0 = np.zeros(x.size) if case['start'] == 'zero' else rs.uniform(-0.5, 0.5, x.size)
    p = np.array(fit.fit(p0.copy(), full_covmats=full))
    used = compare(fit.history, ref, n, 'off-diagonal', 3)
    improved(ref, p0, p, n, 'off-diagonal fit', -0.9, 0.9)
    for q in (p, p0, p):
        try:
            require(same(float(fit(q)), ref(q), n), 'off-diagonal objective changes between evaluations')
        except Edge:
            pass
    if full is not None:
        m = np.ones((nc, nc), dtype=bool)
        m[j, k] = m[k, j] = False
        require(np.array_equal(full[m], orig[m]), 'off-diagonal fit changed other elements of the covariance')
    unchanged(data + [prob, bkg], cp, 'off-diagonal fitter')
    return ('full' if full is not None else 'pair') if used else False


OFFD = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 50), 'nc': st.integers(2, 4), 'nn': st.integers(3, 5), 'full': st.booleans(),
                              'prior': st.sampled_from([0.45, 0.2, 1.0]), 'eig': st.sampled_from([0.0, 1e-4, 5e-4]), 'start': st.sampled_from(['zero', 'random'])})


# ---------------------------------------------------------------- correction
def t_corr(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    xs = [nodes(rs, 0.1, 0.5, case['nn'][0])]
    for q in case['nn'][1:]:
        xs.append(nodes(rs, 0.1, 0.5, q) if q else None)
    mx = xs[0]
    lx = mx if xs[1] is None else xs[1]
    rx, bx = (lx if xs[i] is None else xs[i] for i in (2, 3))
    z = rs.uniform(0.1, 0.5, n)
    mean, slope = rs.uniform(-0.02, 0.02, mx.size), rs.uniform(-0.01, 0.01, lx.size)
    rr, bk = rs.uniform(0.6, 1.6, rx.size), rs.uniform(0.001, 0.01, bx.size)
    dm = rs.uniform(-1, 1, n) if case['dmag'] else None
    ze = rs.uniform(0.005, 0.03, n)
    prob = rs.uniform(0.2, 1.0, n) if case['prob'] else None
    ws = rs.uniform(0.1, 1.0, n) if case['ws'] else None
    dz = W.natural_spline(mx, mean, z) + (W.natural_spline(lx, slope, z)*dm if dm is not None else 0) + rs.normal(0, 1, n)*ze
    out = rs.uniform(size=n) < 0.1
    dz[out] = rs.normal(0, 0.07, out.sum())
    pr = np.ones(n) if prob is None else prob
    w = np.ones(n) if ws is None else ws
    dmv = np.zeros(n) if dm is None else dm
    data = [mx, z, dz, ze, xs[1], xs[2], xs[3], prob, dm, ws]
    cp = frozen(data)
    fit = recorded(CorrectionFitter)(mx, z, dz, ze, slope_nodes=xs[1], r_nodes=xs[2], bkg_nodes=xs[3], probs=prob, dmags=dm, ws=ws)
    cur = [np.zeros(mx.size), np.zeros(lx.size), np.ones(rx.size), np.full(bx.size, 0.005)]
    for flags in case['ops']:
        flags = list(flags)
        if not any(flags):
            flags[0] = True

        def parts(p, cur=tuple(c.copy() for c in cur)):
            o, i = [], 0
            for c, f in zip(cur, flags):
                if f:
                    o.append(p[i:i + c.size])
                    i += c.size
                else:
                    o.append(c)
            return o

        def ref(p):
            m, l, r, b = parts(p)
            bb = np.clip(W.natural_spline(bx, b, z), 1e-10, None)
            var = (W.natural_spline(rx, r, z)*ze)**2
            if np.any(var < 1e-12):
                raise Edge()
            g1 = expo(-dz**2/(2*bb))/np.sqrt(2*np.pi*bb)
            g0 = expo(-(dz - W.natural_spline(mx, m, z) - W.natural_spline(lx, l, z)*dmv)**2/(2*var))/np.sqrt(2*np.pi*var)
            v = w*(pr*g0 + (1 - pr)*g1)
            v[~np.isfinite(v) | (v <= 0)] = 4e-44
            return -np.sum(np.log(v))
        p0 = np.concatenate([c for c, f in zip(cur, flags) if f])
        lo = np.concatenate([np.full(c.size, b) for c, f, b in zip(cur, flags, (-np.inf, -np.inf, 0.1, 0.0)) if f])
        hi = np.concatenate([np.full(c.size, b) for c, f, b in zip(cur, flags, (np.inf, np.inf, 2.0, np.inf)) if f])
        fit.history = []
        res = fit.fit(*[c.copy() for c in cur], fit_mean=flags[0], fit_slope=flags[1], fit_r=flags[2], fit_bkg=flags[3])
        require([np.size(a) for a in res] == [c.size for c, f in zip(cur, flags) if f], 'correction fit of %s returned pieces of %s', flags, [np.size(a) for a in res])
        p = np.concatenate(res)
        compare(fit.history, ref, n, 'correction', 5)
        improved(ref, p0, p, n, 'correction fit', lo, hi)
        for q in (p0, p):
            try:
                require(same(float(fit(q)), ref(q), n), 'correction objective changes between evaluations')
            except Edge:
                pass
        i = 0
        for c in range(4):
            if flags[c]:
                cur[c] = np.array(res[i])
                i += 1
    unchanged(data, cp, 'correction fitter')
    return 'ops%d' % len(case['ops'])


CORR = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(2, 60), 'nn': st.tuples(st.integers(3, 5), st.sampled_from([0, 3, 4]), st.sampled_from([0, 3]), st.sampled_from([0, 3])),
                              'dmag': st.booleans(), 'prob': st.booleans(), 'ws': st.booleans(), 'ops': st.lists(st.tuples(*[st.booleans()]*4), min_size=1, max_size=3)})


# ---------------------------------------------------------------- mixture
def t_mix(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    n1 = int(n*case['w'])
    y = np.concatenate([rs.normal(case['mu'][0], case['sg'][0], n1), rs.normal(case['mu'][1], case['sg'][1], n - n1)])
    ye = rs.uniform(0.005, 0.05, n)
    if case['f4']:
        y, ye = y.astype('f4'), ye.astype('f4')
    data, cp = [y, ye], frozen([y, ye])
    fit = recorded(EcgmmFitter)(y, ye)
    y8, v8 = y.astype('f8'), ye.astype('f8')**2

    def ref(p, off=0.0):
        t = 0.0
        for w, m, s in ((p[0], p[1], p[3]), (1 - p[0], p[2], p[4])):
            v = s**2 + v8
            e = -(y8 + off - m)**2/(2*v)
            t = t + w*np.exp(e)/np.sqrt(2*np.pi*v)
        if np.any(t < 1e-280):
            raise Edge()
        return -np.sum(np.log(t))
    for off in case['offs']:
        fit.history = []
        p0 = np.array([0.5, -0.3, 0.1, 0.15, 0.08])
        if case['bounds']:
            b = [(0.05, 0.95), (-0.8 + off, -0.1 + off), (-0.1 + off, 0.6 + off), (0.02, 0.4), (0.02, 0.3)]
        else:
            b = [(1e-5, 1.0), (-1.0 + off, 1.0 + off), (-1.0 + off, 1.0 + off), (0.01, 0.5), (0.01, 0.5)]
        kw = dict(bounds=b) if case['bounds'] else {}
        res = fit.fit([p0[0]], p0[1:3].copy(), p0[3:5].copy(), offset=off, **kw)
        compare(fit.history, lambda p: ref(p, off), n, 'mixture', 5)
        w, m, s = (np.asarray(a) for a in res)
        require(w.shape == m.shape == s.shape == (2,), 'mixture fit returned %s', [a.shape for a in (w, m, s)])
        require(abs(w.sum() - 1) < 1e-9 and m[0] <= m[1], 'mixture components %s %s not ordered by mean or weights not summing to one', w.tolist(), m.tolist())
        opts = [np.array([w[0], m[0], m[1], s[0], s[1]]), np.array([w[1], m[1], m[0], s[1], s[0]])]
        inside = [all(x[0] - 1e-7 <= q <= x[1] + 1e-7 for x, q in zip(b, o + np.array([0, off, off, 0, 0]))) for o in opts]
        require(any(inside), 'mixture fit %s left its bounds', [a.tolist() for a in (w, m, s)])
        try:
            a0, a1 = ref(p0), ref(opts[0])
            require(a1 <= a0 + 1e-6*(n + abs(a0)), 'mixture fit made the objective worse: %.8g to %.8g', a0, a1)
        except Edge:
            pass
    for q in (p0, np.array([0.3, -0.2, 0.2, 0.1, 0.2])):
        try:
            require(same(float(fit(q)), ref(q), n), 'mixture objective %.9g after fitting, definition gives %.9g', float(fit(q)), ref(q))
        except Edge:
            pass
    unchanged(data, cp, 'mixture fitter')
    return 'offset' if any(case['offs']) else 'plain'


MIX = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(3, 80), 'w': st.floats(0.1, 0.9), 'mu': st.tuples(st.floats(-0.6, 0.0), st.floats(-0.1, 0.4)),
                             'sg': st.tuples(st.floats(0.02, 0.3), st.floats(0.02, 0.15)), 'f4': st.booleans(), 'bounds': st.booleans(),
                             'offs': st.lists(st.sampled_from([0.0, 0.5, -0.25, 2.0]), min_size=1, max_size=3)})


# ---------------------------------------------------------------- error ratio by magnitude
def t_bins(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    dm = np.sort(rs.uniform(0.01, 0.01 + case['width'], n)) - 0.5
    if case['gap']:
        dm[n//2:] += 1.1
    dm = dm[rs.permutation(n)]
    e0, e1 = rs.uniform(0.01, 0.08, n), rs.uniform(0.01, 0.08, n)
    sig2 = np.full(n, 0.03**2) if case['arr'] else 0.03**2
    dc = rs.normal(0, 1, n)*np.sqrt(sig2 + (1.3*e0)**2 + e1**2)
    data = [dc, dm, e0, e1] + ([sig2] if case['arr'] else [])
    cp = frozen(data)
    np.random.seed(case['seed'] % 2**31)
    bs = case['bs']
    fit = recorded(ErrorBinFitter)(dc, dm, e0, e1, sig2, binsize=bs, ntrial=case['nt'])
    idx = np.floor((dm - dm.min())/bs).astype(int)
    if np.any(np.abs((dm - dm.min())/bs - np.round((dm - dm.min())/bs)) < 1e-9 * (dm > dm.min())):
        return False
    nb = idx.max() + 1
    require(len(fit.mad_err) == nb, '%d bins of %s over a range of %s', len(fit.mad_err), bs, np.ptp(dm))

    def mad(a):
        return 1.4826*np.median(np.abs(a - np.median(a)))
    pulls = dc/np.sqrt(sig2 + e0**2 + e1**2)
    for i in range(nb):
        a = pulls[idx == i]
        if a.size >= 25:
            b = np.array([mad(a[rs.randint(a.size, size=a.size)]) for _ in range(200)])
            e = mad(b)
            if e > 0.02:
                require(e/3 < fit.mad_err[i] < e*3, 'bin %d: bootstrap error %.4g, reference %.4g', i, fit.mad_err[i], e)

    def ref(p):
        t = 0.0
        er = p[0] + p[1]*dm
        for i in range(nb):
            if fit.mad_err[i] > 0:
                u = idx == i
                f0, f1 = (er if 0 in sc else 1.0), (er if 1 in sc else 1.0)
                q = dc/np.sqrt(sig2 + (f0*e0)**2 + (f1*e1)**2)
                t += (mad(q[u]) - 1)**2/fit.mad_err[i]**2
        return t
    for sc in case['scale']:
        fit.history = []
        p0 = np.array([1.0, 0.0])
        p = np.array(fit.fit(p0.copy(), scale_indices=list(sc)))
        for q, v in fit.history[::3]:
            r = ref(q)
            require(abs(v - r) <= 1e-8*(1 + abs(r)), 'error-ratio objective at %s is %.9g, definition gives %.9g', q.tolist(), v, r)
        improved(ref, p0, p, 1, 'error-ratio fit', np.array([0.5, -5.0]), np.array([10.0, 5.0]))
        require(abs(float(fit(p0)) - ref(p0)) <= 1e-8*(1 + ref(p0)), 'error-ratio objective changes between evaluations')
    unchanged(data, cp, 'error-ratio fitter')
    return 'gap' if case['gap'] else 'full'


BINS = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(4, 150), 'width': st.floats(0.3, 2.5), 'gap': st.booleans(), 'arr': st.booleans(), 'bs': st.sampled_from([0.5, 0.25]),
                              'nt': st.sampled_from([40, 100]), 'scale': st.lists(st.sampled_from([(0,), (1,), (0, 1)]), min_size=1, max_size=2)})


# ---------------------------------------------------------------- cluster redshift correction
def t_zlam(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    x, sx = nodes(rs, 0.1, 0.4, case['nn'][0]), nodes(rs, 0.1, 0.4, case['nn'][1])
    z, ll = rs.uniform(0.1, 0.4, n), np.log(rs.uniform(5, 100, n)/20.)
    ze = rs.uniform(0.002, 0.01, n)
    dz = W.natural_spline(x, rs.uniform(-0.01, 0.01, x.size), z) + W.natural_spline(sx, rs.uniform(-0.005, 0.005, sx.size), z)*ll + rs.normal(0, 1, n)*np.sqrt(ze**2 + 0.005**2)
    data = [x, sx, z, dz, ze, ll]
    cp = frozen(data)
    fit = recorded(ZLambdaFitter)(*data)
    cur = [np.zeros(x.size), np.zeros(sx.size), np.full(sx.size, 0.008)]
    smin = case['smin']
    for flags in case['ops']:
        flags = list(flags)
        if not any(flags):
            flags[0] = True

        def ref(p, cur=tuple(c.copy() for c in cur)):
            o, i = [], 0
            for c, f in zip(cur, flags):
                o.append(p[i:i + c.size] if f else c)
                i += c.size if f else 0
            s = np.clip(W.natural_spline(sx, o[2], z), smin, None)
            v = s**2 + ze**2
            g = expo(-(dz - W.natural_spline(x, o[0], z) - W.natural_spline(sx, o[1], z)*ll)**2/(2*v))/np.sqrt(2*np.pi*v)
            with np.errstate(all='ignore'):
                t = np.log(g)
            t[~np.isfinite(t)] = -100
            r = -np.sum(t)
            if flags[2] and o[2].min() < smin:
                r += 10000
            return r
        p0 = np.concatenate([c for c, f in zip(cur, flags) if f])
        fit.history = []
        kw = {'min_scatter': smin} if smin > 0 else {}
        res = fit.fit(*[c.copy() for c in cur], fit_delta=flags[0], fit_slope=flags[1], fit_scatter=flags[2], **kw)
        require([np.size(a) for a in res] == [c.size for c, f in zip(cur, flags) if f], 'z_lambda fit of %s returned pieces of %s', flags, [np.size(a) for a in res])
        p = np.concatenate(res)
        compare(fit.history, ref, n, 'z_lambda', 11)
        improved(ref, p0, p, n, 'z_lambda fit')
        if flags[2]:
            require(np.min(res[-1]) >= smin - 1e-12, 'z_lambda scatter %s below %s', np.asarray(res[-1]).tolist(), smin)
        i = 0
        for c in range(3):
            if flags[c]:
                cur[c] = np.array(res[i])
                i += 1
    unchanged(data, cp, 'z_lambda fitter')
    return 'ops%d' % len(case['ops'])


ZLAM = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(2, 60), 'nn': st.tuples(st.integers(3, 5), st.integers(3, 4)), 'smin': st.sampled_from([0.0, 0.003]),
                              'ops': st.lists(st.tuples(*[st.booleans()]*3), min_size=1, max_size=3)})


# ---------------------------------------------------------------- centring
def t_wcen(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    sc = 1/np.sqrt(rs.uniform(5, 100, n)/30.)
    w = np.exp(rs.normal(-0.5, 0.3, n)*sc)
    pc = rs.uniform(0.3, 0.95, n)
    ps = (1 - pc)*rs.uniform(0, 0.9, n)
    which = case['which']

    def gauss(x, s):
        with np.errstate(all='ignore'):
            return np.exp(-0.5*x**2/s**2)/(np.sqrt(2*np.pi)*s)
    if which == 'fg':
        data = [w, sc]
        fit = recorded(WcenFgFitter)(*data)
        p0 = np.array([np.mean(np.log(w)), max(np.std(np.log(w)), 0.05)])

        def ref(p):
            if p[1] <= 0:
                raise Edge()
            return np.sum(0.5*(np.log(w) - p[0])**2/(p[1]*sc)**2 + np.log(np.sqrt(2*np.pi)*p[1]*sc))
    elif which == 'c':
        ms, ls = rs.uniform(17, 20, n), np.log(rs.uniform(5, 100, n)/30.)
        rm = ms - 1 - 0.3*ls + rs.normal(0, 0.4, n)
        cwt, phi1, bc = rs.uniform(0.01, 0.3, n), rs.uniform(0.01, 1, n), rs.uniform(0.01, 3, n)
        data = [pc, ps, ms, ls, rm, cwt, phi1, bc]
        fit = recorded(WcenCFitter)(*data)
        p0 = np.array([-0.8, -0.2, 0.5])

        def ref(p):
            if abs(p[2]) < 1e-3:
                raise Edge()
            rho = pc*gauss(rm - ms - p[0] - p[1]*ls, p[2])*cwt + ps*phi1*cwt + (1 - pc - ps)*bc
            if np.any(np.abs(rho - 1e-5) < 1e-12):
                raise Edge()
            rho[(rho < 1e-5) | ~np.isfinite(rho)] = 1e-5
            return -np.sum(np.log(rho)) + (1000 if p[2] < 0 else 0)
    else:
        ffg, fs = rs.uniform(0.05, 1.5, n), rs.uniform(0.05, 1.5, n)
        data = [pc, ps, w, ffg, fs, sc]
        fit = recorded(WcenCwFitter)(*data)
        p0 = np.array([np.mean(np.log(w)), max(np.std(np.log(w)), 0.05)])

        def ref(p):
            if p[1] <= 0:
                raise Edge()
            return -np.sum(np.log(pc*gauss(np.log(w) - p[0], p[1]*sc) + ps*fs + (1 - pc - ps)*ffg))
    cp = frozen(data)
    p = np.array(fit.fit(p0.copy()))
    compare(fit.history, ref, n, 'centring ' + which, 3)
    improved(ref, p0, p, n, 'centring %s fit' % which)
    require(p[-1] > 0, 'centring %s width %s', which, p[-1])
    if which == 'fg' and n > 1 and np.std(np.log(w)) > 1e-3:
        m = np.sum(np.log(w)/sc**2)/np.sum(1/sc**2)
        s = np.sqrt(np.mean((np.log(w) - m)**2/sc**2))
        require(abs(p[0] - m) < 1e-3 + 0.02*s and abs(p[1] - s) < 1e-3 + 0.02*s, 'background fit gives %s, the maximum is at %s', p.tolist(), [m, s])
    for q in (p0, p):
        try:
            require(same(float(fit(q)), ref(q), n), 'centring %s objective changes between evaluations', which)
        except Edge:
            pass
    unchanged(data, cp, 'centring fitter')
    return which


WCEN = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(8, 60), 'which': st.sampled_from(['fg', 'c', 'cw'])})

TESTS = [
    T('median', MEDIAN, t_median, 40, 600, 'every evaluation made by the median fit is compared with the sum of deviations'),
    T('redsequence', CLEAN, t_red, 25, 400, 'every evaluation of a sequence of fits equals the red-sequence likelihood'),
    T('redsequence2', CLEAN, t_red, 25, 400, 'as redsequence'),
    T('redhistory', DRIFT, t_red, 12, 200, 'as redsequence, with plain errors'),
    T('offdiagonal', OFFD, t_offdiag, 40, 600, 'off-diagonal likelihood with prior and eigenvalue wall'),
    T('correction', CORR, t_corr, 25, 400, 'sequence of fits of mean, slope, error ratio and background'),
    T('mixture', MIX, t_mix, 60, 800, 'two-component mixture with offsets'),
    T('errorbins', BINS, t_bins, 30, 400, 'error ratio in magnitude bins'),
    T('zlambda', ZLAM, t_zlam, 25, 300, 'cluster redshift correction'),
    T('centring', WCEN, t_wcen, 60, 800, 'centring likelihoods'),
]
