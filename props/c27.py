"""C27: numerical building blocks."""
import os
import itertools
import types
import numpy as np
import fitsio
import hpgeom as hpg
from scipy import special, stats, interpolate
from hypothesis import strategies as st

from vp.core import T, require
import redmapper
from redmapper import utilities as U
from vp import world as W

ASSUMPTIONS = ['grid positions are inside the grid', 'spline nodes increase', 'the projected profile has a core smaller than its scale',
               'sampling is compared within one step of the inverse table']
DATA = os.path.join(os.path.dirname(redmapper.__file__), 'data')


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


# ---------------------------------------------------------------- gridding
def t_cic(case):
    rs = np.random.RandomState(case['seed'])
    n, shape = case['n'], case['shape']
    pos = []
    for m in shape:
        p = rs.uniform(0, m, n)
        k = rs.randint(0, 5, n)
        p = np.where(k == 0, np.floor(p), np.where(k == 1, np.floor(p) + 0.5, p))
        p[rs.uniform(size=n) < 0.05] = m - 1e-9*rs.uniform(1, 10)
        pos.append(np.clip(p, 0, np.nextafter(m, 0)))
    val = rs.normal(0, 1, n) if case['val'] == 'signed' else (np.ones(n) if case['val'] == 'one' else rs.uniform(0, 5, n))
    cp = [p.copy() for p in pos] + [val.copy()]
    kw = {}
    for c, p, m in zip('xyz', pos, shape):
        kw['pos' + c], kw['n' + c] = p, m
    if case['avg']:
        kw['average'] = True
    if not case['iso']:
        kw['isolated'] = False
    f = U.cic(val, **kw)
    require(all(np.array_equal(a, b) for a, b in zip(pos + [val], cp)), 'gridding changed its input')
    ref, wt = np.zeros(shape[::-1]), np.zeros(shape[::-1])
    for i in range(n):
        cells = []
        for p, m in zip(pos, shape):
            q = p[i] - 0.5
            lo = int(np.floor(q))
            opts = []
            for c in (lo, lo + 1):
                w = 1 - abs(q - c)
                if c < 0 or c >= m:
                    if case['iso']:
                        w = 0.0
                    c %= m
                opts.append((c, w))
            cells.append(opts)
        for combo in itertools.product(*cells):
            idx = tuple(c for c, _ in combo)[::-1]
            w = np.prod([w for _, w in combo])
            ref[idx] += w*val[i]
            wt[idx] += w
    if case['avg']:
        ok = wt > 1e-9
        require(f.shape == ref.shape and np.allclose(f[ok], ref[ok]/wt[ok], rtol=1e-6, atol=1e-6), 'averaged grid differs from the weighted mean')
        require(np.all(f[wt == 0] == 0) or np.all(ok | (wt > 0)), 'cells without a point hold a value')
    else:
        require(close(f, ref, 1e-9, 1e-9), 'grid differs from the multilinear reference by %.3g', np.max(np.abs(f - ref)) if f.shape == ref.shape else np.nan)
        if not case['iso']:
            require(abs(f.sum() - val.sum()) < 1e-8*(1 + np.abs(val).sum()), 'periodic gridding loses weight')
        else:
            inner = np.all([(p >= 0.5) & (p <= m - 0.5) for p, m in zip(pos, shape)], axis=0)
            if inner.all():
                require(abs(f.sum() - val.sum()) < 1e-8*(1 + np.abs(val).sum()), 'gridding loses weight of interior points')
    return '%dd' % len(shape)


CIC = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 25), 'shape': st.lists(st.integers(2, 7), min_size=1, max_size=3), 'val': st.sampled_from(['one', 'pos', 'signed']),
                             'avg': st.sampled_from([False, False, True]), 'iso': st.booleans()})


# ---------------------------------------------------------------- splines and interpolation
def t_spline(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    x = np.cumsum(rs.uniform(0.02, 1.0, n))*case['scale'] + case['x0']
    y = rs.normal(0, 1, n)
    if case['f4']:
        x, y = x.astype('f4'), y.astype('f4')
    q = np.concatenate([rs.uniform(x[0], x[-1], 20), x, rs.uniform(x[0] - 0.5*case['scale'], x[0], 3), rs.uniform(x[-1], x[-1] + 0.5*case['scale'], 3), [x[0], x[-1]]])
    q = q[rs.permutation(q.size)]
    x8, y8 = x.astype('f8'), y.astype('f8')
    cp = [x.copy(), y.copy(), q.copy()]
    tol = dict(rtol=2e-3, atol=2e-3) if case['f4'] else dict(rtol=1e-7, atol=1e-7)
    kind = case['kind']
    if kind == 'linear':
        v = U.interpol(y, x, q)
        if case['f4']:
            # x is compared in the precision it is held
            q = q.astype('f8')
        ext = interpolate.interp1d(x8, y8, fill_value='extrapolate')(q)
        require(close(v, ext, **tol), 'linear interpolation differs from its definition by %.3g', np.max(np.abs(v - ext)))
        require(close(U.interpol(y, x, x), y, **tol), 'linear interpolation misses its nodes')
        require(abs(float(U.interpol(y, x, float(q[0]))) - float(v[0])) < 1e-6*(1 + abs(v[0])) + (1e-3 if case['f4'] else 0), 'scalar interpolation differs from array')
    else:
        fix = kind == 'fixed'
        yp = None
        if kind == 'clamped':
            yp = [float(a) for a in rs.normal(0, 1, 2)/case['scale']]
            bc = ((1, yp[0]), (1, yp[1]))
        elif kind == 'third':
            yp, bc = '3d=0', None
        else:
            bc = 'natural'
        spl = U.CubicSpline(x, y, yp=yp, fixextrap=fix) if (yp is not None or fix) else U.CubicSpline(x, y)
        v = spl(q)
        require(close(spl(x), y, **tol), 'spline misses its nodes')
        if bc is not None:
            ref = interpolate.CubicSpline(x8, y8, bc_type=bc)(q)
        else:
            # constant second derivative in the first and last intervals
            h = np.diff(x8)
            a, b = np.zeros((n, n)), np.zeros(n)
            for i in range(1, n - 1):
                a[i, i - 1], a[i, i], a[i, i + 1] = h[i - 1]/6, (h[i - 1] + h[i])/3, h[i]/6
                b[i] = (y8[i + 1] - y8[i])/h[i] - (y8[i] - y8[i - 1])/h[i - 1]
            a[0, 0], a[0, 1], a[-1, -2], a[-1, -1] = 1, -1, 1, -1
            y2 = np.linalg.solve(a, b)
            k = np.clip(np.searchsorted(x8, q) - 1, 0, n - 2)
            ta, tb = (x8[k + 1] - q)/h[k], (q - x8[k])/h[k]
            ref = ta*y8[k] + tb*y8[k + 1] + ((ta**3 - ta)*y2[k] + (tb**3 - tb)*y2[k + 1])*h[k]**2/6
        if fix:
            ref = np.where(q < x8[0], y8[0], np.where(q > x8[-1], y8[-1], ref))
        u = (q >= x8[0]) & (q <= x8[-1]) if not fix else np.ones(q.size, dtype=bool)
        sc = 1 + np.max(np.abs(ref[u]))
        require(v.shape == ref.shape and np.all(np.abs(v - ref)[u] < tol['atol']*sc*(30 if case['f4'] else 1)), '%s spline differs from its definition by %.3g', kind, np.max(np.abs(v - ref)[u]))
        w = spl(q[::-1])
        require(np.array_equal(w[::-1], v), 'spline value depends on the other points')
        if not fix:
            require(abs(float(spl(float(q[0]))) - float(v[0])) < 1e-6*(1 + abs(v[0])) + (1e-3*sc if case['f4'] else 0), 'scalar spline differs from array')
    require(np.array_equal(x, cp[0]) and np.array_equal(y, cp[1]), 'interpolation changed its nodes')
    return kind


SPLINE = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(3, 12), 'scale': st.sampled_from([0.1, 1.0, 10.0]), 'x0': st.sampled_from([0.0, 0.1, -3.0]), 'f4': st.booleans(),
                                'kind': st.sampled_from(['natural', 'natural', 'fixed', 'clamped', 'third', 'linear', 'linear'])})


# ---------------------------------------------------------------- nodes
def t_nodes(case):
    lo, width, size = case['lo'], case['width'], case['size']
    hi = lo + width
    zr = [lo, hi] if case['list'] else np.array([lo, hi])
    kw = {}
    top = hi
    if case['maxnode'] == 'neg':
        kw['maxnode'] = -1.0
    elif case['maxnode'] == 'above':
        kw['maxnode'] = hi + 0.1
    elif case['maxnode'] == 'inside':
        top = lo + width*case['frac']
        kw['maxnode'] = top
    v = np.asarray(U.make_nodes(zr, size, **kw))
    require(abs(v[0] - lo) < 1e-12 and v[-1] == hi, 'nodes over %s are %s', [lo, hi], v.tolist())
    require(np.all(np.diff(v) > 0), 'nodes %s do not increase', v.tolist())
    main = v[:-1] if top < hi else v
    require(abs(main[-1] - top) < 1e-12, 'nodes %s do not reach the last node %s', main.tolist(), top)
    d = np.diff(main)
    require(main.size >= 2 and np.all(np.abs(d[:-1] - size) < 1e-9), 'nodes %s are not %s apart', main.tolist(), size)
    require(d[-1] < 1.5*size + 0.01 + 1e-9, 'last interval %s of nodes %s apart', d[-1], size)
    if main.size > 2:
        require(d[-1] > 0.5*size - 1e-9, 'last interval %s of nodes %s apart', d[-1], size)
    return 'few' if v.size < 4 else 'many'


NODES = st.fixed_dictionaries({'lo': st.floats(0.02, 0.5), 'width': st.floats(0.05, 0.9), 'size': st.sampled_from([0.01, 0.03, 0.05, 0.08, 0.1, 0.15, 0.3]), 'list': st.booleans(),
                               'maxnode': st.sampled_from([None, None, 'neg', 'above', 'inside']), 'frac': st.floats(0.2, 0.95)})


# ---------------------------------------------------------------- densities
def t_density(case):
    rs = np.random.RandomState(case['seed'])
    n, kind = case['n'], case['kind']
    if kind == 'chisq':
        k = case['k']
        x = rs.uniform(1e-3, 40, n)
        f = lambda a: U.chisq_pdf(a, k)
        ref = stats.chi2.pdf(x, k)
    elif kind == 'gauss':
        p = rs.uniform(0.1, 2, 3)
        x = rs.normal(0, 2, n)
        f = lambda a: U.gaussFunction(a, *p)
        ref = p[0]*np.exp(-0.5*((x - p[1])/p[2])**2)
    elif kind == 'schechter':
        al, ms = case['alpha'], rs.uniform(16, 22)
        x = ms + rs.uniform(-3, 6, n)
        f = lambda a: U.schechter_pdf(a, alpha=al, mstar=ms)
        ell = 10**(-0.4*(x - ms))
        ref = ell**(al + 1)*np.exp(-ell)
    elif kind == 'theta':
        x = rs.uniform(18, 24, n)
        e, mx, lim = rs.uniform(0.005, 0.4, n), rs.uniform(19, 24), (rs.uniform(19, 24, n) if case['k'] == 1 else rs.uniform(19, 24))
        c = [x.copy(), e.copy()]
        v = U.calc_theta_i(x, e, mx, lim)
        ref = np.where(x > lim, 0.0, stats.norm.cdf((np.minimum(mx, lim) - x)/e))
        require(close(v, ref, 1e-6, 1e-6), 'magnitude-cut probabilities differ from their definition by %.3g', np.max(np.abs(v - ref)))
        require(np.array_equal(c[0], x) and np.array_equal(c[1], e), 'input changed')
        return kind
    elif kind == 'sphere':
        ra, x = rs.uniform(0, 360, n), rs.uniform(-90, 90, n)
        th, ph = U.astro_to_sphere(ra, x)
        require(close(th, np.pi/2 - np.radians(x), 1e-12) and close(ph, np.radians(ra), 1e-12), 'sphere coordinates')
        return kind
    else:
        rsc = case['rscale']
        core = rsc*case['core']
        x = np.concatenate([rs.uniform(0, 2*core, n), rs.uniform(0, 3, n), rsc*rs.uniform(0.998, 1.002, 4), [9.99, 10.01, 50.0, core]])
        rad = case['k'] == 1
        kw = {} if case['default'] else dict(rscale=rsc, corer=core)
        if case['default']:
            rsc, core = 0.15, 0.1
        f = lambda a: U.nfw_pdf(a, radfactor=rad, **kw)
        t = np.maximum(x, core)/rsc

        def sigma(t):
            r = np.full(t.size, 1/3.)
            a, b = t < 1 - 1e-6, t > 1 + 1e-6
            r[a] = (1 - np.arccosh(1/t[a])/np.sqrt(1 - t[a]**2))/(t[a]**2 - 1)
            r[b] = (1 - np.arccos(1/t[b])/np.sqrt(t[b]**2 - 1))/(t[b]**2 - 1)
            return r
        ref = sigma(t)
        ref[x >= 10.0] = 0.0
        if rad:
            ref = ref*2*np.pi*x
        c = x.copy()
        v = f(x)
        require(np.array_equal(c, x), 'input changed')
        require(v.shape == ref.shape and np.all(np.abs(v - ref) <= 2e-3*np.abs(ref) + 1e-9), 'projected profile at %s is %s, definition gives %s', *[a[np.argmax(np.abs(v - ref))] for a in (x, v, ref)])
        far = np.abs(x/rsc - 1) > 0.0011
        require(close(v[far], ref[far], 1e-6, 1e-9), 'projected profile differs from its definition')
        return kind
    c = x.copy()
    v = f(x)
    require(np.array_equal(c, x), 'input changed')
    require(close(v, ref, 1e-7, 1e-12), '%s density differs from its definition by %.3g', kind, np.max(np.abs(v - ref)))
    require(abs(float(f(float(x[0]))) - ref[0]) < 1e-7*(1 + abs(ref[0])), '%s density of a scalar differs', kind)
    return kind


DENSITY = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 30), 'kind': st.sampled_from(['chisq', 'gauss', 'schechter', 'theta', 'sphere', 'nfw', 'nfw']), 'k': st.integers(1, 6),
                                 'alpha': st.sampled_from([-1.0, -0.5, -1.3, 0.0]), 'rscale': st.sampled_from([0.15, 0.3, 1.0]), 'core': st.floats(0.05, 0.95), 'default': st.booleans()})


# ---------------------------------------------------------------- sampling
def t_sample(case):
    np.random.seed(case['seed'] % 2**31)
    lo, hi, step = case['lo'], case['lo'] + case['width'], case['width']/(case['cells'] + 0.5)
    calls = []

    def f(x, a=1.0, b=0.0):
        calls.append((a, b))
        return np.exp(-0.5*((x - lo - b*case['width'])/(a*case['width']))**2)*(x >= lo + case['cut']*case['width'])
    x = np.arange(lo, hi, step)
    kw = dict(a=case['a'], b=case['b'])
    pdf = f(x, **kw)
    n = case['n']
    s = U.sample_from_pdf(f, [lo, hi], step, n, **kw)
    require(s.shape == (n,) and all(np.isclose(a, x, rtol=0, atol=1e-9*step).any() for a in s[:50]), 'samples are not on the grid')
    k = np.clip(np.round((s - lo)/step).astype(int), 0, x.size - 1)
    emp = np.cumsum(np.bincount(k, minlength=x.size))/float(n)
    cdf = np.cumsum(pdf)/pdf.sum()
    dev = np.abs(emp - cdf).max()
    require(dev < 1.01/x.size + 3.2/np.sqrt(n), 'sampled distribution differs from the density by %.3f (%d samples)', dev, n)
    if n > 50 and case['cut'] == 0:
        require(np.unique(s).size > 1 or pdf.max() > 0.8*pdf.sum(), 'all samples are the same')
    return 'sample'


SAMPLE = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'lo': st.sampled_from([0.0, -2.0, 12.0]), 'width': st.sampled_from([0.5, 3.0, 20.0]), 'cells': st.sampled_from([20, 200, 2000]), 'n': st.sampled_from([1, 100, 2000]),
                                'a': st.sampled_from([0.1, 0.5, 5.0]), 'b': st.floats(0.1, 0.9), 'cut': st.sampled_from([0.0, 0.0, 0.4])})


# ---------------------------------------------------------------- photometric errors
def t_errors(case):
    rs = np.random.RandomState(case['seed'])
    np.random.seed(case['seed'] % 2**31)
    n = case['n']
    zp = 22.5
    ex, lim = (rs.uniform(50, 500, n), rs.uniform(20, 23, n)) if case['arr'] else (np.full(n, 120.0), np.full(n, 21.5))
    nsig = rs.choice([5.0, 10.0])
    mg = types.SimpleNamespace(limmag=lim, exptime=ex, zp=np.full(3, zp), nsig=np.full(3, nsig))
    mag = lim + rs.uniform(-4, 1.5, n)
    mag[:2] = lim[:2]
    b = 1e-10*rs.uniform(0.5, 3) if case['lup'] else None
    kw = dict(err_ratio=case['ratio'], sigma0=case['sigma0'])
    flux = 10**(-0.4*(mag - zp))
    m_in = mag
    if case['lup']:
        m_in = 2.5*np.log10(1/b) - np.arcsinh(0.5*flux/(b*1e9))/(0.4*np.log(10))
        kw.update(b=b, inlup=True)
    c = m_in.copy()
    fl = 10**(-0.4*(lim - zp))
    sky = np.clip(fl**2*ex/nsig**2 - fl, 0.001, None)
    sig = case['ratio']*np.sqrt(sky*ex + flux*ex)/ex
    at = sky > 0.001
    sig = np.sqrt(sig**2 + (np.log(10)/2.5*case['sigma0']*flux)**2)
    f0, e0 = U.apply_errormodels(mg, m_in, nonoise=True, fluxmode=True, **kw)
    require(np.array_equal(c, m_in), 'magnitudes changed in place')
    require(close(f0, flux, 1e-7) and close(e0, sig, 1e-7), 'fluxes or errors without noise differ from the model by %.3g, %.3g', np.max(np.abs(f0/flux - 1)), np.max(np.abs(e0/sig - 1)))
    if case['sigma0'] == 0 and case['ratio'] == 1:
        k = np.arange(n) < 2
        require(np.allclose((f0/e0)[k & at], nsig, rtol=1e-6), 'signal to noise at the limit is %s, not %s', (f0/e0)[k], nsig)
    m0, d0 = U.apply_errormodels(mg, m_in, nonoise=True, **kw)
    require(np.allclose(m0, m_in, atol=1e-8), 'magnitudes change without noise by %.3g', np.max(np.abs(m0 - m_in)))
    ref = 2.5/np.log(10)*sig/flux if not case['lup'] else 2.5*sig/(2*b*1e9*np.log(10)*np.sqrt(1 + (0.5*flux/(b*1e9))**2))
    require(close(d0, ref, 1e-6), 'magnitude errors differ from the model by %.3g', np.max(np.abs(d0/ref - 1)))
    f1, e1 = U.apply_errormodels(mg, m_in, fluxmode=True, lnscat=case['lnscat'], **kw)
    pull = (f1 - flux)/e1
    r = np.log(e1/sig)
    thr = 3.2/np.sqrt(n)
    require(stats.kstest(pull, 'norm').statistic < thr, 'noise is not normal with the stated error (%.3f)', stats.kstest(pull, 'norm').statistic)
    if case['lnscat']:
        require(stats.kstest(r/case['lnscat'], 'norm').statistic < thr, 'error scatter is not log-normal of the stated width')
        if n > 30:
            require(abs(np.corrcoef(r, pull)[0, 1]) < 5/np.sqrt(n), 'noise and error scatter are correlated')
    else:
        require(np.allclose(r, 0, atol=1e-7), 'errors differ when noise is added')
    m2, d2 = U.apply_errormodels(mg, m_in, **kw)
    require(np.all(np.isfinite(m2)) and np.all(np.isfinite(d2)), 'noisy magnitudes are not finite')
    if not case['lup']:
        bad = (m2 == 99.0)
        require(np.array_equal(bad, d2 == 99.0), 'magnitudes and errors flagged differently')
        pull = (10**(-0.4*(m2[~bad] - zp)) - flux[~bad])/sig[~bad]
        low = stats.norm.cdf(-(flux/sig))
        require(abs(bad.sum() - low.sum()) < 6*np.sqrt(low.sum() + 1), '%d of %d galaxies have no flux, %.1f expected', bad.sum(), n, low.sum())
        dd = 2.5/np.log(10)*sig[~bad]/10**(-0.4*(m2[~bad] - zp))
        require(close(d2[~bad], dd, 1e-6), 'noisy magnitude errors')
    else:
        fb = 2*b*1e9*np.sinh(-np.log(b) - 0.4*np.log(10)*m2)
        pull = (fb - flux)/sig
        require(close(d2, 2.5*sig/(2*b*1e9*np.log(10)*np.sqrt(1 + (0.5*fb/(b*1e9))**2)), 1e-5), 'noisy asinh magnitude errors')
    if pull.size > 30 and np.all(flux/sig > 4.5):
        require(stats.kstest(pull, 'norm').statistic < 3.2/np.sqrt(pull.size), 'noisy magnitudes do not scatter with the stated error')
    return 'lup' if case['lup'] else 'mag'


ERRORS = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.sampled_from([5, 50, 1000]), 'arr': st.booleans(), 'lup': st.booleans(), 'ratio': st.sampled_from([1.0, 1.0, 1.5]), 'sigma0': st.sampled_from([0.0, 0.02]),
                                'lnscat': st.sampled_from([None, 0.1])})


# ---------------------------------------------------------------- tables
def t_tables(case):
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    if case['kind'] == 'mstar':
        fs = sorted(f for f in os.listdir(os.path.join(DATA, 'mstar')) if f.endswith('.fit'))
        f = fs[case['seed'] % len(fs)]
        _, survey, band = f[:-4].split('_')
        pad = case['pad']
        m = U.MStar(survey + ' '*pad, band + ' '*pad)
        t = fitsio.read(os.path.join(DATA, 'mstar', f), upper=True)
        z = rs.uniform(t['Z'].min(), t['Z'].max(), n)
        ref = W.natural_spline(t['Z'], t['MSTAR'], z)
        v = m(z)
        require(close(v, ref, 1e-5, 1e-4), 'characteristic magnitudes of %s differ from the table by %.3g', f, np.max(np.abs(v - ref)))
        require(abs(float(m(float(z[0]))) - ref[0]) < 1e-3, 'characteristic magnitude of a scalar differs')
        require(close(m(t['Z']), t['MSTAR'], 1e-5, 1e-4), 'characteristic magnitudes miss the table')
        try:
            U.MStar('nosuch', band)
            require(False, 'unknown survey accepted')
        except IOError:
            pass
    else:
        if case['own']:
            nb = rs.randint(2, 6)
            bands = list('UGRIZ'[:nb]) if not case['pad'] else ['B%d' % i for i in range(nb)]
            t = np.zeros(rs.randint(2, 30), dtype=[('z', 'f4'), ('color', 'f4', (max(nb - 1, 2),))])
            t['z'], t['color'] = np.sort(rs.uniform(0, 1, t.size)) + np.arange(t.size)*0.01, rs.normal(1, 1, t['color'].shape)
            name = 'own_colors.fit'
            fitsio.write(name, t, header={'BANDS': ','.join(bands) if case['pad'] else ''.join(bands)}, clobber=True)
            if nb == 2 and case['pad'] == 0:
                pass
        else:
            fs = sorted(f for f in os.listdir(os.path.join(DATA, 'initcolors')) if f.endswith('.fit'))
            name = fs[case['seed'] % len(fs)]
            t, h = fitsio.read(os.path.join(DATA, 'initcolors', name), ext=1, header=True, lower=True)
            bands = h['BANDS'].strip().split(',') if ',' in h['BANDS'] else list(h['BANDS'].strip())
        c = U.RedGalInitialColors(name)
        require(abs(c.zmax - t['z'].max()) < 1e-6, 'largest redshift %s, table %s', c.zmax, t['z'].max())
        z = np.sort(rs.uniform(t['z'].min(), t['z'].max(), n))
        for i in range(len(bands) - 1):
            a, b = (bands[i].lower(), bands[i + 1].lower()) if case['low'] else (bands[i], bands[i + 1])
            v = c(a, b, z)
            ref = np.interp(z, t['z'].astype('f8'), t['color'][:, i].astype('f8'))
            require(close(v, ref, 1e-4, 1e-4), 'colour %s-%s of %s differs from the table by %.3g', a, b, name, np.max(np.abs(v - ref)))
        for a, b in [(bands[-1], bands[0])] + ([(bands[0], bands[2])] if len(bands) > 2 else []):
            try:
                c(a, b, z)
                require(False, 'colour %s-%s which is not in the table accepted', a, b)
            except ValueError:
                pass
    return case['kind']


TABLES = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'n': st.integers(1, 20), 'kind': st.sampled_from(['mstar', 'colors']), 'own': st.booleans(), 'pad': st.sampled_from([0, 3]), 'low': st.booleans()})


# ---------------------------------------------------------------- sub-region pixels
def t_subpix(case):
    rs = np.random.RandomState(case['seed'])
    ns, nm = case['ns'], case['nm']
    sub = int(rs.randint(hpg.nside_to_npixel(ns)))
    ra, dec = hpg.pixel_to_angle(ns, sub, nest=False)
    size = np.degrees(np.sqrt(4*np.pi/hpg.nside_to_npixel(ns)))
    x, y = W.offset(ra, dec, rs.uniform(-1.6, 1.6, case['n'])*size, rs.uniform(-1.6, 1.6, case['n'])*size)
    pix = np.unique(hpg.angle_to_pixel(nm, x, y, nest=False))
    border = case['border']*size
    use = U.get_hpmask_subpix_indices(ns, sub, border, nm, pix)
    require(np.unique(use).size == np.size(use), 'sub-region pixels repeated')
    got = np.zeros(pix.size, dtype=bool)
    got[use] = True
    pra, pdec = hpg.pixel_to_angle(nm, pix, nest=False)
    ins = hpg.angle_to_pixel(ns, pra, pdec, nest=False) == sub
    lon, lat = hpg.boundaries(ns, sub, step=64, nest=False)
    dist = np.array([np.min(W.sep(a, d, lon, lat)) for a, d in zip(pra, pdec)])
    cut = min(max(ns*4, 256), nm)
    slack = 1.5*np.degrees(np.sqrt(4*np.pi/hpg.nside_to_npixel(cut)))
    must = ins if border == 0 else (ins | (dist < border - slack))
    must_not = ~ins & (dist > border + (slack if border else slack)*1.5)
    # without a border a pixel belongs through the centre of its parent
    if border == 0 and cut != nm:
        must = ins & (dist > slack)
    require(np.all(got[must]), '%d pixels of sub-region %d/%d with border %.3f missing', np.sum(must & ~got), sub, ns, border)
    require(not np.any(got[must_not]), '%d pixels far from sub-region %d/%d included', np.sum(must_not & got), sub, ns)
    return 'border' if border else 'plain'


SUBPIX = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'ns': st.sampled_from([2, 4, 8, 16]), 'nm': st.sampled_from([128, 256, 512, 1024]), 'n': st.integers(1, 300), 'border': st.sampled_from([0.0, 0.0, 0.1, 0.5])})

TESTS = [
    T('gridding', CIC, t_cic, 150, 4000, 'cloud-in-cell grid against a loop over corners'),
    T('splines', SPLINE, t_spline, 200, 5000, 'splines and linear interpolation against scipy'),
    T('nodes', NODES, t_nodes, 300, 8000, 'ends, spacing and order of nodes'),
    T('densities', DENSITY, t_density, 300, 8000, 'densities against scipy or closed forms'),
    T('sampling', SAMPLE, t_sample, 60, 800, 'distribution of samples'),
    T('errors', ERRORS, t_errors, 100, 2000, 'photometric error model'),
    T('tables', TABLES, t_tables, 60, 1000, 'characteristic magnitudes and template colours'),
    T('subpixels', SUBPIX, t_subpix, 25, 400, 'sub-region selection of mask pixels'),
]
