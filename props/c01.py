"""C01: self-consistency of the richness solver."""
import numpy as np
from scipy.special import erf
from hypothesis import strategies as st

from vp.core import T, require
from redmapper.solver_nfw import Solver

TOL = 1e-2
RULE = 'galaxy lists drawn element by element.'
ASSUMPTIONS = ['solver tolerance 0.01 in richness, search range 0.5 to 2000 (documented constants)',
               'NFW normalisation polynomial as documented in nfw_weights.c']


def model(lam, g):
    """wt, p, theta_r, rlam and the mask fraction at richness lam."""
    rl = g['r0'] * (lam / 100.)**g['beta']
    L = np.log(rl)
    norm = np.exp(1.65169 - 0.547850*L + 0.138202*L**2 - 0.0719021*L**3
                  - 0.0158241*L**4 - 0.000854985*L**5)
    with np.errstate(all='ignore'):
        s = lam * g['u'] * norm
        p = s / (s + g['b'])
    p[~np.isfinite(p)] = 0.0
    if g['rsig'] <= 0:
        th = (g['r'] < rl).astype('f8')
    else:
        th = 0.5 + 0.5*erf((rl - g['r']) / (np.sqrt(2.) * g['rsig']))
    c = np.polyval(g['cpars'], rl)
    return p * g['w'] * th, p, th, rl, max(0.0, c)


def excess(lam, g):
    wt, p, th, rl, c = model(lam, g)
    return np.sum(wt) + lam * c - lam


def unpack(case):
    a = np.array(case['gals'], dtype='f8').reshape(-1, 4)
    g = dict(u=a[:, 0], b=a[:, 1], r=a[:, 2], w=a[:, 3], r0=case['r0'], beta=case['beta'],
             rsig=case['rsig'], cpars=np.array(case['cpars'], dtype='f8'))
    rep = case.get('rep', 1)
    if rep > 1:
        for k in 'ubrw':
            g[k] = np.tile(g[k], rep)
    g['b'] = g['b'].copy()
    for i in case.get('binf', []):
        g['b'][i % g['b'].size] = np.inf
    return g


def solve(g):
    s = Solver(g['r0'], g['beta'], g['u'], g['b'], g['r'], g['w'], cpars=g['cpars'], rsig=g['rsig'])
    lam, p, wt, rlam, th = s.solve_nfw()
    return float(lam), np.array(p), np.array(wt), float(rlam), np.array(th)


def check(case):
    g = unpack(case)
    n = g['u'].size
    keep = {k: g[k].copy() for k in 'ubrw'}
    lam, p, wt, rlam, th = solve(g)
    for k in 'ubrw':
        require(np.array_equal(keep[k], g[k]), 'input %s modified', k)
    require(p.shape == (n,) and wt.shape == (n,) and th.shape == (n,), 'shapes')
    for nm, x in (('p', p), ('theta_r', th)):
        require(np.all(np.isfinite(x)) and np.all(x >= 0) and np.all(x <= 1 + 1e-12),
                '%s outside [0,1]', nm)
    grid = np.concatenate((np.linspace(1.0, 30., 300), np.geomspace(30., 2000., 250)[1:]))
    f = np.array([excess(x, g) for x in grid])
    eps = 1e-9 * (1 + np.sum(g['w']))
    # sign structure of the exact equation on [1, 2000]
    pos = f > 0
    nch = np.count_nonzero(pos[1:] != pos[:-1])
    label = 'found'
    if lam == -1.0:
        label = 'none'
        require(rlam == -1.0, 'failed solution has radius %g', rlam)
        require(min(excess(x, g) for x in np.linspace(0.95, 1 + 2*TOL, 15)) <= eps,
                'no solution reported although the equation is positive around richness 1')
        if nch == 0:
            require(not np.all(f > eps), 'no solution reported, weights always exceed richness')
        lam0 = None
        if nch == 1 and pos[0] and not pos[-1]:
            i = np.flatnonzero(~pos)[0]
            # the search starts at half a galaxy: a galaxy entering the radius below richness 1
            # (or between two points of the grid) makes another crossing the search may follow
            edge = np.zeros(0)
            if g['beta'] > 0:
                with np.errstate(over='ignore', under='ignore', divide='ignore'):
                    edge = 100. * (g['r'][g['r'] > 0] / g['r0'])**(1. / g['beta'])
            step = (1e-9, 1e-3, 1e-2, 5e-2, 0.1) if g['rsig'] > 0 else (1e-9,)
            low = np.concatenate([np.linspace(0.5, 1.0, 60)] + [edge * (1 - x) for x in step])
            low = low[(low >= 0.5) & (low < grid[i - 1])]
            if all(excess(x, g) > eps for x in low):
                require(grid[i] < 1 + 4*TOL + 0.1, 'no solution reported but one exists below %g', grid[i])
        lo = hi = None
        probe = np.linspace(0.5, 1 + 3*TOL, 60)
    else:
        require(lam >= 1.0 and lam <= 2000., 'richness %g outside the search range', lam)
        require(abs(rlam / (g['r0'] * (lam/100.)**g['beta']) - 1) < 1e-9,
                'radius %g does not follow the radius law at %g', rlam, lam)
        w = 1.5 * TOL
        fl = excess(max(0.5, lam - w), g)
        fh = excess(lam + w, g)
        # allow for another up-jump of the hard cut inside the window
        flo = max(excess(x, g) for x in np.linspace(max(0.5, lam - w), lam, 5))
        fhi = min(excess(x, g) for x in np.linspace(lam, lam + w, 5))
        lowend = lam - w < 1.0
        if lam < 2000. - 4*TOL:
            require(flo >= -eps or lowend, 'richness %g: weights already short by %g just below it', lam, -flo)
            require(fhi <= eps, 'richness %g: weights exceed it by %g just above it', lam, fhi)
        else:
            require(excess(2000. - 3*TOL, g) > -eps, 'upper limit reported without cause')
            label = 'limit'
        if nch == 0:
            if np.all(f < -eps):
                require(lam < 1 + 3*TOL, 'richness %g although no solution exists', lam)
        elif nch == 1 and pos[0]:
            i = np.flatnonzero(~pos)[0]
            require(grid[i-1] - 2*TOL <= lam <= grid[i] + 2*TOL,
                    'richness %g, the only solution is in [%g, %g]', lam, grid[i-1], grid[i])
        probe = np.linspace(max(0.5, lam - 2.5*TOL), min(2000., lam + 2.5*TOL), 11)
    # the returned arrays are the model at the solution, to the tolerance
    vals = [model(x, g) for x in probe]
    for k, nm, x in ((0, 'total weight', wt), (1, 'probability', p), (2, 'radial weight', th)):
        a = np.array([v[k] for v in vals])
        lo, hi = a.min(axis=0), a.max(axis=0)
        slack = 1e-3 * (hi - lo) + 1e-6
        bad = (x < lo - slack) | (x > hi + slack)
        require(not np.any(bad), '%s of galaxy %s is %s, model gives [%s, %s]', nm,
                np.flatnonzero(bad)[:1], x[bad][:1], lo[bad][:1], hi[bad][:1])
    if lam != -1.0:
        # exact: the radial weight is that of the final richness
        t = model(lam, g)[2]
        require(np.allclose(th, t, atol=2e-6), 'radial weight is not that of the returned radius')
    # metamorphic: order, memory layout, dtype order, zero-weight galaxies
    perm = np.argsort(np.random.RandomState(case['perm']).uniform(size=n))
    g2 = dict(g)
    for k in 'ubrw':
        buf = np.full((n, 3), np.nan)
        buf[:, 1] = g[k][perm]
        g2[k] = buf[:, 1]
    l2, p2, w2, r2, t2 = solve(g2)
    tol = 3*TOL if nch <= 1 else None
    same = abs(l2 - lam) < 1e-6
    if same:
        require(np.allclose(p2, p[perm], atol=1e-7) and np.allclose(w2, wt[perm], atol=1e-7)
                and np.allclose(t2, th[perm], atol=1e-7), 'membership depends on galaxy order/layout')
    elif tol is not None and min(lam, l2) > 0 and max(lam, l2) < 1990:
        require(abs(l2 - lam) < tol, 'richness %g became %g after reordering', lam, l2)
    g3 = dict(g)
    ex = np.array(case['zero'], dtype='f8').reshape(-1, 3)
    g3['u'] = np.append(g['u'], ex[:, 0])
    g3['b'] = np.append(g['b'], ex[:, 1])
    g3['r'] = np.append(g['r'], ex[:, 2])
    g3['w'] = np.append(g['w'], np.zeros(ex.shape[0]))
    l3, p3, w3, r3, t3 = solve(g3)
    if tol is not None:
        require(abs(l3 - lam) < max(tol, 1e-6) or min(lam, l3) < 1.05,
                'richness %g became %g after adding zero-weight galaxies', lam, l3)
    require(np.all(w3[n:] == 0), 'zero-weight galaxy got a membership')
    # a second solve of the same problem gives the same answer
    l4, p4, w4, r4, t4 = solve(g)
    require(l4 == lam and np.array_equal(p4, p) and np.array_equal(w4, wt) and np.array_equal(t4, th),
            'repeated solve differs')
    return label + ('-multi' if nch > 1 else '') + ('-soft' if g['rsig'] > 0 else '-hard')


fl = lambda a, b: st.floats(a, b, allow_nan=False, allow_infinity=False)
gal = st.tuples(st.one_of(fl(0., 3.), fl(0., 0.05)), st.one_of(fl(0., 1.), fl(0., 60.), st.just(0.0)),
                st.one_of(fl(0., 3.), fl(0., 1.2)), st.one_of(fl(0., 1.), st.just(1.0)))
cp = st.one_of(st.just([0., 0., 0., 0.]),
               st.tuples(fl(-.1, .1), fl(-.3, .3), fl(-.3, .4), fl(-.3, .5)).map(list),
               st.tuples(fl(0., .02), fl(0., .1), fl(0., .2), fl(-.1, .2)).map(list))
strat = st.fixed_dictionaries(dict(
    gals=st.lists(gal, min_size=1, max_size=25), rep=st.sampled_from([1, 1, 1, 2, 4, 10]),
    r0=st.one_of(st.just(1.0), fl(0.3, 2.5)), beta=st.one_of(st.just(0.2), fl(0., 0.5)),
    rsig=st.one_of(st.just(0.0), st.just(0.05), fl(0.005, 0.3)), cpars=cp,
    binf=st.lists(st.integers(0, 100), max_size=2), perm=st.integers(0, 10**6),
    zero=st.lists(st.tuples(fl(0., 3.), fl(0., 5.), fl(0., 2.)), min_size=1, max_size=4)))

TESTS = [T('solve-%d' % i, strat, check, 600, 12000,
           'a list with a determined outcome (found / none / at the upper limit), soft or hard cut')
         for i in range(4)]
