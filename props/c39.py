"""C39: the diagnostic plots show what the catalogue says."""
import contextlib
import os
import numpy as np
from scipy.integrate import quad
from hypothesis import strategies as st

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt

from vp.core import T, require
from vp import synth as S
from redmapper.catalog import Catalog
from redmapper.plotting import SpecPlot, NzPlot, NLambdaPlot, PositionPlot

ASSUMPTIONS = ['what is handed to the drawing library is checked, not the pixels; the smoothed contour map of the redshift comparison is not checked']


class Axes(object):
    def __init__(self):
        self.lines, self.bars, self.hists, self.notes, self.ylim = [], [], [], [], (0.0, 1.0)

    def plot(self, x, y, *a, **k):
        x, y = np.atleast_1d(np.array(x, dtype='f8')), np.atleast_1d(np.array(y, dtype='f8'))
        require(x.shape == y.shape, 'points with %s and %s coordinates', x.shape, y.shape)
        self.lines.append((x, y))

    def errorbar(self, x, y, yerr=None, **k):
        self.bars.append((np.array(x, 'f8'), np.array(y, 'f8'), np.array(yerr, 'f8')))

    scatter = plot

    def hist(self, x, bins=None, **k):
        self.hists.append(np.histogram(np.asarray(x), bins=bins))

    def annotate(self, text, *a, **k):
        self.notes.append(text)

    def get_ylim(self):
        return self.ylim

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('xaxis', 'yaxis'):
            return Axes()
        return lambda *a, **k: None


class Figure(object):
    def __init__(self):
        self.axes, self.saved = [], []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        a = np.array([[self.add_subplot() for _ in range(ncols)] for _ in range(nrows)], dtype=object)
        return (a[0, 0] if a.size == 1 else a.ravel() if 1 in a.shape else a) if squeeze else a

    def savefig(self, fn, *a, **k):
        self.saved.append(os.path.relpath(os.path.abspath(fn)))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


@contextlib.contextmanager
def canvas():
    figs = []

    def figure(*a, **k):
        figs.append(Figure())
        return figs[-1]
    old = plt.figure, plt.close
    plt.figure, plt.close = figure, lambda *a, **k: None
    try:
        yield figs
    finally:
        plt.figure, plt.close = old


def same(a, b, tol=1e-5):
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol + tol*np.abs(b)))


def has(lines, x, y, what):
    require(any(same(l[0], x) and same(l[1], y) for l in lines), '%s is not drawn as %s', what, np.round(y, 5).tolist()[:12])


def comparison(fig, case, zs, zp, ze, zmax):
    """Check the figure of spectroscopic against photometric redshifts."""
    require(len(fig.axes) == 2, '%d panels', len(fig.axes))
    u = zs > 0
    zs, zp, ze = zs[u], zp[u], ze[u]
    pull = np.abs(zp - zs)/ze
    if np.any(np.abs(pull - case['nsig']) < 1e-4):
        return None
    out = pull > case['nsig']
    notes = [n for n in fig.axes[0].notes if 'out' in n]
    require(len(notes) == 1 and abs(float(notes[0].split('=')[1].strip().rstrip('$')) - out.mean()) < 6e-5, 'outlier fraction %s, %d of %d are', notes, out.sum(), out.size)
    pts = [l for l in fig.axes[0].lines if not (l[0].size == 2 and (np.array_equal(l[0], l[1]) or l[0][0] == l[0][1]))]
    if out.any():
        require(any(same(np.sort(l[0]), np.sort(zp[out])) and same(np.sort(l[1]), np.sort(zs[out])) for l in pts), 'outliers %s are not marked', np.round(zp[out], 4).tolist())
        o = np.lexsort((zs[out], zp[out]))
        require(any(l[0].size == o.size and same(l[1][np.lexsort((l[1], l[0]))], zs[out][o]) for l in pts), 'outliers are marked at other redshifts')
    else:
        require(not any(l[0].size for l in pts), 'objects marked as outliers')
    b = case['binsize']
    edge = zp/b
    if np.any(np.abs(edge - np.round(edge)) < 1e-4):
        return None
    n = int(np.floor((zmax - 0.001)/b)) + 1
    cen = (np.arange(n) + 0.5)*b
    bias, sc, er = np.zeros(n), np.zeros(n), np.zeros(n)
    k = np.floor(edge).astype(int)
    ok = zp <= zmax - 0.001
    full = 0
    for i in range(n):
        m = ok & (k == i)
        if m.sum() >= 3:
            d = zs[m] - zp[m]
            bias[i] = np.median(d)
            sc[i] = 1.4862*np.median(np.abs(d - bias[i]))
            er[i] = np.median(ze[m])
            full += 1
    L = fig.axes[1].lines
    has(L, cen, bias, 'the bias')
    has(L, cen, sc/(1 + cen), 'the scatter')
    has(L, cen, er/(1 + cen), 'the error')
    return 'outliers' if out.any() and full else 'bins' if full else 'trivial'


def config(case):
    s = S.survey()
    kw = dict(redmagic_zrange=[0.15, 0.37])
    return S.conf(s, outpath='out', plotpath='plots', outbase=case.get('outbase', 't'), zrange=case.get('zrange', [0.1, 0.4]), **kw)


def saved(base, name, conf, version):
    return os.path.join('out', 'plots', '%s%s_%s.png' % (base, '_redmapper_v%s' % conf.version if version else '', name))


def t_spec(case):
    conf = config(case)
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    zp = rs.uniform(0.05, 0.45, n)
    if case['clump']:
        zp = 0.2 + 0.03*rs.uniform(-1, 1, n)
    zp[0] = 0.213    # something to plot
    ze = rs.uniform(0.004, 0.02, n)
    zs = zp + ze*rs.normal(size=n)*case['wide'] + 0.003
    zs[rs.uniform(size=n) < case['nospec']] = -1.0
    zs[0] = zp[0] + 0.001
    zp, ze, zs = zp.astype('f4'), ze.astype('f4'), zs.astype('f4')
    p = SpecPlot(conf, binsize=case['binsize'], nsig=case['nsig'])
    with canvas() as figs:
        if case['how'] == 'values':
            r = p.plot_values(zs, zp, ze, figure_return=case['ret'], title='x', calib_zrange=case['calib'], withversion=case['version'])
        elif case['how'] == 'catalogue':
            d = np.zeros(n, dtype=[('cg_spec_z', 'f4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4')])
            d['cg_spec_z'], d['z_lambda'], d['z_lambda_e'] = zs, zp, ze
            r = p.plot_cluster_catalog(Catalog(d), figure_return=case['ret'], title='x', withversion=case['version'])
        else:
            d = np.zeros(n, dtype=[('mem_match_id', 'i4'), ('z_lambda', 'f4'), ('z_lambda_e', 'f4')])
            d['mem_match_id'] = rs.permutation(3*n)[:n] + 1
            d['z_lambda'], d['z_lambda_e'] = zp, ze
            m = []
            for i in range(n):
                vals = (zs[i] + 0.01*rs.normal(size=rs.randint(1, 6))).astype('f4') if zs[i] > 0 else np.full(rs.randint(0, 3), -1.0, 'f4')
                if zs[i] > 0 and rs.uniform() < 0.3:
                    vals = np.append(vals, -1.0)
                good = vals[vals > 0]
                zs[i] = np.median(good) if good.size else 0.0
                m += [(d['mem_match_id'][i], v) for v in vals]
            m += [(3*n + 5, 0.3)]*case['stray']
            m = np.array(m, dtype=[('mem_match_id', 'i4'), ('zspec', 'f4')])
            if case['mix']:
                m = m[rs.permutation(m.size)]
            r = p.plot_cluster_catalog_from_members(Catalog(d), Catalog(m), figure_return=case['ret'], title='x', withversion=case['version'])
    require(len(figs) == 1, '%d figures', len(figs))
    fn = saved(case['outbase'], 'zspec', conf, case['version'])
    if case['ret']:
        require(r is figs[0] and not figs[0].saved, 'the figure is not returned')
    else:
        require(figs[0].saved == [fn] and os.path.relpath(p.filename) == fn, 'plot saved as %s, not %s', figs[0].saved, fn)
    lab = comparison(figs[0], case, zs.astype('f8'), zp.astype('f8'), ze.astype('f8'), conf.zrange[1])
    return lab and '%s-%s' % (case['how'], lab) if lab != 'trivial' else lab


def comoving(z):
    return 2997.92458*quad(lambda x: 1.0/np.sqrt(0.3*(1 + x)**3 + 0.7), 0, z)[0]


def t_nz(case):
    conf = config(case)
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    z0, z1 = case['zrange']
    rz = [0.15, 0.37]
    if case['how'] == 'redmagic':
        z0, z1 = case['other'] or rz
    z = rs.uniform(z0 - 0.05, z1 + 0.05, n)
    b = case['binsize']
    az = np.arange(0.0, 0.6, case['astep']) + 0.0013
    area = np.zeros(az.size, dtype=[('z', 'f4'), ('area', 'f4')])
    area['z'], area['area'] = az, np.linspace(1500.0, 300.0, az.size)
    A = Catalog(area)
    p = NzPlot(conf, binsize=b)
    with canvas() as figs:
        if case['how'] == 'redmagic':
            d = np.zeros(n, dtype=[('zredmagic_samp', 'f4', (2,))])
            d['zredmagic_samp'][:, 0], d['zredmagic_samp'][:, 1] = z, 0.2
            z = d['zredmagic_samp'][:, 0]
            p.plot_redmagic_catalog(Catalog(d), 'hi', 0.5, 10.0, A, zrange=case['other'], withversion=case['version'])
        else:
            d = np.zeros(n, dtype=[('z_lambda', 'f4'), ('pz', 'f4', (21,)), ('pzbins', 'f4', (21,))])
            d['z_lambda'] = z
            z = d['z_lambda']
            if case['how'] == 'sampled':
                # probability in a narrow peak: the draw is within it
                d['pzbins'] = z[:, None] + np.linspace(-0.1, 0.1, 21)[None, :]
                d['pz'][:, 14] = 5.0
                z = z + 0.04
            p.plot_cluster_catalog(Catalog(d), A, nosamp=case['how'] == 'plain', withversion=case['version'])
    require(len(figs) == 1 and len(figs[0].axes) == 1 and len(figs[0].axes[0].bars) == 1, 'one panel with one set of points expected')
    x, y, e = figs[0].axes[0].bars[0]
    require(figs[0].saved == [saved('t', 'redmagic_hi_0.5-10_nz' if case['how'] == 'redmagic' else 'nz', conf, case['version'])], 'plot saved as %s', figs[0].saved)
    z = z.astype('f8')
    nb = int(np.floor((z1 - 0.0001 - z0)/b)) + 1
    tol = 0.011 if case['how'] == 'sampled' else 1e-6
    full = 0
    seen = np.zeros(x.size, dtype=bool)
    for i in range(nb):
        lo, hi = z0 + i*b, z0 + (i + 1)*b
        top = min(hi, z1 - 0.0001) if i == nb - 1 else hi
        sure = int(np.sum((z >= lo + tol) & (z < top - tol)))
        may = int(np.sum((z >= lo - tol) & (z < hi + tol))) if i == nb - 1 else int(np.sum((z >= lo - tol) & (z < hi + tol)))
        c = 0.5*(lo + hi)
        k = np.flatnonzero(np.abs(x - c) < 0.1*b)
        require(k.size < 2, 'two points at redshift %.3f', c)
        if k.size == 0:
            require(sure <= 25, 'no density at redshift %.3f with %d objects', c, sure)
            continue
        seen[k] = True
        j = min(max(int(np.searchsorted(area['z'], c)), 0), az.size - 1)
        aa = [float(area['area'][q]) for q in range(max(j - 1, 0), min(j + 2, az.size))]
        vol = 4*np.pi/3*(comoving(min(hi, z1))**3 - comoving(max(lo, z0))**3)
        low, high = sure/(vol*max(aa)/41252.961)*1e4, may/(vol*min(aa)/41252.961)*1e4
        require(low*(1 - 1e-3) <= y[k[0]] <= high*(1 + 1e-3), 'density at redshift %.3f is %.5g, %d to %d objects give %.5g to %.5g', c, y[k[0]], sure, may, low, high)
        cnt = (y[k[0]]/e[k[0]])**2
        require(cnt > 25*(1 - 1e-4) and sure*(1 - 1e-3) <= cnt <= may*(1 + 1e-3) , 'error at redshift %.3f is that of %.2f objects, there are %d to %d', c, cnt, sure, may)
        full += 1
    require(seen.all(), 'points at redshifts %s outside the bins', x[~seen].tolist())
    return '%s-%d' % (case['how'], min(full, 3)) if full else 'trivial'


def t_other(case):
    conf = config(case)
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    d = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('lambda', 'f4')])
    d['ra'] = (case['ra0'] + case['width']*rs.uniform(-0.5, 0.5, n)) % 360
    d['dec'], d['lambda'] = rs.uniform(-60, 60, n), 10**rs.uniform(0.3, 2.2, n)
    with canvas() as figs:
        p = PositionPlot(conf)
        p.plot_cluster_catalog(Catalog(d), withversion=case['version'])
        q = NLambdaPlot(conf, binsize=case['lbin'])
        q.plot_cluster_catalog(Catalog(d), withversion=case['version'])
    require(len(figs) == 2, '%d figures', len(figs))
    L = figs[0].axes[0].lines
    require(len(L) == 1 and same(L[0][1], d['dec']), 'declinations drawn')
    x = L[0][0]
    dr = (x - d['ra']) % 360
    require(np.all(np.minimum(dr, 360 - dr) < 1e-6) or np.all(np.abs(dr - 180) < 1e-6), 'right ascensions drawn')
    rot = (d['ra'] + 180) % 360
    best = min(np.ptp(d['ra']), np.ptp(rot))
    require(np.ptp(x) <= best + 1e-6, 'a region of %.2f degrees is drawn over %.2f degrees', best, np.ptp(x))
    h, e = figs[1].axes[0].hists[0]
    require(np.allclose(np.diff(e), case['lbin']) and e[0] == 0, 'richness bins')
    for i in range(h.size):
        w = d['lambda'].astype('f8')
        sure, may = np.sum((w > e[i] + 1e-5) & (w < e[i + 1] - 1e-5)), np.sum((w > e[i] - 1e-5) & (w < e[i + 1] + 1e-5))
        require(sure <= h[i] <= may, 'richness bin %g holds %d clusters, drawn %d', e[i], sure, h[i])
    names = [f.saved[0] for f in figs]
    require(names == [saved('t', 'positions', conf, case['version']), saved('t', 'nlambda', conf, case['version'])], 'plots saved as %s', names)
    return 'wrap' if np.ptp(d['ra']) > best + 1 else 'plain'


seed = st.integers(0, 2**20)
spec = st.fixed_dictionaries(dict(seed=seed, n=st.sampled_from([80, 300, 150, 20, 3]), clump=st.booleans(), wide=st.sampled_from([1.0, 3.0, 0.2]), nospec=st.sampled_from([0.0, 0.4, 0.7]), how=st.sampled_from(['values', 'catalogue', 'members', 'members']),
                                  ret=st.booleans(), calib=st.sampled_from([None, [0.15, 0.3]]), version=st.booleans(), binsize=st.sampled_from([0.02, 0.03, 0.013]), nsig=st.sampled_from([4.0, 2.0, 3.0]), outbase=st.sampled_from(['t', 'a_b']),
                                  zrange=st.sampled_from([[0.1, 0.4], [0.1, 0.3]]), stray=st.sampled_from([0, 0, 4]), mix=st.booleans()))
nz = st.fixed_dictionaries(dict(seed=seed, version=st.booleans(), n=st.sampled_from([600, 2000, 200]), how=st.sampled_from(['plain', 'sampled', 'redmagic']), binsize=st.sampled_from([0.02, 0.03, 0.047]), astep=st.sampled_from([0.001, 0.01]),
                                zrange=st.sampled_from([[0.1, 0.4], [0.2, 0.31]]), other=st.sampled_from([None, [0.2, 0.33]])))
other = st.fixed_dictionaries(dict(seed=seed, n=st.integers(2, 80), ra0=st.sampled_from([0.0, 359.0, 180.0, 120.0, 2.0]), width=st.sampled_from([1.0, 40.0, 300.0]), lbin=st.sampled_from([1.0, 2.0, 5.0]), version=st.booleans()))
TESTS = [T('redshifts', spec, t_spec, quick=250, thorough=4000, rule='bins with bias and scatter, or outliers'), T('density', nz, t_nz, quick=200, thorough=3000, rule='at least one bin with a significant density'),
         T('other', other, t_other, quick=200, thorough=3000, rule='every plot')]
