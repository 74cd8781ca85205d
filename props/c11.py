"""C11: cluster state through histories of operations."""
import copy as copymod
import numpy as np
import scipy.integrate
from hypothesis import strategies as st

from vp.core import T, require, Violation
from vp import world as W, synth as S
from redmapper.cluster import Cluster, ClusterCatalog
from redmapper.galaxy import GalaxyCatalog

ASSUMPTIONS = ['flat LCDM with Omega_m=0.3, H0=100 (h^-1 Mpc), compared to 1e-4',
               'objects within 3e-6 degrees of the search radius may be on either side']
POS = [(120., 30.), (0.02, -10.), (359.99, 5.), (200., 84.9), (33., 0.)]


def mpc_per_deg(z):
    d = scipy.integrate.quad(lambda x: 1/np.sqrt(0.3*(1 + x)**3 + 0.7), 0, z)[0]
    return np.radians(1.0)*2997.92458*d/(1 + z)


class Model(object):
    def __init__(self, ra, dec, z):
        self.ra, self.dec, self.z, self.ids, self.dist = ra, dec, max(z, 0.01), None, None

    def verify(self, cl, g, what):
        s = S.survey()
        require(cl.redshift == self.z, '%s: redshift %r, set to %r', what, cl.redshift, self.z)
        require(cl.ra == self.ra and cl.dec == self.dec, '%s: position changed', what)
        require(abs(cl.mstar - s.zredstr.mstar(self.z)) < 1e-6, '%s: mstar is not that of the current redshift', what)
        sc = mpc_per_deg(self.z)
        require(abs(cl.mpc_scale - sc) < 1e-4*sc, '%s: scale %g, expected %g', what, cl.mpc_scale, sc)
        if self.ids is None:
            require(cl.neighbors is None, '%s: neighbours remain', what)
            return
        nb = cl.neighbors
        require(np.array_equal(nb.id, self.ids), '%s: neighbour list changed', what)
        require(np.allclose(nb.dist, self.dist, atol=3e-6, rtol=1e-6), '%s: neighbour distances are not those of the current position', what)
        require(np.allclose(nb.r, np.clip(sc*np.asarray(nb.dist), 1e-6, None), rtol=2e-4, atol=1e-9), '%s: radii are not those of the current redshift', what)


def verify_search(cl, g, m, radius, mpc, maxmag, what):
    deg = radius/mpc_per_deg(m.z) if mpc else radius
    d = W.sep(m.ra, m.dec, g['ra'], g['dec'])
    tol = 3e-6 + (2e-4*deg if mpc else 0)
    ok = np.ones(g.size, dtype=bool) if maxmag is None else g['refmag'] <= np.float32(maxmag)
    nb = cl.neighbors
    idx = np.asarray(nb.index)
    require(np.array_equal(g['id'][idx], nb.id), '%s: back-reference', what)
    require(np.unique(idx).size == idx.size, '%s: duplicate neighbour', what)
    hit = np.zeros(g.size, dtype=bool)
    hit[idx] = True
    require(not np.any(ok & (d < deg - tol) & ~hit), '%s: galaxies inside the radius and magnitude limit are missing', what)
    require(not np.any(hit & ~(ok & (d < deg + tol))), '%s: galaxies outside the radius or magnitude limit are included', what)
    for c in g.dtype.names:
        if c != 'chisq':
            require(np.array_equal(getattr(nb, c), g[c][idx]), '%s: neighbour column %s', what, c)
    require(np.array_equal(nb.chisq, g['chisq'][idx]) and np.allclose(nb.zred_chisq, g['chisq'][idx]), '%s: neighbour chisq', what)
    require(np.all(nb.pfree == 1.0), '%s: free probability does not start at one', what)
    for c in ('p', 'pmem', 'pcol', 'theta_i', 'theta_r', 'centering_cand'):
        require(np.all(getattr(nb, c) == 0), '%s: %s of a fresh neighbour list is not zero', what, c)
    m.ids = np.array(nb.id)
    m.dist = d[idx]


def check(case):
    rs = np.random.RandomState(case['seed'])
    s = S.survey()
    conf = S.conf(s)
    ra, dec = POS[case['pos']]
    g = S.cluster_gals(rs, s, ra, dec, 0.2, 15, 25)
    gc = GalaxyCatalog(g.copy())
    cat = ClusterCatalog.zeros(3, zredstr=s.zredstr, config=conf, bkg=s.bkg, zredbkg=s.zredbkg, r0=0.9, beta=0.15, dtype=conf.cluster_dtype)
    cat.mem_match_id = [5, 6, 7]
    row = case['row']
    cat.ra[row], cat.dec[row] = ra, dec
    if case['fromz']:
        cat.z[row] = 0.25
    cl = cat[row]
    m = Model(ra, dec, 0.2)
    if case['fromz']:
        m.z = float(np.float32(0.25))
        m.verify(cl, g, 'new cluster')
    cl.redshift = 0.2
    m.z = 0.2
    others = []
    searched = 0
    for op, x, y, b in case['ops']:
        if op == 'z':
            z = 0.005 + 0.4*x
            cl.redshift = z
            m.z = max(z, 0.01)
        elif op == 'badz':
            try:
                cl.redshift = -0.01 - x
                raise Violation('negative redshift accepted')
            except ValueError:
                pass
        elif op == 'pos':
            ra2, dec2 = W.offset(ra, dec, (x - 0.5)*0.2, (y - 0.5)*0.2)
            cl.ra, cl.dec = ra2, dec2
            m.ra, m.dec = float(ra2), float(dec2)
            if m.ids is not None:
                cl.update_neighbors_dist()
                k = np.array([np.flatnonzero(g['id'] == i)[0] for i in m.ids], dtype=int)
                m.dist = W.sep(m.ra, m.dec, g['ra'][k], g['dec'][k])
        elif op == 'find':
            radius = (0.05 + 1.5*x) if b else (0.01 + 0.2*x)
            maxmag = None if y < 0.4 else float(s.zredstr.mstar(0.2)) + 2*(y - 0.7)
            cl.find_neighbors(radius, gc, megaparsec=b, maxmag=maxmag)
            verify_search(cl, g, m, radius, b, maxmag, 'search')
            searched += m.ids.size > 0
        elif op == 'badfind':
            for a in ((None, gc), (0.1, None)):
                try:
                    cl.find_neighbors(*a)
                    raise Violation('search without radius or catalogue accepted')
                except ValueError:
                    pass
        elif op == 'clear':
            cl.clear_neighbors()
            m.ids = m.dist = None
        elif op == 'scribble' and m.ids is not None:
            # what measurements do to a neighbour list
            cl.neighbors.pmem[:] = x
            cl.neighbors.chisq[:] = y
            cl.neighbors.refmag[:] = 99.
        elif op in ('copy', 'switch'):
            c2 = cl.copy()
            m2 = copymod.copy(m)
            m2.verify(c2, g, 'copy')
            require(c2.r0 == cl.r0 and c2.beta == cl.beta and c2.config is cl.config and c2.zredbkg is cl.zredbkg, 'copy has another setup')
            if m.ids is not None:
                for c in cl.neighbors.dtype.names:
                    require(np.array_equal(getattr(c2.neighbors, c), getattr(cl.neighbors, c)), 'copied neighbour column %s', c)
            old = cl, m
            if op == 'switch':
                cl, m = c2, m2       # go on with the copy
            else:
                c2.redshift = 0.3
                c2.ra, c2.dec, c2.Lambda = 1.0, 2.0, 77.
                if m2.ids is not None:
                    c2.neighbors.pmem[:] = 0.123
                    c2.neighbors.r[:] = 9.
                    c2.update_neighbors_dist()
            others.append((old[0], copymod.copy(old[1]), None if old[0].neighbors is None else old[0].neighbors._ndarray.copy()) if op == 'switch' else None)
        m.verify(cl, g, op)
        for o in others:
            if o is not None:
                o[1].verify(o[0], g, 'original after work on its copy')
                if o[2] is not None:
                    require(o[0].neighbors._ndarray.tobytes() == o[2].tobytes(), 'neighbours of the original changed by work on its copy')
        for c in g.dtype.names:
            require(np.array_equal(getattr(gc, c), g[c]), 'the galaxy catalogue searched was changed (%s)', c)
        require(list(cat.mem_match_id) == [5, 6, 7], 'other catalogue rows changed')
        if not any(others):
            require(cat.ra[row] == m.ra and cat.dec[row] == m.dec, 'catalogue row does not follow its cluster')
    return 'searched' if searched and len(case['ops']) > 1 else (len(case['ops']) > 1)


f = st.floats(0, 1, allow_nan=False)
ops = st.tuples(st.sampled_from(['z', 'z', 'badz', 'pos', 'pos', 'find', 'find', 'find', 'badfind', 'clear', 'scribble', 'copy', 'switch']), f, f, st.booleans())
s1 = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), pos=st.integers(0, len(POS) - 1), row=st.integers(0, 2), fromz=st.booleans(),
                                ops=st.lists(ops, min_size=1, max_size=10)))
TESTS = [T('history-%d' % i, s1, check, 120, 3000, 'at least two operations; label: some search found neighbours') for i in range(8)]
