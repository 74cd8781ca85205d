"""C10: sky matching."""
import numpy as np
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W
from redmapper.galaxy import GalaxyCatalog

ASSUMPTIONS = ['pairs within 3e-6 degrees (arc cosine rounding) of the matching radius may fall on either side']
TOL = 3e-6
CENTERS = dict(eq=(140., 2.), wrap=(0.0, -20.), north=(77., 90.), south=(200., -90.), mid=(300., 43.), near=(10., 89.7))


def make(case):
    rs = np.random.RandomState(case['seed'])
    ra0, dec0 = CENTERS[case['center']]
    scale = case['scale']

    def pos(n):
        r = scale*np.sqrt(rs.uniform(size=n))
        ph = rs.uniform(0, 2*np.pi, n)
        ra, dec = W.offset(ra0, dec0, r*np.cos(ph), r*np.sin(ph))
        if case['allsky']:
            ra, dec = rs.uniform(0, 360, n), np.degrees(np.arcsin(rs.uniform(-1, 1, n)))
        return ra, dec
    g = np.zeros(case['n'], dtype=W.gal_dtype(3))
    g['id'] = rs.permutation(case['n']) + 1
    g['ra'], g['dec'] = pos(case['n'])
    q = np.zeros(case['nq'], dtype=[('ra', 'f8'), ('dec', 'f8'), ('rad', 'f8')])
    q['ra'], q['dec'] = pos(case['nq'])
    if case['onobj']:
        k = rs.randint(case['n'], size=case['nq'])
        q['ra'], q['dec'] = g['ra'][k], g['dec'][k]
    if case['dup'] and case['n'] > 1:
        g['ra'][-1], g['dec'][-1] = g['ra'][0], g['dec'][0]
    q['rad'] = min(case['rad']*scale, 8.0)*(rs.uniform(0.5, 1.5, case['nq']) if case['vary'] else 1.0)
    if case['unwrapped']:
        q['ra'] -= 360.0*(q['ra'] > 180)
    return rs, g, q


def verify(got_i, got_d, g, ra, dec, rad, maxmatch=0):
    d = W.sep(ra, dec, g['ra'], g['dec'])
    must, may = d < rad - TOL, d < rad + TOL
    got_i = np.asarray(got_i, dtype=int)
    require(np.unique(got_i).size == got_i.size, 'an object is matched twice')
    require(np.all((got_i >= 0) & (got_i < g.size)), 'index outside the catalogue')
    hit = np.zeros(g.size, dtype=bool)
    hit[got_i] = True
    if maxmatch == 0:
        require(not np.any(must & ~hit), 'objects within the radius missing')
    else:
        require(got_i.size <= maxmatch, 'too many matches')
        require(got_i.size >= min(maxmatch, must.sum()), 'too few matches')
        if got_i.size:
            require(not np.any(~hit & (d < d[got_i].max() - TOL)), 'a nearer object was passed over')
    require(not np.any(hit & ~may), 'objects outside the radius matched')
    require(np.all(np.abs(np.asarray(got_d) - d[got_i]) < TOL), 'wrong separation')
    return int(hit.sum())


def check(case):
    rs, g, q = make(case)
    cat = GalaxyCatalog(g.copy())
    use, sub = g, cat
    total = 0
    for step in case['steps']:
        if step == 'sub' and use.size > 1:
            k = rs.permutation(use.size)[:max(1, use.size//2)]
            sub, use = sub[k], use[k]
        elif step == 'one':
            for x in q[:4]:
                i, d = sub.match_one(x['ra'], x['dec'], x['rad'])
                total += verify(i, d, use, x['ra'], x['dec'], x['rad'])
        elif step in ('many', 'nearest', 'few'):
            mm = dict(many=0, nearest=1, few=2)[step]
            rad = q['rad'] if case['vary'] else float(q['rad'][0])
            i0, i1, d = sub.match_many(q['ra'], q['dec'], rad, maxmatch=mm)
            i0, i1, d = np.atleast_1d(i0), np.atleast_1d(i1), np.atleast_1d(d)
            require(i0.size == i1.size == d.size, 'lengths differ')
            require(np.all((i0 >= 0) & (i0 < q.size)), 'query index')
            for j, x in enumerate(q):
                w = i0 == j
                total += verify(i1[w], d[w], use, x['ra'], x['dec'], x['rad'], mm)
    return case['center'] if total else False


s = st.fixed_dictionaries(dict(seed=st.integers(0, 2**31 - 1), n=st.integers(1, 60), nq=st.integers(1, 12),
                               center=st.sampled_from(sorted(CENTERS)), scale=st.sampled_from([0.02, 0.3, 3.0, 12.0]),
                               allsky=st.sampled_from([False, False, False, True]), onobj=st.booleans(), dup=st.booleans(), rad=st.sampled_from([0.05, 0.3, 1.0, 2.5]),
                               vary=st.booleans(), unwrapped=st.booleans(),
                               steps=st.lists(st.sampled_from(['one', 'many', 'nearest', 'few', 'sub']), min_size=1, max_size=5)))
TESTS = [T('match-%d' % i, s, check, 500, 10000, 'at least one pair matched; label: sky position') for i in range(8)]
