"""C35: the first training members come from a percolated single-colour run."""
import numpy as np
import fitsio
from scipy.interpolate import CubicSpline as Spline
from hypothesis import strategies as st

from vp.core import T, require
from vp import world as W, synth as S
from props import c31
from props.c31 import World, Edge, close, edge, same_row
from props.c02 import ColorBkg
import redmapper.cluster_runner as cr
from redmapper.galaxy import GalaxyCatalog
from redmapper.depth_fitting import DepthLim
from redmapper.run_colormem import RunColormem

ASSUMPTIONS = ['the single-colour richness of one cluster is decided by C02; here every row and member of the run is compared with a separate measurement at that position',
               'one mask-galaxy sample is configured and the noise drawn by the mask correction is the same in every call, so that the measurement has no random choice']


def go(w):
    saved = cr.ColorBackground
    cr.ColorBackground = lambda *a, **k: ColorBkg()
    try:
        return w.go(RunColormem)
    finally:
        cr.ColorBackground = saved


def t_run(case):
    zr = [0.12, 0.38]
    kw = dict(redgalfile='red.fit', redgalmodelfile='model.fit', zmemfile='zmem.fit', calib_colormem_r0=case['r0'], calib_colormem_beta=case['beta'], calib_colormem_smooth=case['smooth'],
              calib_colormem_minlambda=case['minlam'], calib_pcut=case['pcut'], calib_colormem_zbounds=case['zb'], calib_colormem_colormodes=case['modes'][:len(case['zb']) + 1],
              calib_colormem_sigint=[0.05]*(len(case['zb']) + 1), max_maskfrac=case['mf'], percolation_rmask_gamma=case['gamma'], percolation_lmask=case['lmask'], outbase='train')
    w = World(case, **kw)
    conf, s = w.conf, w.s
    pick, z = c31.positions(w, 'z')
    ids = w.rs.permutation(pick.size) + 50 if case['ids'] else None
    c = S.seed_cat('red.fit', w.g, pick, z, 1.0, 0.0, ids)
    c31.perturb(c, w)
    for k in case['out']:
        c['z'][k % c.size] = [0.11, 0.4, 0.05][k % 3]
    use = (c['z'] > zr[0]) & (c['z'] < zr[1])
    if not use.any():
        return 'trivial'
    fitsio.write('red.fit', c, clobber=True)
    # the colour model of the training galaxies
    nodes = np.array([0.1, 0.17, 0.26, 0.33, 0.4])
    mc = np.array([np.asarray(s.zredstr.c[s.zredstr.zindex(q)], 'f8') + (s.zredstr.mstar(q) - s.zredstr.pivotmag[s.zredstr.zindex(q)])*np.asarray(s.zredstr.slope[s.zredstr.zindex(q)], 'f8') for q in nodes])
    mc += case['coff']*w.rs.normal(size=mc.shape)
    mod = np.zeros(1, dtype=[('nodes', 'f8', nodes.size), ('meancol', 'f8', mc.shape)])
    mod['nodes'][0], mod['meancol'][0] = nodes, mc
    fitsio.write('model.fit', mod, clobber=True)
    spl = [Spline(nodes, mc[:, j], bc_type='natural') for j in range(3)]

    w.measure(case['r0'], case['beta'], False, False)
    names = [d for d in w.g.dtype.descr if d[0] not in c31.W_ZRED]
    gg = np.zeros(w.g.size, dtype=names)
    for n in names:
        gg[n[0]] = w.g[n[0]]
    w.gals = GalaxyCatalog(gg)
    if not case['depth']:
        w.depth = DepthLim(w.gals.refmag, w.gals.refmag_err)
    rows = np.flatnonzero(use)
    want = ids[rows] if case['ids'] and rows.size else 1 + np.arange(rows.size)
    if rows.size == 1 and not case['ids']:
        want = np.array([1])
    bounds = np.array(case['zb'])

    def one(k, taken):
        zz = float(c['z'][k])
        if bounds.size and np.any(np.abs(bounds - zz) < 1e-6):
            raise Edge
        mode = case['modes'][int(np.sum(zz > bounds))]
        cl, frac = w.at(c['ra'][k], c['dec'][k], c['z'][k], taken)
        if frac is None or frac == 1.0 or cl.lim_limmag <= 1.0:
            return None
        cl.cbkg = ColorBkg()
        cent = float(spl[mode](zz))
        nb = cl.neighbors
        col = np.asarray(nb.mag[:, mode] - nb.mag[:, mode + 1], 'f8')
        net = np.sqrt(np.asarray(nb.mag_err[:, mode], 'f8')**2 + np.asarray(nb.mag_err[:, mode + 1], 'f8')**2 + 0.05**2)
        if np.any(np.abs(np.abs(col - cent)/net - 2) < 1e-4):
            raise Edge
        lam = float(cl.calc_richness_fit(w.mask, mode, calc_err=False, centcolor_in=cent))
        if lam < 0:
            return None
        i = int(np.argmin(nb.r))
        edge(lam/cl.scaleval, case['minlam'], 0.03)
        edge(nb.pmem[i], case['pcut'], 3e-3)
        cl.pb = float(nb.pmem[i])
        return cl if lam/cl.scaleval >= case['minlam'] and nb.pmem[i] >= case['pcut'] else None

    first = [one(k, None) for k in rows]
    lam1 = np.array([-1.0 if f is None else float(f.Lambda) for f in first])
    order = np.argsort(-lam1, kind='stable')
    srt = lam1[order]
    if np.any((np.abs(np.diff(srt)) < 0.1) & (srt[1:] > 0)):
        raise Edge
    taken = np.zeros(w.gals.size)
    exp = {}
    shared = False
    for q in order:
        k = rows[q]
        had = taken.copy()
        cl = one(k, taken)
        if cl is None:
            continue
        if lam1[q] < 0:
            raise Edge
        shared |= bool(np.any(had[cl.neighbors.index] > 0.01))
        rl = float(cl.r_lambda)
        frac = w.frac(rl)
        near = np.mean(np.abs(np.asarray(w.mask.maskgals.r) - rl) < 1e-3*rl)
        rm = case['r0']*(float(cl.Lambda)/100.)**case['beta']*((1 + float(c['z'][k]))/(1 + conf.percolation_rmask_zpivot))**case['gamma']
        rm = max(rm, rl)
        nb = cl.neighbors
        if np.any(np.abs(nb.r - rm) < 1e-4) and case['gamma']:
            raise Edge
        lim = cl.mstar - 2.5*np.log10(case['lmask'])
        if np.any(np.abs(nb.refmag - lim) < 1e-5):
            raise Edge
        eat = (nb.refmag < lim) & (nb.r < rm) & (nb.p > 0)
        pfree = np.array(nb.pfree)
        taken[nb.index[eat]] += nb.p[eat]
        ins = np.mean(np.asarray(w.mask.maskgals.r) < rl)
        exp[int(want[q])] = (k, cl, frac, 3*near/max(ins, 1e-3), rm, pfree)
    kept = {i: v for i, v in exp.items() if v[2] < case['mf']}
    if any(abs(v[2] - case['mf']) < 0.01 + v[3] for v in exp.values()):
        raise Edge
    if not kept:
        return 'trivial'
    r = go(w)
    got = {int(i): j for j, i in enumerate(r.cat.mem_match_id)}
    require(len(got) == r.cat.size and set(got) == set(kept), 'clusters %s in the catalogue, the separate measurements keep %s', sorted(got), sorted(kept))
    mids = np.asarray(r.members.mem_match_id)
    require(set(int(i) for i in mids) <= set(kept), 'members of clusters that are not in the catalogue')
    for i, (k, cl, frac, tol, rm, pfree) in kept.items():
        row = r.cat[got[i]]
        same_row(i, row, c[k], ('ra', 'dec', 'z', 'refmag'))
        close('richness', i, row.Lambda, cl.Lambda, 0.03, 2e-3)
        close('radius', i, row.r_lambda, cl.r_lambda, 1e-4, 1e-3)
        close('scale', i, row.scaleval, cl.scaleval, 2e-3, 2e-3)
        close('mask fraction', i, row.maskfrac, frac, 1e-6 + tol)
        close('initial redshift', i, row.z_init, c['z'][k], 1e-6)
        close('mask radius', i, row.r_mask, rm, 2e-4, 2e-3)
        close('reference colours', i, row.redcolor, [float(f(float(c['z'][k]))) for f in spl], 1e-4)
        c31.limits(i, row, cl, w)
        m = r.members._ndarray[mids == i]
        nb = cl.neighbors
        pm = np.asarray(nb.pmem)
        inc = (pm > 0.01) & (pfree > 0.01)
        unsure = (np.abs(pm - 0.01) < 3e-3) | (np.abs(pfree - 0.01) < 3e-3) | (np.abs(nb.r - float(cl.r_lambda)) < 2e-3)
        have = set(int(x) for x in m['ID'] if True) if 'ID' in m.dtype.names else set(int(x) for x in m['id'])
        ids_ = np.asarray(nb.id)
        diff = (have ^ set(int(x) for x in ids_[inc])) - set(int(x) for x in ids_[unsure])
        require(len(have) == len(m) and not diff, 'cluster %d: members differ from the separate measurement: %s', i, sorted(diff)[:5])
        loc = {int(x): j for j, x in enumerate(ids_)}
        low = {n.lower(): n for n in m.dtype.names}
        for x in m:
            j = loc[int(x[low['id']])]
            if unsure[j]:
                continue
            for n in ('ra', 'dec', 'refmag', 'refmag_err', 'mag', 'mag_err'):
                require(np.array_equal(x[low[n]], getattr(nb, n)[j]), 'cluster %d: %s of a member is not that of its galaxy', i, n)
            for n, t in (('r', 1e-5), ('p', 5e-3), ('pcol', 5e-3), ('theta_i', 1e-3), ('theta_r', 5e-3)):
                close('member ' + n, i, x[low[n]], getattr(nb, n)[j], t)
            close('member pfree', i, x[low['pfree']], pfree[j], 5e-3)
            dz = float(x[low['z']]) - float(c['z'][k])
            require(abs(dz) <= 6*case['smooth'] + 1e-6, 'cluster %d: member redshift is %g away from the cluster', i, dz)
    if case['smooth'] and r.members.size > 20:
        zc = {i: float(c['z'][v[0]]) for i, v in kept.items()}
        dz = (np.asarray(r.members.z, 'f8') - np.array([zc[int(i)] for i in mids]))/case['smooth']
        n = dz.size
        require(np.unique(np.round(dz, 4)).size > 0.6*n, 'members share the redshift offset')
        require(abs(np.mean(dz)) < 5.5/np.sqrt(n) and 1 - 5.5/np.sqrt(2*n) < np.std(dz) < 1 + 5.5/np.sqrt(2*n), 'redshift offsets: mean %g, scatter %g in units of the configured smoothing', np.mean(dz), np.std(dz))
    r.output_training()
    out = fitsio.read('zmem.fit', ext=1, lower=True)
    mem = r.members
    sel = np.asarray(mem.pcol) > case['pcut']
    require(out.size == sel.sum(), 'training file has %d members, %d have a colour probability above the cut', out.size, sel.sum())
    key = lambda a, b: sorted(zip([int(x) for x in a], [int(x) for x in b]))
    require(key(out['mem_match_id'], out['id']) == key(np.asarray(mem.mem_match_id)[sel], np.asarray(mem.id)[sel]), 'training members')
    a, b = np.lexsort((out['id'], out['mem_match_id'])), np.flatnonzero(sel)[np.lexsort((np.asarray(mem.id)[sel], np.asarray(mem.mem_match_id)[sel]))]
    for n in ('z', 'p', 'pcol', 'refmag', 'mag'):
        require(np.array_equal(out[n][a], np.asarray(getattr(mem, n))[b]), 'training members: %s', n)
    cat = fitsio.read(conf.redmapper_filename('colorcat'), ext=1, lower=True)
    require(sorted(cat['mem_match_id']) == sorted(kept), 'the written catalogue is not the catalogue of the run')
    return 'percolated' if shared and len(kept) > 1 else ('single' if kept else 'trivial')


clus = st.fixed_dictionaries(dict(dx=st.floats(-1.0, 1.0), dy=st.floats(-1.0, 1.0), dz=st.sampled_from([0.0, 0.0, 0.01, 0.02, -0.02, 0.05]), n=st.integers(25, 70), extra=st.sampled_from([1, 2, 3, 0])))
cases = st.fixed_dictionaries(dict(c31.base, clusters=st.lists(clus, min_size=1, max_size=3), ids=st.booleans(), r0=st.sampled_from([0.5, 0.8, 1.0]), beta=st.sampled_from([0.0, 0.0, 0.2]),
                                   smooth=st.sampled_from([0.0, 0.003, 0.01]), minlam=st.sampled_from([3.0, 5.0, 10.0]), pcut=st.sampled_from([0.3, 0.3, 0.5, 0.1]),
                                   zb=st.sampled_from([[0.203], [0.255], [0.183, 0.283], [0.295], [0.153, 0.265]]), modes=st.permutations([0, 1, 2]), mf=st.sampled_from([0.2, 0.35, 0.5]),
                                   gamma=st.sampled_from([0.0, 0.0, 1.0, 3.0]), lmask=st.sampled_from([0.1, 0.3, 1.0]), coff=st.sampled_from([0.0, 0.02, 0.05]), out=st.lists(st.integers(0, 30), max_size=2),
                                   holes=st.sampled_from([0.0, 0.15, 0.3, 0.5])))
TESTS = [T('train-%d' % i, cases, c31.guarded(t_run), quick=90, thorough=2000, rule='at least two overlapping clusters are measured') for i in range(4)]
