"""C22: pixelised runs, interrupted and resumed."""
import json
import multiprocessing
import os
import signal
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation, HarnessError
from vp import world as W, synth as S
from props import c21
from redmapper.catalog import Catalog
from redmapper.redmapper_run import RedmapperRun
from redmapper.run_firstpass import RunFirstPass
from redmapper.run_likelihoods import RunLikelihoods
from redmapper.run_percolation import RunPercolation

ASSUMPTIONS = ['stage computations are replaced by deterministic ones; orchestration and file output are real',
               'run resolution and region resolution not finer than the galaxy table', 'at least one cluster passes the cuts',
               'a kill inside a file write leaves half of the file being written; other processes of the run die at the same moment']

STAGES = ['firstpass', 'like', 'final']
G = {}          # state inherited by the forked workers


class Boom(Exception):
    pass


def tick(kind):
    """One possible crash point; True when the run is to die here (after a partial write)."""
    with G['count'].get_lock():
        G['count'].value += 1
        n = G['count'].value
    return n == G['crash']


def die():
    os.killpg(0, signal.SIGKILL)


def point(kind):
    if tick(kind):
        if G['how'] == 'raise' and kind in ('start', 'end'):
            raise Boom('injected failure')
        die()


def log(**kw):
    fd = os.open(G['log'], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(kw) + '\n').encode())
    os.close(fd)


def pixel_rows(nside, p):
    """Clusters and members found when running pixel p: its own and some of its neighbours'."""
    c, m = G['c'], G['m']
    rs = np.random.RandomState((G['seed'] + 7919*int(p) + nside) % 2**31)
    pix = hpg.angle_to_pixel(nside, c['ra'], c['dec'], nest=False)
    i = rs.permutation(np.flatnonzero((pix == p) | (rs.uniform(size=c.size) < 0.3)))
    cc = c[i].copy()
    cc['mem_match_id'] = rs.permutation(i.size) + 1
    loc = dict(zip(cc['uid'].tolist(), cc['mem_match_id'].tolist()))
    mm = m[np.isin(m['cuid'], cc['uid'])].copy()
    mm['mem_match_id'] = [loc[u] for u in mm['cuid'].tolist()]
    return cc, mm


def barren(nside, p):
    """Stage at which pixel p yields nothing (0, 1, 2), or 3."""
    r = np.random.RandomState((G['seed'] + 104729*int(p) + nside) % 2**31).uniform()
    return 3 if r > G['empty'] else int(3*r/G['empty']) if G['empty'] > 0 else 3


def fake(stage):
    def run(self, *args, **kw):
        cfg = self.config
        hp = [int(x) for x in np.atleast_1d(cfg.d.hpix)]
        log(ev='start', stage=stage, hpix=hp, nside=int(cfg.d.nside), outbase=cfg.d.outbase, kw={k: bool(v) for k, v in kw.items()},
            catfile=cfg.catfile, seedfile=cfg.seedfile, spec=bool(getattr(self, 'specmode', False)), h0=float(cfg.cosmo.H0()))
        point('start')
        p, ns = hp[0], int(cfg.d.nside)
        cc, mm = pixel_rows(ns, p)
        self.cat, self.members = None, None
        b = barren(ns, p)
        k = STAGES.index(stage)
        if not G['perconly'] and k > 0:
            cc = fitsio.read(cfg.catfile, ext=1, lower=True)      # works on what the previous stage left
        if b == k:
            if p % 2 == 0:
                self.cat = Catalog(cc[:0].copy())
        else:
            cc['lambda'] = cc['lambda'] + np.float32(0.25)
            self.cat = Catalog(cc.copy())
            self.members = Catalog(mm.copy()) if stage == 'final' else None
        point('end')
    return run


def patch():
    """Install the stand-ins (in a child process only)."""
    for cls, st_ in ((RunFirstPass, 'firstpass'), (RunLikelihoods, 'like'), (RunPercolation, 'final')):
        cls.run = fake(st_)
    w0, r0, n0 = fitsio.write, os.replace, os.rename

    def write(fn, *a, **k):
        point('before-write')
        out = w0(fn, *a, **k)
        if tick('mid-write'):
            with open(str(fn), 'r+b') as f:
                f.truncate(os.path.getsize(str(fn))//2)
            die()
        point('after-write')
        return out

    def replace(*a, **k):
        point('before-rename')
        return r0(*a, **k)

    def rename(*a, **k):
        point('before-rename')
        return n0(*a, **k)
    fitsio.write, os.replace, os.rename = write, replace, rename


def conf(case, gf):
    return S.conf(S.survey(), outpath='out.fit.d', outbase='t', max_maskfrac=0.2, percolation_minlambda=3.0, area=100.0, galfile=gf, seedfile='seeds0.fit',
                  calib_run_nproc=case['nproc'], calib_run_min_nside=case['minside'], zredfile='none.fit', catfile='input.fit',
                  nside=case['rnside'] if case['hpix'] else None, hpix=case['hpix'] or None, printlogging=case['printlog'])


def go(case, gf, crash=0, **over):
    """One run in a process of its own; returns (finished, result, events, crash points passed)."""
    G['count'] = multiprocessing.Value('i', 0)     # a killed process may have held the lock of the last one
    G['crash'] = crash
    G['log'] = os.path.abspath('events.log')
    if os.path.exists(G['log']):
        os.unlink(G['log'])
    res = os.path.abspath('result.json')
    if os.path.exists(res):
        os.unlink(res)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setsid()
            signal.alarm(60)
            c = conf(case, gf)
            before = (c.d.nside, list(c.d.hpix), c.d.outbase, c.seedfile, c.catfile)
            patch()
            kw = dict(check=True, keepz=case['keepz'], cleaninput=case['clean'], consolidate_like=case['like'] and not case['perconly'],
                      percolation_only=case['perconly'], specmode=case['spec'], seedfile='seeds1.fit' if case['seedarg'] else None)
            kw.update(over)
            out = RedmapperRun(c).run(**kw)
            after = (c.d.nside, list(c.d.hpix), c.d.outbase, c.seedfile, c.catfile)
            with open(res, 'w') as f:
                json.dump(dict(out=out, same=bool(before == after), before=repr(before), after=repr(after)), f)
            code = 0
        except Boom:
            code = 4
        except BaseException as e:
            import traceback
            with open(res, 'w') as f:
                json.dump(dict(error=traceback.format_exc()[-1500:]), f)
            code = 3
        finally:
            try:
                if code != 0:
                    os.killpg(0, signal.SIGKILL) if code == 4 else None
            finally:
                os._exit(code)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    os.close(wr)
    os.read(rd, 1)          # end of file once every process of the run is gone
    os.close(rd)
    r = json.load(open(res)) if os.path.exists(res) else None
    if r is not None and 'error' in r:
        raise Violation('run failed: %s' % r['error'])
    ev = [json.loads(x) for x in open(G['log'])] if os.path.exists(G['log']) else []
    if crash == 0 and r is None:
        raise Violation('run did not finish (status %s)' % status)
    return r is not None, r, ev, G['count'].get_obj().value


def complete(fn):
    try:
        with fitsio.FITS(fn) as f:
            f[1].read()
        return True
    except Exception:
        return False


def stage_files(case, ns, p):
    if case['perconly']:
        b = 'out.fit.d/t_%05d_' % p
        return {'final': [b + 'final_catalog.fit', b + 'final_catalog_members.fit']}
    b = 'out.fit.d/t_%d_%05d_' % (ns, p)
    return {'firstpass': [b + ('firstpass_spec' if case['spec'] else 'firstpass') + '_catalog.fit'], 'like': [b + 'like_catalog.fit'],
            'final': [b + 'final_catalog.fit', b + 'final_catalog_members.fit']}


def expected(case, ns, pix):
    """The merged catalogue, from the model."""
    rows, mem = [], []
    add = np.float32(0.25)
    for p in pix:
        if barren(ns, p) < 3 if not case['perconly'] else barren(ns, p) == 2:
            continue
        cc, mm = pixel_rows(ns, p)
        for _ in range(1 if case['perconly'] else 3):
            cc['lambda'] = cc['lambda'] + add
        k = (hpg.angle_to_pixel(ns, cc['ra'], cc['dec'], nest=False) == p) & (cc['maskfrac'] < 0.2) & (cc['lambda']/cc['scaleval'] > 3.0)
        rows.append(cc[k])
        mem.append(mm[np.isin(mm['cuid'], cc['uid'][k])])
    if not rows or sum(r.size for r in rows) == 0:
        return None
    rows, mem = np.concatenate(rows), np.concatenate(mem)
    return c21.with_ids(rows, mem, rows['uid'][np.argsort(-rows['lnlike'].astype('f8'))].tolist())


def check_events(case, ev, ns, pix, skip=()):
    """Every stage not in skip ran once, in order, on its own pixel and input."""
    seen = {}
    for e in ev:
        require(len(e['hpix']) == 1 and e['nside'] == ns, 'stage ran on pixels %s of nside %d', e['hpix'], e['nside'])
        seen.setdefault(e['hpix'][0], []).append(e)
    require(set(seen) <= set(pix), 'ran on pixels %s outside the region', sorted(set(seen) - set(pix)))
    names = ['final'] if case['perconly'] else STAGES
    for p in pix:
        b = barren(ns, p)
        want = [s for s in names if STAGES.index(s) <= b or case['perconly']]
        want = [s for s in want if (p, s) not in skip]
        got = [e['stage'] for e in seen.get(p, [])]
        require(got == want, 'pixel %d of nside %d: stages %s, expected %s (finished before: %s)', p, ns, got, want, sorted(s for q, s in skip if q == p))
        files = stage_files(case, ns, p)
        for e in seen.get(p, []):
            require(e['kw'].get('keepz', False) == case['keepz'], 'pixel %d: %s ignores keepz', p, e['stage'])
            if e['stage'] == names[0]:
                require(e['kw'].get('cleaninput', False) == case['clean'], 'pixel %d: %s ignores cleaninput', p, e['stage'])
            require(abs(e['h0'] - G['h0']) < 1e-9, 'pixel %d: cosmology changed', p)
            if e['stage'] == 'firstpass':
                require(e['spec'] == case['spec'], 'pixel %d: specmode', p)
                require(e['seedfile'] == ('seeds1.fit' if case['seedarg'] else 'seeds0.fit'), 'pixel %d: seeds from %s', p, e['seedfile'])
            k = names.index(e['stage'])
            want = 'input.fit' if case['perconly'] else (files[names[k-1]][0] if k else None)
            if want is not None:
                require(os.path.abspath(e['catfile']) == os.path.abspath(want), 'pixel %d: %s reads %s, expected %s', p, e['stage'], e['catfile'], want)


def merged(what, r, exp):
    out = r['out'][0] if isinstance(r['out'], list) else r['out']
    require(out is not None and os.path.abspath(out) == os.path.abspath('out.fit.d/t_final.fit'), '%s: result %s', what, out)
    require(r['same'], '%s: run settings changed from %s to %s', what, r['before'], r['after'])
    c21.compare(what, out, 'out.fit.d/t_final_members.fit', exp[0], exp[1])


def check(case):
    rs = np.random.RandomState(case['seed'])
    case = dict(case)
    case['spec'] = case['spec'] and case['keepz'] and not case['perconly']
    case['minside'] = min(case['minside'], case['tnside'])
    case['rnside'] = min(case['rnside'], case['tnside'])
    c, m = c21.clusters(rs, dict(case, nside=case['tnside'], pixcen=False))
    g = np.zeros(c.size, dtype=W.gal_dtype(4))
    g['id'], g['ra'], g['dec'], g['refmag'], g['refmag_err'], g['mag'], g['mag_err'] = np.arange(c.size) + 1, c['ra'], c['dec'], 18, 0.01, 18, 0.01
    tp = hpg.angle_to_pixel(case['tnside'], c['ra'], c['dec'], nest=False)
    if np.unique(tp).size < 2:
        return False
    gf = W.write_galtable('gals', 'g', g, case['tnside'], 4, S.BANDS, 'i', lim_ref=S.survey().limmag)[0]
    case['hpix'] = []
    tra, tdec = hpg.pixel_to_angle(case['tnside'], np.unique(tp), nest=False)
    if case['region']:
        rp = np.unique(hpg.angle_to_pixel(case['rnside'], tra, tdec, nest=False))
        sel = rp[rs.permutation(rp.size)[:case['region']]]
        case['hpix'] = sorted(int(x) for x in sel)
    from redmapper.configuration import Cosmo
    G.update(c=c, m=m, seed=case['seed'], empty=case['empty'], perconly=case['perconly'], how=case['how'], h0=Cosmo().H0())
    os.makedirs('out.fit.d', exist_ok=True)
    # uninterrupted
    try:
        ok, r, ev, npoint = go(case, gf)
    except Violation:
        # nothing found anywhere is allowed to fail
        evs = [json.loads(x) for x in open(G['log'])] if os.path.exists(G['log']) else []
        if not evs or expected(case, evs[0]['nside'], sorted({e['hpix'][0] for e in evs})) is not None:
            raise
        return 'trivial-nothing-found'
    ns = ev[0]['nside']
    inreg = np.ones(tra.size, dtype=bool) if not case['hpix'] else np.isin(hpg.angle_to_pixel(case['rnside'], tra, tdec, nest=False), case['hpix'])
    pix = sorted(int(x) for x in np.unique(hpg.angle_to_pixel(ns, tra[inreg], tdec[inreg], nest=False)))
    require(not case['hpix'] or ns >= case['rnside'], 'split at nside %d, coarser than the region', ns)
    check_events(case, ev, ns, pix)
    exp = expected(case, ns, pix)
    if exp is None:
        return 'trivial-nothing-found'
    merged('run', r, exp)
    # run again: everything is there already
    done = {(p, s) for p in pix for s, f in stage_files(case, ns, p).items() if all(complete(x) for x in f)}
    again = [os.stat(f).st_mtime_ns for f in ('out.fit.d/t_final.fit', 'out.fit.d/t_final_members.fit')]
    ok, r, ev2, _ = go(case, gf)
    check_events(case, ev2, ns, pix, done)
    merged('second run', r, exp)
    require(again == [os.stat(f).st_mtime_ns for f in ('out.fit.d/t_final.fit', 'out.fit.d/t_final_members.fit')], 'finished run written again')
    if case['mode'] == 'redo':
        G['seed'] += 1
        G['c'] = c.copy()
        G['c']['lnlike'] = rs.permutation(c.size) - 5.
        exp = expected(case, ns, pix)
        if exp is None:
            return 'trivial-nothing-found'
        ok, r, ev3, _ = go(case, gf, check=False)
        check_events(case, ev3, ns, pix)
        merged('run without checking', r, exp)
        return 'redo'
    if case['mode'] == 'noconsolidate':
        os.unlink('out.fit.d/t_final.fit')
        ok, r, ev3, _ = go(case, gf, consolidate=False, consolidate_like=False)
        require(r['out'] is None and not os.path.exists('out.fit.d/t_final.fit'), 'consolidated without being asked')
        return 'noconsolidate'
    # the same run, killed on the way
    os.rename('out.fit.d', 'out_ref')
    os.makedirs('out.fit.d')
    crashes = 0
    done = set()
    for frac in case['crashes']:
        k = 1 + int(frac*npoint)
        fin, r, ev, n = go(case, gf, crash=k)
        for p in pix:
            for s in {e['stage'] for e in ev if e['hpix'] == [p]}:
                require((p, s) not in done, 'pixel %d: finished stage %s run again', p, s)
        crashes += not fin
        done = {(p, s) for p in pix for s, f in stage_files(case, ns, p).items() if all(complete(x) for x in f)}
        if fin:
            break
    ok, r, ev, _ = go(case, gf)
    check_events(case, ev, ns, pix, done)
    merged('resumed run', r, exp)
    for f in ('t_final.fit', 't_final_members.fit'):
        a, b = fitsio.read('out.fit.d/' + f, ext=1), fitsio.read('out_ref/' + f, ext=1)
        o = np.argsort(a['uid']), np.argsort(b['uid'])
        require(all(np.array_equal(a[n_][o[0]], b[n_][o[1]]) for n_ in a.dtype.names), '%s differs from the uninterrupted run', f)
    if case['like'] and not case['perconly']:
        a, b = fitsio.read('out.fit.d/t_like.fit', ext=1), fitsio.read('out_ref/t_like.fit', ext=1)
        require(sorted(a['uid'].tolist()) == sorted(b['uid'].tolist()), 'likelihood catalogue differs from the uninterrupted run')
    return 'crashes-%d' % crashes if crashes else 'trivial-not-killed'


cases = st.fixed_dictionaries(dict(
    seed=st.integers(0, 2**31 - 1000), n=st.integers(3, 24), center=st.integers(0, len(c21.CENTERS) - 1), spread=st.sampled_from([1.0, 2.0, 4.0]),
    tnside=st.sampled_from([4, 8, 16]), minside=st.sampled_from([1, 2, 4, 8, 16]), rnside=st.sampled_from([1, 2, 4, 8]), region=st.integers(0, 4),
    nproc=st.sampled_from([1, 2, 3, 5]), empty=st.sampled_from([0.0, 0.0, 0.4]), perconly=st.sampled_from([False, False, True]), keepz=st.booleans(),
    clean=st.booleans(), like=st.booleans(), spec=st.booleans(), seedarg=st.booleans(), printlog=st.booleans(),
    mode=st.sampled_from(['crash', 'crash', 'crash', 'crash', 'crash', 'redo', 'noconsolidate']), how=st.sampled_from(['kill', 'kill', 'raise']),
    crashes=st.lists(st.integers(0, 999).map(lambda x: x/1000.), min_size=1, max_size=3)))

TESTS = [T('runs-%d' % i, cases, check, 30, 1000, 'two or more table pixels, at least one cluster kept; killed at least once in crash mode') for i in range(4)]
