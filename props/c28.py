"""C28: lock files."""
import os
import sys
import time
import signal
import random
import threading
import multiprocessing
import traceback
import numpy as np
import fitsio
import hpgeom as hpg
from hypothesis import strategies as st

from vp.core import T, require, Violation, HarnessError
from vp import world as W
from redmapper import utilities as U
from redmapper.pipeline.zredtask import RunZredPixelTask
from redmapper.redsequence import RedSequenceColorPar
from props import c05

ASSUMPTIONS = ['the owner of a lock removes the lock file to release it', 'a lock left by a killed process stays taken until somebody removes it',
               'waiting times are shortened (time.sleep)']
FILE = os.path.abspath(U.__file__).replace('.pyc', '.py')
NAMES = ['a.lock', 'd/b.lock', 'd/with space.lock', 'd/.hidden']


# ---------------------------------------------------------------- scheduled threads
class Sched(object):
    """Runs threads one at a time, switching at every source line of redmapper.utilities in the order given."""
    def __init__(self, order, limit=4000):
        self.order, self.pos, self.limit, self.steps = order, 0, limit, 0
        self.cv = threading.Condition()
        self.live, self.turn, self.clock = [], None, 0
        self.stuck = False

    def choose(self):
        if not self.live:
            self.turn = None
        else:
            k = self.order[self.pos % len(self.order)] if self.order else 0
            self.pos += 1
            self.turn = self.live[k % len(self.live)]
        self.cv.notify_all()

    def tick(self):
        self.clock += 1
        return self.clock

    def pause(self):
        me = threading.get_ident()
        with self.cv:
            if me not in self.live:
                return
            self.steps += 1
            if self.steps > self.limit:
                self.stuck = True
            self.choose()
            while self.turn != me and not self.stuck:
                if not self.cv.wait(20):
                    self.stuck = True
            if self.stuck:
                self.cv.notify_all()
                raise HarnessError('schedule exceeded its steps')

    def trace(self, frame, event, arg):
        if os.path.abspath(frame.f_code.co_filename) != FILE:
            return None
        if event == 'line':
            self.pause()
        return self.trace

    def run(self, funcs):
        errs, started, go = [], [], threading.Event()

        def body(f):
            me = threading.get_ident()
            with self.cv:
                started.append(me)
                self.cv.notify_all()
            go.wait()
            with self.cv:
                while self.turn != me:
                    self.cv.wait(20)
            sys.settrace(self.trace)
            try:
                f()
            except BaseException as e:
                errs.append((e, traceback.format_exc()))
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.remove(me)
                    self.choose()
        ts = []
        for f in funcs:
            t = threading.Thread(target=body, args=(f,), daemon=True)
            t.start()
            ts.append(t)
            with self.cv:
                while len(started) < len(ts):
                    self.cv.wait(20)
        self.live = list(started)
        with self.cv:
            self.choose()
        go.set()
        for t in ts:
            t.join(60)
        return errs


def t_schedule(case):
    os.makedirs('d', exist_ok=True)
    lock = NAMES[case['name']]
    if case['abs']:
        lock = os.path.abspath(lock)
    sched = Sched(case['order'])
    if case['foreign']:
        open(lock, 'w').write('foreign')
    real = time.sleep
    holder, spans, calls, sleeps = [], [], [], {}
    foreign = {'there': case['foreign'], 'gone': None}

    def fake_sleep(s):
        me = threading.get_ident()
        sleeps.setdefault(me, []).append(s)
        if foreign['there'] and case['leave'] is not None and sum(len(v) for v in sleeps.values()) >= case['leave']:
            require(open(lock).read() == 'foreign', 'an existing lock was altered')
            os.remove(lock)
            foreign['there'] = False
            foreign['gone'] = sched.tick()
        sched.pause()

    def program(ops):
        def run():
            me = threading.get_ident()
            for kind, tries, hold in ops:
                n0 = len(sleeps.get(me, []))
                t0 = sched.tick()
                if kind == 'try':
                    r = U.make_lockfile(lock) if tries % 2 else U.make_lockfile(lock, block=False)
                else:
                    r = U.make_lockfile(lock, block=True, maxtry=tries, waittime=0.25)
                t1 = sched.tick()
                waits = sleeps.get(me, [])[n0:]
                require(r is True or r is False or isinstance(r, (bool, np.bool_)), 'lock returned %r', r)
                call = dict(t0=t0, t1=t1, got=bool(r), kind=kind, tries=tries, end=None, waits=len(waits))
                calls.append(call)
                require(kind == 'block' or not waits, 'a request that should not wait waited')
                require(len(waits) <= tries and all(abs(w - 0.25) < 1e-9 for w in waits), 'waited %s for %d tries of 0.25 s', waits, tries)
                if r:
                    require(not holder, 'two owners of the same lock')
                    require(not foreign['there'], 'lock granted while another process holds it')
                    require(os.path.exists(lock), 'lock granted without a lock file')
                    holder.append(me)
                    for _ in range(hold):
                        sched.pause()
                        require(holder == [me], 'two owners of the same lock')
                        require(os.path.exists(lock), 'the lock file vanished while held')
                    holder.remove(me)
                    os.remove(lock)
                    call['end'] = sched.tick()
        return run
    time.sleep = fake_sleep
    try:
        errs = sched.run([program(ops) for ops in case['progs']])
    finally:
        time.sleep = real
    for e, tb in errs:
        if isinstance(e, (Violation, HarnessError)):
            raise e
        raise Violation('lock request raised: %s' % tb[-600:])
    # a refused request must have met another owner
    for c in calls:
        if not c['got']:
            others = [o for o in calls if o is not c and o['got'] and o['t0'] <= c['t1'] and o['end'] >= c['t0']]
            met = bool(others) or (case['foreign'] and (foreign['gone'] is None or foreign['gone'] >= c['t0']))
            require(met, 'a free lock was refused')
            if c['kind'] == 'block':
                require(c['waits'] >= c['tries'] - 1, 'gave up after %d of %d tries', c['waits'], c['tries'])
    d = os.path.dirname(lock) or '.'
    left = sorted(f for f in os.listdir(d) if not (d in ('.', os.getcwd()) and f == 'd'))
    require(left == ([os.path.basename(lock)] if foreign['there'] else []), 'files left behind: %s', left)
    if foreign['there']:
        require(open(lock).read() == 'foreign', 'an existing lock was altered')
    won = sum(c['got'] for c in calls)
    return 'contended' if won < len(calls) or any(c['waits'] for c in calls) else 'free'


OP = st.tuples(st.sampled_from(['try', 'try', 'block']), st.integers(1, 12), st.integers(0, 6))
SCHED = st.fixed_dictionaries({'name': st.integers(0, 3), 'abs': st.booleans(), 'foreign': st.sampled_from([False, False, True]), 'leave': st.sampled_from([None, 1, 2, 5]),
                               'progs': st.lists(st.lists(OP, min_size=1, max_size=3), min_size=1, max_size=3), 'order': st.lists(st.integers(0, 2), min_size=1, max_size=120)})


# ---------------------------------------------------------------- one process, odd surroundings, killed owners
def t_history(case):
    os.makedirs('d', exist_ok=True)
    real = time.sleep
    time.sleep = lambda s: None
    state = {}
    try:
        for op, k, tries in case['ops']:
            lock = NAMES[k]
            held = os.path.lexists(lock)
            before = {f: os.lstat(f).st_ino for f in NAMES if os.path.lexists(f)}
            if op == 'release':
                if held and state.get(lock) != 'dir':
                    os.remove(lock)
                elif held:
                    os.rmdir(lock)
                state.pop(lock, None)
                continue
            if op == 'dir':
                if not held:
                    os.mkdir(lock)
                    state[lock] = 'dir'
                continue
            if op == 'dangling':
                if not held:
                    os.symlink('nowhere', lock)
                    state[lock] = 'link'
                continue
            if op == 'nodir':
                try:
                    r = U.make_lockfile('missing/x.lock', block=bool(tries % 2), maxtry=2, waittime=0)
                except Exception:
                    r = False
                require(not r and not os.path.exists('missing/x.lock'), 'lock in a missing directory granted')
                continue
            if op == 'kill':
                # a process dies at some line of the request
                pid = os.fork()
                if pid == 0:
                    cnt = [0]

                    def tr(frame, event, arg):
                        if os.path.abspath(frame.f_code.co_filename) != FILE:
                            return None
                        if event == 'line':
                            cnt[0] += 1
                            if cnt[0] > tries:
                                os._exit(1)
                        return tr
                    sys.settrace(tr)
                    U.make_lockfile(lock)
                    os._exit(0)
                os.waitpid(pid, 0)
                if held:
                    require(os.lstat(lock).st_ino == before[lock], 'a killed request altered an existing lock')
                elif os.path.lexists(lock):
                    state[lock] = 'dead'
                # temporary files of a killed process are its own business
                for d in ('.', 'd'):
                    for f in os.listdir(d):
                        p = os.path.normpath(os.path.join(d, f))
                        if p not in NAMES and p != 'd':
                            os.remove(p)
                continue
            r = U.make_lockfile(lock) if op == 'try' else U.make_lockfile(lock, block=True, maxtry=tries, waittime=0.5)
            require(bool(r) == (not held), '%s lock was %s', 'taken' if held else 'free', 'granted' if r else 'refused')
            require(os.path.lexists(lock), 'no lock file after a request')
            if held:
                require(os.lstat(lock).st_ino == before[lock], 'a refused request altered the lock')
            else:
                require(os.path.isfile(lock), 'lock is not a file')
                state[lock] = 'mine'
            for f, i in before.items():
                require(os.path.lexists(f) and os.lstat(f).st_ino == i, 'lock %s changed by a request for %s', f, lock)
            extra = [os.path.normpath(os.path.join(d, f)) for d in ('.', 'd') for f in os.listdir(d)]
            extra = [f for f in extra if f not in NAMES and f != 'd']
            require(not extra, 'stray files after a request: %s', extra)
    finally:
        time.sleep = real
    return 'killed' if any(o[0] == 'kill' for o in case['ops']) else 'plain'


HIST = st.fixed_dictionaries({'ops': st.lists(st.tuples(st.sampled_from(['try', 'try', 'try', 'block', 'release', 'release', 'kill', 'dir', 'dangling', 'nodir']), st.integers(0, 3), st.integers(1, 14)), min_size=1, max_size=20)})


# ---------------------------------------------------------------- racing processes
def t_race(case):
    os.makedirs('d', exist_ok=True)
    lock = NAMES[case['name']]
    ctx = multiprocessing.get_context('fork')
    n, rounds = case['n'], case['rounds']
    barrier = ctx.Barrier(n)
    open('count', 'w').write('0')
    ps = []

    def child(k):
        rs = random.Random(case['seed'] + k)
        real = time.sleep
        time.sleep = lambda s: real(rs.uniform(0, 0.002))
        ok = 1
        try:
            wins = []
            for r in range(rounds):
                barrier.wait(60)
                real(rs.uniform(0, 0.0005))
                wins.append(int(bool(U.make_lockfile('d/round-%d' % r))))
            for r in range(rounds):
                got = U.make_lockfile(lock, block=True, maxtry=100000, waittime=0.1)
                if not got:
                    raise RuntimeError('never granted')
                v = int(open('count').read())
                real(rs.uniform(0, 0.0005))
                open('count.tmp', 'w').write('%d' % (v + 1))
                os.rename('count.tmp', 'count')
                os.remove(lock)
            open('wins-%d' % k, 'w').write(' '.join('%d' % w for w in wins))
            ok = 0
        except BaseException:
            open('err-%d' % k, 'w').write(traceback.format_exc())
            barrier.abort()
        finally:
            os._exit(ok)
    for k in range(n):
        p = ctx.Process(target=child, args=(k,))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()
    errs = [open(f).read() for f in os.listdir('.') if f.startswith('err-')]
    require(not errs, 'racing processes failed: %s', errs[:1])
    wins = np.array([[int(x) for x in open('wins-%d' % k).read().split()] for k in range(n)])
    require(np.all(wins.sum(axis=0) == 1), 'locks granted to %s processes', wins.sum(axis=0).tolist())
    require(int(open('count').read()) == n*rounds, 'updates under the lock were lost: %s of %d', open('count').read(), n*rounds)
    left = sorted(f for f in os.listdir('d') if not f.startswith('round-'))
    require(not left and len(os.listdir('d')) == rounds, 'stray files: %s', left[:5])
    return 'race'


RACE = st.fixed_dictionaries({'seed': st.integers(0, 2**31), 'name': st.integers(0, 3), 'n': st.integers(2, 6), 'rounds': st.integers(3, 20)})


# ---------------------------------------------------------------- pixel tasks
def t_tasks(case):
    p, fn = c05.model(dict(case, ncol=2))
    m = RedSequenceColorPar(fn)
    g, z, kind = c05.galaxies(case, m, p['ref_ind'])
    g['ra'], g['dec'] = np.where(np.arange(g.size) % 3, g['ra'], g['ra'] + 35), g['dec']
    bands = list('griz'[:m.nmag])
    gt, _, order = W.write_galtable('tab', 'gal', g, 8, m.nmag, bands, bands[p['ref_ind']], area=50.)
    t = fitsio.read(gt, ext=1, lower=True)
    if np.size(t['hpix']) < 2:
        return False
    ra, dec = hpg.pixel_to_angle(8, t['hpix'][0], nest=False)
    coarse = hpg.angle_to_pixel(case['nside'], ra, dec, nest=False)
    todo = [int(c) for c in np.unique(coarse)]
    if case['dup']:
        todo.append(todo[0])
    ztab = os.path.abspath('zr/gal_zreds_master_table.fit')
    W.write_config('c.yaml', W.min_config(m.nmag, galfile=os.path.abspath(gt), refmag=bands[p['ref_ind']], outbase='t', zrange=[0.1, 0.4], parfile=fn, calib_nproc=1,
                                          zred_nsamp=3, zredfile=ztab, printlogging=True))
    crash = case['crash'] % len(todo) if case['crash'] is not None else None

    def child(k, pix, crash_at):
        rs = random.Random(case['seed'] + k)
        real = time.sleep
        time.sleep = lambda s: real(min(s, 0.01))
        rc = 3
        try:
            real(rs.uniform(0, case['spread']))
            if crash_at:
                unlink, remove = os.unlink, os.remove

                def dying(path, *a, **kw):
                    if str(path).endswith('.lock') and (crash_at == 'first') == ('%07d' % pix in os.path.basename(str(path))):
                        os._exit(9)
                    return unlink(path, *a, **kw)
                os.unlink = os.remove = dying
            try:
                RunZredPixelTask('c.yaml', pix, case['nside'], path='.').run()
                rc = 0
            except IOError as e:
                rc = 4 if 'lock' in str(e) else 3
                if rc == 3:
                    open('err-%d' % k, 'w').write(traceback.format_exc())
        except BaseException:
            open('err-%d' % k, 'w').write(traceback.format_exc())
        finally:
            os._exit(rc)

    def launch(jobs):
        pids = []
        for k, pix, cr in jobs:
            pid = os.fork()
            if pid == 0:
                child(k, pix, cr)
            pids.append(pid)
        return [os.waitstatus_to_exitcode(os.waitpid(q, 0)[1]) for q in pids]

    def complete():
        return all(os.path.exists('zr/gal_zreds_%07d.fit' % h) for h in t['hpix'][0])
    jobs = [(k, pix, case['where'] if k == crash else None) for k, pix in enumerate(todo)]
    rcs = []
    if case['parallel']:
        rcs = launch(jobs)
    else:
        for j in jobs:
            rcs += launch([j])
            require(not os.path.exists(ztab) or complete(), 'redshift table written before all pixels are done')
    errs = [open(f).read() for f in os.listdir('.') if f.startswith('err-')]
    require(not errs, 'pixel task failed: %s', errs[:1])
    crashed = crash is not None and rcs[crash] == 9
    if crashed:
        pix = todo[crash]
        if case['where'] == 'first':
            lk = 'zr/gal_zreds_%07d.lock' % pix
            require(os.path.exists(lk), 'lock of a killed task vanished')
            twin = todo.count(pix) > 1   # another task on the same pixel may have completed the set earlier
            require(twin or not os.path.exists(ztab), 'redshift table written although a task died before finishing')
            rc = launch([(90, pix, None)])
            require(rc == [4], 'second task on a locked pixel ended with %s', rc)
            os.remove(lk)
        else:
            lk = ztab + '.lock'
            if os.path.exists(lk):
                os.remove(lk)
        rc = launch([(91, pix, None)])
        require(rc == [0], 'task could not be repeated after a crash: %s', rc)
        for k, c in enumerate(rcs):
            if c == 4 and todo[k] not in [todo[j] for j in range(len(todo)) if rcs[j] == 0] + [pix]:
                require(launch([(92, todo[k], None)]) == [0], 'task could not be repeated')
    else:
        ok = {pix for pix, c in zip(todo, rcs) if c == 0}
        require(ok == set(todo) and all(c in (0, 4) for c in rcs), 'tasks ended with %s', rcs)
        require(case['dup'] or 4 not in rcs, 'a task on its own pixel was refused the lock')
    require(os.path.exists(ztab) and complete(), 'all pixel tasks are done but there is no redshift table')
    require(not [f for f in os.listdir('zr') if f.endswith('.lock')], 'locks left behind: %s', os.listdir('zr'))
    strays = [f for f in os.listdir('zr') if not f.startswith('gal_zreds_')]
    require(crashed or not strays, 'stray files %s', strays)
    zt = fitsio.read(ztab, ext=1, lower=True)
    require(np.array_equal(zt['hpix'], t['hpix']) and np.array_equal(zt['ngals'], t['ngals']), 'redshift table pixels or counts')
    v = c05.values(c05.run(m, g))
    off = 0
    for i in range(t['hpix'].shape[1]):
        idx = order[off:off + t['ngals'][0, i]]
        off += idx.size
        f = zt['filenames'][0, i]
        f = (f.decode() if isinstance(f, bytes) else f).strip()
        require(f == 'gal_zreds_%07d.fit' % t['hpix'][0, i], 'redshift table points pixel %d to %s', t['hpix'][0, i], f)
        o = fitsio.read(os.path.join('zr', f), ext=1, lower=True)
        require(o.size == idx.size, 'redshift file length')
        c05.same({k: o[k].astype('f8') for k in W.ZRED_NAMES}, v, np.arange(idx.size), idx, what='pixel task')
    return ('crashed-' + case['where'] if crashed else 'done') + ('-dup' if case['dup'] else '')


TASKS = st.fixed_dictionaries({'seed': st.integers(0, 2**31 - 200), 'pseed': st.integers(0, 3), 'corr': st.sampled_from([0.0, 0.02]), 'off': st.just(0.3), 'zbin': st.just(0.01), 'n': st.integers(3, 14),
                               'nside': st.sampled_from([2, 4, 8]), 'dup': st.booleans(), 'parallel': st.booleans(), 'spread': st.sampled_from([0.0, 0.02]), 'crash': st.one_of(st.none(), st.integers(0, 10)),
                               'where': st.sampled_from(['first', 'second'])})

TESTS = ([T('schedules-%d' % i, SCHED, t_schedule, 400, 6000, 'requests interleaved line by line; label: whether requests met') for i in range(3)] +
         [T('histories', HIST, t_history, 500, 6000, 'requests, releases, killed requests and odd surroundings'),
          T('races', RACE, t_race, 40, 400, 'processes racing for one lock and updating a file under it')] +
         [T('tasks-%d' % i, TASKS, t_tasks, 25, 250, 'pixel tasks running together; label: crash point') for i in range(3)])
