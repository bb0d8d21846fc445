"""Several simulated processes at the same time, one thread each.

Only the thread that holds the baton runs.  It is handed on at seam points only, where the plan's
schedule says so, so a plan fixes the interleaving completely.  With the baton go the things a process has
to itself: its imported simim modules, working directory, global random state, answers, faults and pid.
Locks taken with fcntl are real ones on the scratch files; a process that would wait for one is passed over
until it is released.  A process that is killed stops where it is; what its unfinished writes leave is cut
off at that moment, its locks are released, and nothing it would do while unwinding takes effect.
"""
import gc
import os
import random
import sys
import threading
from importlib import _bootstrap

import numpy as np

from . import core


def _ours(name):
    return name == 'simim' or name.startswith('simim.')


class Task:
    def __init__(self, k, fn, faults, answers):
        self.k, self.fn = k, fn
        self.faults = [dict(f) for f in faults]
        self.answers = list(answers)
        self.out = core.Outcome('task %d' % k)
        self.sem = threading.Semaphore(0)
        self.mods, self.locks = {}, {}
        self.cwd = None
        self.np_state = self.py_state = None
        self.done = self.parked = self.waiting = False
        self.held = set()               # file descriptors locked
        self.thread = None
        self.error = None
        self.tb = ''


class Together:
    def __init__(self, w, fns, sched, faults=None, answers=None, first=0):
        self.w = w
        self.tasks = [Task(k, f, (faults or {}).get(k, ()), (answers or {}).get(k, ())) for k, f in enumerate(fns)]
        self.sched = [list(x) for x in sched]
        self.first = first
        self.gap = None
        self.cur = None
        self.main = threading.Semaphore(0)
        self.switches = 0
        self.polls = 0
        self.path = []                  # which process had the baton, in order

    # -- what a process has to itself ------------------------------------------------
    def save(self, t):
        t.mods = {n: m for n, m in sys.modules.items() if _ours(n)}
        for n in t.mods:
            del sys.modules[n]
        t.locks = {n: r for n, r in _bootstrap._module_locks.items() if _ours(n)}
        for n in t.locks:
            del _bootstrap._module_locks[n]
        t.cwd = os.getcwd()
        t.np_state, t.py_state = np.random.get_state(), random.getstate()
        t.answers, t.faults = self.w.answers, self.w._faults

    def load(self, t):
        w = self.w
        sys.modules.update(t.mods)
        _bootstrap._module_locks.update(t.locks)
        if t.cwd and t.cwd != os.getcwd():
            os.chdir(t.cwd)
        if t.np_state is not None:
            np.random.set_state(t.np_state)
            random.setstate(t.py_state)
        w._cur, w.answers, w._faults = t.out, t.answers, t.faults
        self.cur = t
        self.path.append(t.k)

    # -- handing on the baton ------------------------------------------------------------
    def others(self):
        return [t for t in self.tasks if t is not self.cur and not t.done and not t.waiting]

    def give(self, t):
        """From the running thread to task t; returns when the baton is back."""
        me = self.cur
        self.save(me)
        self.load(t)
        self.switches += 1
        self.w.log('switch', t.k)
        t.sem.release()
        me.sem.acquire()

    def next_gap(self):
        self.gap = self.sched[0][0] if self.sched else None

    def turn(self, kind, write):
        """Before each point of the running process."""
        w = self.w
        if w.dead:
            return
        if self.gap is not None and not kind.startswith('h5.') or kind.startswith('h5.open') and self.gap is not None:
            self.gap -= 1
            if self.gap < 0:
                pick = self.sched.pop(0)[1]
                self.next_gap()
                o = self.others()
                if o:
                    self.give(o[pick % len(o)])
        idx = len(self.cur.out.points)
        for f in w._faults:
            if 'after' in f and not f.get('done') and idx >= f['after']:
                if kind.startswith('h5.') and f['kind'] == 'kill' or f['kind'] == 'enospc' and not write:
                    continue
                f['at'] = idx
                break

    def wait(self):
        """The running process cannot go on until another one releases a lock."""
        me = self.cur
        me.waiting = True
        o = self.others()
        if o:
            self.polls = 0
        else:                           # the lock may have gone with the file it was on
            self.polls += 1
            o = [t for t in self.tasks if t is not me and not t.done]
        if not o or self.polls > 50:
            self.w.log('deadlock')
            raise core.SimHang()
        self.give(o[self.polls % len(o)])
        me.waiting = False

    def released(self):
        for t in self.tasks:
            t.waiting = False

    def finish(self):
        """The running process has ended: someone else goes on, or the simulator."""
        me = self.cur
        me.done = True
        self.released()
        o = self.others()
        if o:
            self.save(me)
            self.load(o[0])
            o[0].sem.release()
        else:
            self.main.release()

    def die(self, frac):
        """The running process is killed: it is left where it is."""
        w, me = self.w, self.cur
        for f in [f for f in w._open_files if f._task is me]:
            try:
                f._f.flush()
                size = os.path.getsize(f._path)
                with core._real['open'](f._path, 'r+b') as g:
                    g.truncate(max(min(f._base + int((size - f._base) * frac), size), 0))
            except (OSError, ValueError):
                pass
            w._open_files.remove(f)
        import fcntl
        for fd in list(me.held):
            try:
                core._real['flock'](fd, fcntl.LOCK_UN)
            except OSError:
                pass
        me.held.clear()
        me.parked = True
        me.out.status = 'killed'
        self.finish()
        me.sem.acquire()
        raise core.SimKill()

    # -- running ----------------------------------------------------------------------------
    def body(self, t):
        t.sem.acquire()
        w = self.w
        try:
            with np.errstate(all='ignore'):
                t.out.value = t.fn()
        except core.SimKill:
            t.out.status = 'killed'
        except core.SimHang:
            t.out.status = 'hang'
        except core.HarnessError as e:
            t.error = e
        except BaseException as e:
            t.out.status, t.out.exc = 'exc', e
            t.tb = core._format_tb(e, e.__traceback__)
            e.__traceback__ = e.__context__ = e.__cause__ = None
        if t.parked:
            t.out.value = None
            self.main.release()
            return
        w._h5_writers[:] = [r for r in w._h5_writers if r() is not None]
        self.finish()

    def run(self):
        w = self.w
        seed = w.entropy.getrandbits(30)
        outer = Task(-1, None, (), ())
        outer.out = w._cur
        self.cur = outer
        self.save(outer)
        w.conc = self
        try:
            for t in self.tasks:
                t.cwd = outer.cwd
                t.np_state = np.random.RandomState((seed + t.k) % (2**32)).get_state()
                t.py_state = random.Random(seed + t.k).getstate()
                t.thread = threading.Thread(target=self.body, args=(t,), daemon=True)
                t.thread.start()
            self.next_gap()
            t = self.tasks[self.first % len(self.tasks)]
            self.load(t)
            t.sem.release()
            self.wait_main()
            # the processes that were killed
            for t in self.tasks:
                if t.parked:
                    self.save(self.cur)
                    w.dead = True
                    self.load(t)
                    t.sem.release()
                    self.wait_main()
                    w.dead = False
            for t in self.tasks:
                t.thread.join(60)
                if t.error:
                    raise t.error
        finally:
            w.conc = None
            w.dead = False
            self.save(self.cur)
            self.load(outer)
            if w.writers():
                gc.collect()
        for t in self.tasks:
            if t.tb:
                w.last_tb = t.tb
        return [t.out for t in self.tasks]

    def wait_main(self):
        if not self.main.acquire(timeout=150):
            raise core.HarnessError('the simulated processes do not go on (task %s)' % self.cur.k)


def run(w, fns, sched, faults=None, answers=None, first=0):
    """Outcomes of the tasks fns, run together under the schedule [[points, which other task], ...]."""
    t = Together(w, fns, sched, faults, answers, first)
    out = w.op('together', t.run)
    if not out.ok:
        raise core.HarnessError('running processes together: %s %r\n%s' % (out.brief(), out.exc, getattr(w, 'last_tb', '')))
    return out.value, t
