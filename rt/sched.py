"""Runs code which uses threading.Thread and queue.Queue under a seeded
scheduler: one thread at a time, switching at the queue operations only, so
that a schedule is a function of the seed and a deadlock is recognised exactly
(nothing can run) instead of by a time-out."""
from __future__ import absolute_import, division, print_function
import queue as _queue
import random
import threading as _threading

REAL_THREAD = _threading.Thread
REAL_QUEUE = _queue.Queue
REAL_SEM = _threading.Semaphore


class Deadlock(Exception):
    pass


class _Kill(BaseException):
    pass


class Stuck(Exception):
    """A thread blocked outside of the scheduler: no verdict."""


class Task(object):
    def __init__(self, name):
        self.sem = REAL_SEM(0)
        self.cond = None            # None: runnable
        self.done = False
        self.name = name
        self.kill = False
        self.prio = 0


class Scheduler(object):
    def __init__(self, seed, style):
        self.r = random.Random(seed)
        self.style = style          # 'random', 'prio', 'lazy', 'eager'
        self.main = Task('main')
        self.tasks = [self.main]
        self.current = self.main
        self.deadlock = False
        self.switches = 0
        self.errors = []

    # Called by the thread that holds the baton.
    def switch(self, cond=None):
        me = self.current
        me.cond = cond
        self.switches += 1
        self._pass_on(me)

    def _runnable(self):
        return [t for t in self.tasks
                if not t.done and (t.cond is None or t.cond())]

    def _choose(self, ready):
        if self.style == 'random':
            return self.r.choice(ready)
        if self.style == 'prio':
            if self.r.random() < .08:
                self.r.choice(ready).prio = self.r.random()
            return max(ready, key=lambda t: t.prio)
        if self.style == 'lazy':        # main and latest last
            return ready[-1]
        return ready[0]

    def _pass_on(self, me, leaving=False):
        ready = self._runnable()
        if not ready:
            # Nothing can run.
            self.deadlock = True
            nxt = self.main
        else:
            nxt = self._choose(ready)
        if nxt is me and not leaving:
            me.cond = None
            if self.deadlock and me is self.main:
                raise Deadlock('no thread can proceed')
            return
        self.current = nxt
        nxt.sem.release()
        if not leaving:
            if not me.sem.acquire(timeout=60):
                raise Stuck()
            me.cond = None
            if me.kill:
                raise _Kill()
            if self.deadlock and me is self.main:
                raise Deadlock('no thread can proceed')

    def run_task(self, task, f):
        if not task.sem.acquire(timeout=120):
            return
        if not task.kill:
            task.cond = None
            try:
                f()
            except _Kill:
                task.done = True
                return
            except BaseException as err:
                self.errors.append((task.name, err))
        task.done = True
        if not task.kill:
            self._pass_on(task, leaving=True)

    def drain(self):
        """Run what is left (after the caller has its answer)."""
        for _ in range(200000):
            others = [t for t in self._runnable() if t is not self.main]
            if not others:
                break
            nxt = self._choose(others)
            # Hand over; main is runnable only when asked.
            self.switch(lambda: True)
        left = [t for t in self.tasks if not t.done and t is not self.main]
        for t in left:
            t.kill = True
            t.sem.release()
        return [t.name for t in left]


def run(f, seed, style='random', drain=True):
    """f() under a seeded schedule.

    Returns (result, exception, names of threads that never end)."""
    s = Scheduler(seed, style)

    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(),
                     kwargs=None, daemon=None):
            self._target, self._args = target, args
            self._kwargs = kwargs or {}
            self.name = name or 'thread'
            self.daemon = daemon
            self._task = None

        def setDaemon(self, d):
            self.daemon = d

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def start(self):
            if self._task is not None:
                raise RuntimeError('threads can only be started once')
            t = Task(self.name)
            t.prio = s.r.random()
            self._task = t
            s.tasks.append(t)
            real = REAL_THREAD(target=s.run_task, args=(t, self.run))
            real.daemon = True
            real.start()
            s.switch()

        def join(self, timeout=None):
            t = self._task
            if t is None:
                raise RuntimeError('cannot join thread before it is started')
            if timeout is None:
                s.switch(lambda: t.done)

        def is_alive(self):
            return self._task is not None and not self._task.done

        isAlive = is_alive

    class Queue(object):
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            self.items = []
            self.unfinished = 0

        def _full(self):
            return 0 < self.maxsize <= len(self.items)

        def put(self, item, block=True, timeout=None):
            if not block or timeout is not None:
                s.switch()
                if self._full():
                    raise _queue.Full()
            else:
                s.switch(lambda: not self._full())
            self.items.append(item)
            self.unfinished += 1

        def get(self, block=True, timeout=None):
            if not block or timeout is not None:
                s.switch()
                if not self.items:
                    raise _queue.Empty()
            else:
                s.switch(lambda: bool(self.items))
            return self.items.pop(0)

        def put_nowait(self, item):
            self.put(item, False)

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            if self.unfinished <= 0:
                raise ValueError('task_done() called too many times')
            self.unfinished -= 1

        def join(self):
            s.switch(lambda: self.unfinished == 0)

        def qsize(self):
            return len(self.items)

        def empty(self):
            return not self.items

        def full(self):
            return self._full()

    import biggus._init as bi
    saved = []

    def patch(obj, name, value):
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)
    patch(_threading, 'Thread', Thread)
    patch(_queue, 'Queue', Queue)
    for name, value in list(vars(bi).items()):
        if value is REAL_THREAD:
            patch(bi, name, Thread)
        elif value is REAL_QUEUE:
            patch(bi, name, Queue)
    result = error = None
    try:
        try:
            result = f()
        except Exception as err:
            error = err
        left = []
        if drain and not isinstance(error, (Deadlock, Stuck)):
            try:
                left = s.drain()
            except Stuck as err:
                error = err
        if not drain or isinstance(error, (Deadlock, Stuck)):
            for t in s.tasks:
                if not t.done and t is not s.main:
                    t.kill = True
                    t.sem.release()
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)
    return result, error, left
