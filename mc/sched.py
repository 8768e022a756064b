"""Controlled scheduler for real threads running the real code.

Threads run one at a time.  Control changes hands only at scheduling points:
before every opcode that can touch shared state in a frame of ``node`` or of a
harness body (see VISIBLE) or, if asked for, before every line of them, and at every lock operation.  ``explore``
enumerates, depth first, every schedule with at most ``bound`` preemptions.
"""
import _thread
import dis
import os
import sys
import threading
import time

_allocate = _thread.allocate_lock
_RealRLock = threading.RLock
_RealLock = threading.Lock

VISIBLE_NAMES = (
    'LOAD_ATTR', 'STORE_ATTR', 'DELETE_ATTR', 'LOAD_GLOBAL', 'STORE_GLOBAL',
    'DELETE_GLOBAL', 'BINARY_SUBSCR', 'STORE_SUBSCR', 'DELETE_SUBSCR',
    'BINARY_SLICE', 'STORE_SLICE', 'CALL', 'CALL_FUNCTION_EX', 'CALL_KW',
    'CONTAINS_OP', 'FOR_ITER', 'GET_ITER', 'LOAD_DEREF', 'STORE_DEREF',
    'BEFORE_WITH', 'BINARY_OP', 'COMPARE_OP', 'SEND', 'YIELD_VALUE',
    'LIST_EXTEND', 'SET_UPDATE', 'DICT_UPDATE', 'UNPACK_SEQUENCE',
    'LOAD_SUPER_ATTR', 'LOAD_NAME', 'STORE_NAME', 'IMPORT_NAME', 'IMPORT_FROM',
)


class Abort(BaseException):
    """Unwinds controlled threads of an aborted execution."""


_current = {}      # thread ident -> Controlled


class Controlled(object):

    def __init__(self, sched, index):
        self.sched = sched
        self.index = index
        self.gate = _allocate()
        self.gate.acquire()
        self.blocked_on = None
        self.timed = False
        self.timed_out = False
        self.done = False
        self.result = None


def me():
    return _current.get(_thread.get_ident())


def pause():
    """A scheduling point in harness code, also in coarse explorations."""
    t = me()
    if t is not None:
        t.sched.point(t, 'pause')


class SchedRLock(object):
    reentrant = True

    def __init__(self):
        self._real = _RealRLock() if self.reentrant else _allocate()
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        if t is None:
            return self._real.acquire(blocking, timeout)
        s = t.sched
        if s.aborting:
            raise Abort()
        s.point(t, 'acquire')
        while True:
            if self.owner is None or (self.reentrant and self.owner is t):
                self.owner = t
                self.count += 1
                return True
            if not blocking:
                return False
            t.blocked_on = self
            t.timed = timeout is not None and timeout >= 0
            t.timed_out = False
            s.point(t, 'blocked')
            if t.timed_out:
                return False

    __enter__ = acquire

    def release(self):
        t = me()
        if t is None:
            return self._real.release()
        s = t.sched
        if s.aborting:
            return
        if self.owner is None or (self.reentrant and self.owner is not t):
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s.wake(self)
        s.point(t, 'release')

    def __exit__(self, t, v, tb):
        self.release()

    def locked(self):
        t = me()
        if t is None:
            if self.reentrant:
                return 'unlocked' not in repr(self._real)
            return self._real.locked()
        return self.owner is not None

    def _is_owned(self):
        t = me()
        if t is None:
            return self._real._is_owned()
        return self.owner is t

    def _release_save(self):
        t = me()
        if t is None:
            return self._real._release_save()
        saved = self.count
        self.count = 1
        self.release()
        return saved

    def _acquire_restore(self, saved):
        t = me()
        if t is None:
            return self._real._acquire_restore(saved)
        self.acquire()
        self.count = saved

    def _at_fork_reinit(self):
        self._real._at_fork_reinit()

    def __repr__(self):
        return '<%s owner=%s count=%s real=%s>' % (
            type(self).__name__,
            getattr(self.owner, 'index', self.owner), self.count,
            repr(self._real).split(' at ')[0])

    # a real lock refuses copying and pickling as well
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


class SchedLock(SchedRLock):
    reentrant = False


def held():
    """A lock which is held by nobody in particular: a signal to wait for."""
    lock = SchedLock()
    lock.owner = 'signal'
    lock.count = 1
    return lock


def install():
    # Python 3.12: opcode events are delivered only to trace functions set
    # after some frame has asked for them
    sys._getframe().f_trace_opcodes = True
    threading.RLock = SchedRLock
    threading.Lock = SchedLock


_visible = {}
VIS = frozenset(VISIBLE_NAMES)


def _offsets(code):
    offs = _visible.get(code)
    if offs is None:
        offs = frozenset(i.offset for i in dis.get_instructions(code)
                         if i.opname in VIS)
        _visible[code] = offs
    return offs


_scope = {}


def in_scope(code):
    r = _scope.get(code)
    if r is None:
        fn = code.co_filename
        r = _scope[code] = (
            (os.sep + 'src' + os.sep + 'node' + os.sep in fn
             and os.sep + 'tests' + os.sep not in fn)
            or code.co_name.startswith('body_'))
    return r


class Scheduler(object):
    horizon = 20000

    def __init__(self, bodies, prefix=(), fine=True):
        self.bodies = bodies
        self.prefix = prefix
        self.fine = fine
        self.points = []     # (n_enabled, running_enabled, chosen)
        self.threads = []
        self.aborting = False
        self.deadlock = None
        self.error = None
        self.finished = _allocate()
        self.finished.acquire()
        self.remaining = len(bodies)
        self.divergence = False

    # ------------------------------------------------------------ choosing
    def choose(self, t):
        """Pick the thread to run next; t is the running one (or None)."""
        enabled = [x for x in self.threads
                   if not x.done and x.blocked_on is None]
        if not enabled:
            # nobody can go on: waiting with a timeout ends
            enabled = [x for x in self.threads if not x.done and x.timed]
            for x in enabled:
                x.blocked_on = None
                x.timed = False
                x.timed_out = True
        if not enabled:
            return None
        running = t is not None and not t.done and t.blocked_on is None
        if running:
            enabled.remove(t)
            enabled.insert(0, t)
        if len(enabled) == 1:
            return enabled[0]
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(enabled):
                self.divergence = True
                c = 0
        else:
            c = 0
        self.points.append((len(enabled), running, c))
        if i > self.horizon:
            self.error = 'horizon of %d scheduling points exceeded' % i
            self.abort()
            raise Abort()
        return enabled[c]

    def point(self, t, why=''):
        if self.aborting:
            raise Abort()
        nxt = self.choose(t)
        if nxt is None:
            self.deadlock = [
                'thread %d blocked' % x.index
                for x in self.threads if not x.done]
            self.abort()
            raise Abort()
        if nxt is t:
            return
        nxt.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise Abort()

    def wake(self, lock):
        for x in self.threads:
            if x.blocked_on is lock:
                x.blocked_on = None
                x.timed = False

    def abort(self):
        self.aborting = True
        for x in self.threads:
            if not x.done:
                try:
                    x.gate.release()
                except RuntimeError:
                    pass

    # ------------------------------------------------------------- threads
    def _trace(self, t):
        def local(frame, event, arg):
            if event == 'opcode':
                if frame.f_lasti in _offsets(frame.f_code):
                    self.point(t)
            return local

        def local_line(frame, event, arg):
            if event == 'line':
                self.point(t)
            return local_line

        def glob(frame, event, arg):
            if event == 'call' and in_scope(frame.f_code):
                if self.fine == 'line':
                    return local_line
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None
        return glob

    def _main(self, t, body):
        _current[_thread.get_ident()] = t
        try:
            t.gate.acquire()
            if not self.aborting:
                tr = self._trace(t)
                if self.fine:
                    sys.settrace(tr)
                try:
                    t.result = ('ok', body())
                except Abort:
                    t.result = ('aborted', None)
                except BaseException as e:
                    t.result = ('raise', type(e).__name__, str(e)[:200])
                finally:
                    sys.settrace(None)
            else:
                t.result = ('aborted', None)
        finally:
            t.done = True
            del _current[_thread.get_ident()]
            self.remaining -= 1
            if self.remaining == 0:
                self.finished.release()
            elif not self.aborting:
                try:
                    nxt = self.choose(None)
                except Abort:
                    nxt = None
                if nxt is None:
                    if not self.aborting:
                        self.deadlock = [
                            'thread %d blocked' % x.index
                            for x in self.threads if not x.done]
                        self.abort()
                else:
                    nxt.gate.release()

    def run(self):
        self.threads = [Controlled(self, i) for i in range(len(self.bodies))]
        for t, body in zip(self.threads, self.bodies):
            _thread.start_new_thread(self._main, (t, body))
        first = self.choose(None)
        first.gate.release()
        if not self.finished.acquire(True, 30):
            self.error = 'execution blocked outside of controlled locks'
            self.abort()
            self.finished.acquire(True, 5)
        return self

    @property
    def choices(self):
        return [p[2] for p in self.points]


def explore(make, check, bound, prefix=(), max_runs=None, stats=None,
            fine=True, deadline=None):
    """Depth first exploration of all schedules extending ``prefix`` (and
    deviating only behind it) with at most ``bound`` preemptions.

    make() -> (bodies, state); check(state, scheduler) raises on violation.
    Yields nothing; returns the number of executed schedules.
    """
    stack = [tuple(prefix)]
    runs = 0
    while stack:
        pre = stack.pop()
        bodies, state = make()
        s = Scheduler(bodies, pre, fine=fine).run()
        runs += 1
        if stats is not None:
            stats(state, s)
        check(state, s)
        if max_runs is not None and runs >= max_runs:
            return runs, not stack
        if deadline is not None and time.time() > deadline:
            return runs, not stack
        cost = 0
        choices = s.choices
        for i, (n, running, c) in enumerate(s.points):
            if i >= len(pre):
                extra = cost + (1 if running else 0)
                if extra <= bound:
                    for alt in range(1, n):
                        stack.append(tuple(choices[:i]) + (alt,))
            if running and c != 0:
                cost += 1
    return runs, True


def first_level(make, check, bound, stats=None, fine=True):
    """Run the default schedule; return the prefixes of all first deviations."""
    bodies, state = make()
    s = Scheduler(bodies, (), fine=fine).run()
    if stats is not None:
        stats(state, s)
    check(state, s)
    out = []
    choices = s.choices
    for i, (n, running, c) in enumerate(s.points):
        if (1 if running else 0) <= bound:
            for alt in range(1, n):
                out.append(tuple(choices[:i]) + (alt,))
    return out
