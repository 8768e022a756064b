"""Bounded exhaustive exploration of the real code against reference models.

Three kinds of tasks:

- ``Machine``: breadth first search over operation histories.  Every
  transition replays the whole history on fresh real objects and applies one
  more operation to real objects and reference model, comparing results and the
  complete observable state.  States are merged by canonical heap form.
- ``Cases``: complete enumeration of a finite input/configuration space.
- ``Schedules``: complete enumeration of thread interleavings up to a
  preemption bound (see sched.py).

Tasks are distributed over a pool of forked worker processes.
"""
import collections
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

from mc import env
from mc import canon
from mc import sched

WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(
    8, os.cpu_count() or 1)
OP_TIMEOUT = 20.0


class Violation(Exception):
    """The property is broken on the real code."""


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


def arm(seconds=OP_TIMEOUT):
    signal.setitimer(signal.ITIMER_REAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def outcome(fn, *args, **kw):
    """('ok', value) or ('raise', exception)."""
    try:
        return ('ok', fn(*args, **kw))
    except (Violation, MemoryError):
        raise
    except Exception as e:
        return ('raise', e)


def expect(what, out, want):
    """Compare an outcome with the expected one.

    want: ('ok', value) compared by ==, ('is', obj) by identity, ('any',) any
    return value, ('raise', exception class or tuple).
    """
    kind = want[0]
    if kind == 'raise':
        if out[0] != 'raise':
            fail('%s: expected %s, got result %r', what, _exc(want[1]), out[1])
        if not isinstance(out[1], want[1]):
            fail('%s: expected %s, got %s', what, _exc(want[1]),
                 describe_exc(out[1]))
        return
    if out[0] == 'raise':
        fail('%s: raised %s, expected a result', what, describe_exc(out[1]))
    if kind == 'is' and out[1] is not want[1]:
        fail('%s: returned %r, expected the very object %r', what, out[1],
             want[1])
    if kind == 'ok' and not (out[1] == want[1]):
        fail('%s: returned %r, expected %r', what, out[1], want[1])


def _exc(e):
    if isinstance(e, tuple):
        return ' or '.join(x.__name__ for x in e)
    return e.__name__


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    at = ' at %s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno) \
        if tb else ''
    return '%s(%s)%s' % (type(e).__name__, str(e)[:160], at)


# pseudo operation of histories: compare the complete observable state
LOOK = '__look__'


class Task(object):
    """Common interface."""
    name = 'task'


class Machine(Task):
    """Override fresh, ops, apply, check."""
    name = 'machine'
    depth = 4
    max_states = 2000000
    # histories up to this length are never merged
    no_merge = 1
    # explore each transition again with everything observed after each step
    # of its history, not only at the end
    observed = True

    def fresh(self):
        """Return a new state object (attribute namespace)."""
        raise NotImplementedError

    def ops(self, s):
        """Operations enabled in s: JSON-able tuples, decided by the model."""
        raise NotImplementedError

    def apply(self, s, op):
        """Apply op to real objects and model; compare; return a label."""
        raise NotImplementedError

    def check(self, s):
        """Compare complete observable state with the model."""

    def look(self, s):
        """Observe the state in the middle of a history."""
        self.check(s)

    def roots(self, s):
        return [s]

    # -------------------------------------------------------------- running
    def start(self):
        env.reset_uuids()
        canon.globals_().restore()
        return self.fresh()

    def replay(self, history):
        s = self.start()
        for op in history:
            self.step(s, op)
        return s

    def step(self, s, op):
        if op[0] == LOOK:
            self.look(s)
            return
        return self.apply(s, op)

    def looking(self, history):
        """History with observations in between."""
        out = []
        for op in history:
            out += [(LOOK,), op]
        return tuple(out)

    def digest(self, s):
        return canon.digest(*self.roots(s))


class State(object):
    """Plain namespace for machine states."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Cases(Task):
    """Override cases (deterministic generator) and run."""
    name = 'cases'
    chunk = 200

    def cases(self):
        raise NotImplementedError

    def run(self, case):
        """Run one case, raise Violation; return a label or None."""
        raise NotImplementedError

    def prepare(self):
        env.reset_uuids()
        canon.globals_().restore()


class Schedules(Task):
    """Override make and check."""
    name = 'schedules'
    bound = 2
    fine = True
    max_runs = None

    def make(self):
        """Return (list of thread bodies named body_*, state)."""
        raise NotImplementedError

    def check(self, state, s):
        raise NotImplementedError

    def outcome(self, state, s):
        return repr([t.result for t in s.threads])[:200]

    def _make(self):
        env.reset_uuids()
        canon.globals_().restore()
        return self.make()

    def _check(self, state, s):
        if s.error:
            raise SchedViolation(s.error, s.choices)
        if s.divergence:
            raise SchedViolation('schedule prefix could not be replayed '
                                 '(uncontrolled nondeterminism)', s.choices)
        try:
            self.check(state, s)
        except Violation as e:
            raise SchedViolation(str(e), s.choices)


class SchedViolation(Violation):

    def __init__(self, msg, choices):
        super(SchedViolation, self).__init__(msg)
        self.choices = list(choices)


# ---------------------------------------------------------------------------
# worker side
# ---------------------------------------------------------------------------

def _guard(fn):
    """Run fn; return None or a (message) for a violation."""
    arm()
    try:
        fn()
        disarm()
        return None
    except Hang:
        return 'did not terminate within %ss' % OP_TIMEOUT
    except Violation as e:
        disarm()
        return str(e)
    except MemoryError:
        disarm()
        return 'memory exhausted'
    except Exception as e:
        disarm()
        return 'unexpected exception: %s\n%s' % (
            describe_exc(e), traceback.format_exc()[-2500:])
    finally:
        disarm()


def _expand(machine, histories, leaf, findings):
    """Expand histories by one operation each."""
    new = []
    local = set()
    labels = collections.Counter()
    ntrans = 0
    known = collections.Counter()
    for hist in histories:
        box = {}

        def prep():
            s = machine.replay(hist)
            box['ops'] = list(machine.ops(s))
            box['s'] = s
        msg = _guard(prep)
        if msg is not None:
            return {'violation': (hist, msg)}
        for n, op in enumerate(box['ops']):
            def step():
                s = box.pop('s') if n == 0 else machine.replay(hist)
                label = machine.apply(s, op)
                machine.check(s)
                box['label'] = label
                box['digest'] = None if leaf else machine.digest(s)
            ntrans += 1
            msg = _guard(step)
            if msg is not None:
                key = findings(machine, hist + (op,), msg)
                if key is not None:
                    known[key] += 1
                    continue
                return {'violation': (hist + (op,), msg)}
            if machine.observed:
                seen = machine.looking(hist + (op,))

                def again():
                    machine.check(machine.replay(seen))
                msg = _guard(again)
                if msg is not None:
                    key = findings(machine, hist + (op,), msg)
                    if key is None:
                        return {'violation': (seen, msg)}
            label = box.pop('label')
            labels['%s:%s' % (op[0], label if label is not None else 'ok')] += 1
            dig = box.pop('digest')
            if leaf:
                continue
            if dig in local and len(hist) >= machine.no_merge:
                continue
            local.add(dig)
            new.append((hist + (op,), dig))
    return {'new': new, 'transitions': ntrans, 'labels': labels,
            'known': known}


def _run_cases(task, index, step, findings):
    labels = collections.Counter()
    known = collections.Counter()
    n = 0
    samples = []
    for i, case in enumerate(task.cases()):
        if i % step != index:
            continue
        n += 1
        box = {}

        def one():
            task.prepare()
            box['label'] = task.run(case)
        msg = _guard(one)
        if msg is not None:
            key = findings(task, case, msg)
            if key is not None:
                known[key] += 1
                continue
            return {'violation': (case, msg)}
        labels[str(box['label']) if box['label'] is not None else 'ok'] += 1
        if len(samples) < 2:
            samples.append(case)
    return {'cases': n, 'labels': labels, 'samples': samples, 'known': known}


def _run_schedules(task, prefixes, deadline):
    labels = collections.Counter()
    points = [0]

    def stats(state, s):
        labels[task.outcome(state, s)] += 1
        points[0] += len(s.points)
    runs = 0
    complete = True
    for pre in prefixes:
        if time.time() > deadline:
            complete = False
            break
        try:
            n, done = sched.explore(
                task._make, task._check, task.bound, prefix=pre, stats=stats,
                fine=task.fine, max_runs=task.max_runs, deadline=deadline)
        except SchedViolation as e:
            return {'violation': ({'schedule': e.choices}, str(e))}
        except Exception as e:
            return {'violation': (
                {'schedule': list(pre)}, 'unexpected exception: %s\n%s' % (
                    describe_exc(e), traceback.format_exc()[-2500:]))}
        runs += n
        complete = complete and done
    return {'runs': runs, 'points': points[0], 'labels': labels,
            'complete': complete}


def _worker(conn, tasks, findings):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(1500)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        kind, idx, payload = job
        task = tasks[idx]
        try:
            if kind == 'expand':
                out = _expand(task, payload[0], payload[1], findings)
            elif kind == 'cases':
                out = _run_cases(task, payload[0], payload[1], findings)
            elif kind == 'first':
                try:
                    labels = collections.Counter()
                    pre = sched.first_level(
                        task._make, task._check, task.bound, fine=task.fine,
                        stats=lambda st, s: labels.update(
                            [task.outcome(st, s)]))
                    out = {'prefixes': pre, 'labels': labels}
                except SchedViolation as e:
                    out = {'violation': ({'schedule': e.choices}, str(e))}
            else:
                out = _run_schedules(task, payload[0], payload[1])
        except BaseException as e:
            out = {'violation': (None, 'harness failure: %s\n%s' % (
                describe_exc(e), traceback.format_exc()[-2500:]))}
        conn.send((kind, idx, out))


# ---------------------------------------------------------------------------
# master side
# ---------------------------------------------------------------------------

class Pool(object):

    def __init__(self, tasks, findings):
        ctx = multiprocessing.get_context('fork')
        signal.signal(signal.SIGALRM, _on_alarm)
        self.workers = []
        for _ in range(WORKERS):
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, tasks, findings),
                            daemon=True)
            p.start()
            b.close()
            self.workers.append([p, a, None, 0])
        self.queue = collections.deque()

    def submit(self, job, front=False):
        (self.queue.appendleft if front else self.queue.append)(job)
        self._feed()

    def _feed(self):
        for w in self.workers:
            if not self.queue:
                return
            if w[2] is None:
                job = self.queue.popleft()
                w[2] = job
                w[3] = time.time()
                w[1].send(job)

    def busy(self):
        return self.queue or any(w[2] is not None for w in self.workers)

    def wait(self, timeout):
        conns = [w[1] for w in self.workers if w[2] is not None]
        ready = multiprocessing.connection.wait(conns, timeout)
        out = []
        for w in self.workers:
            if w[1] in ready:
                job = w[2]
                try:
                    out.append(w[1].recv())
                except (EOFError, OSError):
                    w[2] = None
                    out.append((job[0], job[1], {'violation': (
                        None, 'worker process died while exploring %s' %
                        (str(job)[:400],))}))
                    continue
                w[2] = None
        self._feed()
        return out

    def stop(self):
        for w in self.workers:
            try:
                w[0].kill()
            except Exception:
                pass
        for w in self.workers:
            w[0].join(2)


class Runner(object):

    def __init__(self, prop, tier, tasks, deadline_s, findings):
        self.prop = prop
        self.tier = tier
        self.tasks = tasks
        self.deadline = time.time() + deadline_s
        self.findings = findings
        self.stats = []
        self.violations = []
        self.labels = collections.Counter()
        self.known = collections.Counter()

    def run(self):
        tasks = self.tasks
        n = len(tasks)
        names = [t.name for t in tasks]
        assert len(set(names)) == n, 'duplicate task names'
        st = self.stats = [dict(task=t.name) for t in tasks]
        canon.globals_()
        pool = Pool(tasks, self.findings)
        self.ctl = ctl = [None] * n
        try:
            for i, t in enumerate(tasks):
                if isinstance(t, Machine):
                    st[i].update(kind='bfs', states=1, transitions=0,
                                 depth_completed=0, bound=t.depth,
                                 fixpoint=False, capped=False, samples=[])
                    root = []

                    def first():
                        s = t.start()
                        t.check(s)
                        root.append(t.digest(s))
                    msg = _guard(first)
                    if msg is not None:
                        self._violation(i, (), msg)
                        return
                    ctl[i] = {'seen': set(root), 'level': 0,
                              'pending': 0, 'next': []}
                    self._launch(pool, i, [()])
                elif isinstance(t, Cases):
                    st[i].update(kind='enumeration', cases=0, capped=False,
                                 samples=[])
                    k = getattr(t, 'parts', WORKERS)
                    ctl[i] = {'pending': k}
                    for j in range(k):
                        pool.submit(('cases', i, (j, k)))
                else:
                    st[i].update(kind='schedules', schedules=0, points=0,
                                 preemption_bound=t.bound, capped=False)
                    ctl[i] = {'pending': 1}
                    pool.submit(('first', i, None))
            while pool.busy():
                left = self.deadline + 60 - time.time()
                got = pool.wait(max(1.0, left))
                if not got and time.time() > self.deadline + 60:
                    stuck = [w[2] for w in pool.workers if w[2] is not None]
                    idx = stuck[0][1]
                    self._violation(idx, None, 'exploration did not '
                                    'terminate: stuck in %s' %
                                    (str(stuck[0])[:300],))
                    return
                for kind, idx, out in got:
                    if 'violation' in out:
                        self._violation(idx, *out['violation'])
                        return
                    self.labels.update(
                        {'%s' % k: v for k, v in out['labels'].items()})
                    self.known.update(out.get('known') or {})
                    self._absorb(pool, kind, idx, out)
        except Violation as e:
            self._violation(0, None, str(e))
        finally:
            pool.stop()

    def _violation(self, idx, case, msg):
        self.violations.append((self.tasks[idx], case, msg))

    def _launch(self, pool, i, frontier):
        c = self.ctl[i]
        size = max(1, min(64, len(frontier) // (WORKERS * 3) + 1))
        c['pending'] = 0
        for k in range(0, len(frontier), size):
            c['pending'] += 1
            chunk = frontier[k:k + size]
            pool.submit(('expand', i, (chunk,
                                       c['level'] + 1 >= self.tasks[i].depth)))

    def _absorb(self, pool, kind, i, out):
        t, c, st = self.tasks[i], self.ctl[i], self.stats[i]
        c['pending'] -= 1
        if kind == 'cases':
            st['cases'] += out['cases']
            if len(st['samples']) < 3:
                st['samples'] += out['samples'][:1]
            return
        if kind == 'first':
            st['schedules'] += 1
            st['first_deviations'] = len(out['prefixes'])
            pre = out['prefixes']
            size = max(1, len(pre) // (WORKERS * 8) + 1)
            # interleave so chunks are of similar weight
            nch = (len(pre) + size - 1) // size
            for k in range(nch):
                c['pending'] += 1
                pool.submit(('sched', i, (pre[k::nch], self.deadline)))
            return
        if kind == 'sched':
            st['schedules'] += out['runs']
            st['points'] += out['points']
            if not out['complete']:
                st['capped'] = True
            return
        # expand
        st['transitions'] += out['transitions']
        c['next'] += out['new']
        if c['pending']:
            return
        # level complete: merge deterministically
        level = c['level'] + 1
        st['depth_completed'] = level
        merged = c['next']
        merged.sort(key=lambda x: repr(x[0]))
        seen = c['seen']
        frontier = []
        for key, dig in merged:
            if dig in seen and level > t.no_merge:
                continue
            if dig not in seen:
                seen.add(dig)
                st['states'] += 1
            frontier.append(key)
        c['next'] = []
        c['level'] = level
        if level >= t.depth:
            return
        if frontier:
            h = frontier[len(frontier) // 2]
            st['samples'] = (st['samples'] + [h])[-2:]
        else:
            st['fixpoint'] = True
            return
        if time.time() > self.deadline or st['states'] > t.max_states:
            st['capped'] = True
            return
        self._launch(pool, i, frontier)
