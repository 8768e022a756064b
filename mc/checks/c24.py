"""C24: tree locks are re-entrant, always released, invisible."""
from mc import sched
from mc.checks.c23 import CLASSES
from mc.checks.c23 import build
from mc.core import Cases
from mc.core import Schedules
from mc.core import State
from mc.core import describe_exc
from mc.core import fail
from mc.core import outcome
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import GetattrChildren
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Reference
from node.locking import TreeLock
from node.locking import locktree
from plumber import plumbing
import contextlib
import copy
import functools
import io
import itertools
import pickle

TECHNIQUE = ('stateless model checking of the real code: every nesting of lock '
             'operations up to a depth with exceptions at every level, under '
             'every interleaving with other threads of the tree; complete '
             'enumeration of calls and copies for transparency')
LEVEL_NOTE = (
    'All balanced acquire/release words over two lock objects up to length 6 '
    '(8), all nestings of three locking styles up to depth 3 with an exception '
    'raised and caught at every pair of levels, nodes becoming part of other '
    'trees in 8 ways while locked; two (four) '
    'preemptions at lock operations, one (two) at opcodes.')
ASSUMPTIONS = ['release is called only by threads holding the lock']


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


NODES = ['root', 'a', 'b', 'c']


def leaving(s, who):
    s.inside.remove(who)


def entering(s, who):
    if s.inside:
        s.overlap.append((who, list(s.inside)))
    s.inside.append(who)


def body_other(s, node, who):
    def body_run():
        with TreeLock(node):
            entering(s, who)
            sched.pause()
            leaving(s, who)
    return body_run


class Locking(Schedules):
    """Common checks."""
    fine = False
    bound = 99

    def check(self, s, sc):
        if sc.deadlock:
            fail('deadlock, the lock was not free or not re-entrant: %s',
                 sc.deadlock)
        for i, t in enumerate(sc.threads):
            if t.result[0] != 'ok':
                fail('thread %s ended with %s', i, t.result)
        if s.overlap:
            fail('thread %s got the lock held by %s', *s.overlap[0])
        if s.wrong:
            fail('%s', s.wrong[0])

    def outcome(self, s, sc):
        return 'fine'


class Words(Locking):
    """A balanced word of acquires and releases against another thread."""

    def __init__(self, words, wait, cls='LOrdered', fine=False, bound=99):
        self.words = words
        self.wait = wait
        self.cls = cls
        self.fine = fine
        self.bound = bound
        self.name = 'word %s%s %s %s' % (
            '|'.join(words), ' waiting' if wait else '', cls,
            'opcodes bound %s' % bound if fine else '')

    def make(self):
        nodes = build(CLASSES[self.cls])
        s = State(inside=[], overlap=[], wrong=[])
        done = sched.held()

        def thread(word, who, on):
            def body_word():
                locks = [TreeLock(nodes[on[0]]), TreeLock(nodes[on[1]])]
                held = 0
                waited = False
                for ch in word:
                    if ch in 'AB':
                        locks['AB'.index(ch)].acquire()
                        held += 1
                        if held == 1:
                            entering(s, who)
                    else:
                        if held == 1:
                            leaving(s, who)
                        locks['ab'.index(ch)].release()
                        held -= 1
                        if self.wait and not held and not waited and not who:
                            # free for others now: let the other one finish
                            done.acquire()
                            waited = True
                    sched.pause()
            return body_word
        bodies = [thread(w, i, [('b', 'root'), ('a', 'c'), ('c', 'b')][i])
                  for i, w in enumerate(self.words)]
        if self.wait:
            second = bodies[1]

            def body_second():
                second()
                done.release()
            bodies[1] = body_second
        return bodies, s


def words(length):
    out = []

    def grow(word, a, b):
        if word and not a and not b:
            out.append(word)
        if len(word) + a + b > length:
            return
        if len(word) + a + b + 2 <= length:
            grow(word + 'A', a + 1, b)
            grow(word + 'B', a, b + 1)
        if a:
            grow(word + 'a', a - 1, b)
        if b:
            grow(word + 'b', a, b - 1)
    grow('', 0, 0)
    # the two lock objects are interchangeable
    return sorted(set(w for w in out if w[0] == 'A'), key=lambda w: (len(w), w))


class Nest(Locking):
    """Nested sections of different styles, an exception passing levels."""

    def __init__(self, styles, raised, caught, exc='Boom', fine=False,
                 bound=2):
        self.styles = styles
        self.raised = raised
        self.caught = caught
        self.exc = exc
        self.fine = fine
        self.bound = bound
        self.name = 'nest %s raise %s catch %s %s%s' % (
            '/'.join(styles), raised, caught, exc,
            ' opcodes bound %s' % bound if fine else '')

    def make(self):
        nodes = build(CLASSES['LNode'])
        s = State(inside=[], overlap=[], wrong=[])
        exc = {'Boom': Boom, 'BaseBoom': BaseBoom, 'KeyError': KeyError,
               'GeneratorExit': GeneratorExit,
               'KeyboardInterrupt': KeyboardInterrupt}[self.exc]('why')
        n = len(self.styles)

        def inner(level):
            # the code running inside of `level` sections
            if level == 1:
                entering(s, 0)
            try:
                if level < n:
                    got = guarded(level)
                    if got != ('value', level):
                        s.wrong.append('level %s returned %r' % (level, got))
                sched.pause()
                if self.raised == level:
                    raise exc
            finally:
                if level == 1:
                    leaving(s, 0)
            return ('value', level - 1)

        def guarded(level):
            # call section number `level`, catching what has to be caught
            try:
                return section(level)
            except BaseException as e:
                if isinstance(e, sched.Abort):
                    raise
                if e is not exc:
                    s.wrong.append('raised %r instead' % (e,))
                if self.caught != level:
                    raise
                return ('value', level)

        def section(level):
            node = nodes[NODES[(level + 2) % 4]]
            style = self.styles[level]
            if style == 'with':
                with TreeLock(node):
                    return inner(level + 1)
            if style == 'object':
                lock = TreeLock(node)
                lock.acquire()
                try:
                    return inner(level + 1)
                finally:
                    lock.release()
            return node.call(inner, level + 1)

        def body_nest():
            for i in range(2):
                guarded(0)

        return [body_nest, body_other(s, nodes['a'], 1)], s


MOVES = ['away', 'back', 'root below', 'root replaced', 'subtree', 'twice',
         'adopted', 'renamed']


def relocate(nodes, other, how):
    """Change what the root of node `a`, `b` or `c` is."""
    if how == 'away':
        a = nodes['root'].detach('a')
        other['a'] = a
    elif how == 'back':
        a = nodes['root'].detach('a')
        other['a'] = a
        other.detach('a')
        nodes['root']['a'] = a
    elif how == 'root below':
        other['below'] = nodes['root']
    elif how == 'root replaced':
        nodes['a'].__parent__ = None
    elif how == 'subtree':
        b = nodes['a'].detach('b')
        other['b'] = b
    elif how == 'twice':
        a = nodes['root'].detach('a')
        b = a.detach('b')
        other['b'] = b
        b['a'] = a
    elif how == 'adopted':
        other.__parent__ = nodes['a']
        nodes['root'].__parent__ = None
    elif how == 'renamed':
        nodes['root'].__name__ = 'another'
        nodes['a'].__name__ = 'other'


class Moving(Locking):
    """Nodes become part of other trees while they are locked: what was taken
    is held until the section ends and is released by then."""

    def __init__(self, styles, at, how, raising, fine=False):
        self.styles = styles
        self.at = at
        self.how = how
        self.raising = raising
        self.fine = fine
        self.bound = 1 if fine else 2
        self.name = 'move %s %s %s%s%s' % (
            '/'.join(styles), at, how, ' raising' if raising else '',
            ' opcodes' if fine else '')

    def make(self):
        nodes = build(CLASSES['LNode'])
        other = build(CLASSES['LNode'])['root']
        other.__name__ = 'other'
        s = State(inside=[], overlap=[], wrong=[])
        done = sched.held()
        root, node = nodes['root'], nodes[self.at]
        # what locks the tree as it is now
        old = TreeLock(root)

        def inner(level):
            if level < len(self.styles):
                return section(level)
            relocate(nodes, other, self.how)
            sched.pause()
            if self.raising:
                raise Boom()

        def section(level):
            style = self.styles[level]
            if style == 'with':
                with TreeLock(node):
                    return first(level)
            if style == 'object':
                lock = TreeLock(node)
                lock.acquire()
                try:
                    return first(level)
                finally:
                    lock.release()
            return node.call(first, level)

        def first(level):
            if level:
                return inner(level + 1)
            entering(s, 0)
            try:
                got = inner(1)
                # locks of whatever tree it is in now
                with TreeLock(node):
                    node.call(lambda: None)
                return got
            finally:
                leaving(s, 0)

        def body_move():
            try:
                section(0)
            except Boom:
                pass
            done.release()

        def body_old():
            with old:
                entering(s, 1)
                sched.pause()
                leaving(s, 1)
            # everything is free in the end
            done.acquire()
            for n in [node, root, other, nodes['a'], nodes['b']]:
                with TreeLock(n):
                    n.call(lambda: None)
            with old:
                pass
        return [body_move, body_old], s


class _Call(object):

    @locktree
    def call(self, fn, *args, **kw):
        return fn(*args, **kw)

    @locktree
    def positional(self, a, b):
        return (a, b)

    @locktree
    def defaults(self, a, b=2, *args, **kw):
        return (a, b, args, kw)

    @locktree
    def keyword(self, **kw):
        return kw

    @locktree
    def nothing(self):
        pass

    @locktree
    def me(self):
        return self

    @locktree
    def raising(self, exc):
        raise exc

    @locktree
    def recursive(self, n):
        if not n:
            return 0
        return 1 + self.recursive(n - 1)

    @locktree
    def both(self, other):
        return [self.me(), other.me(), other.both(self) if other is not self
                and len(list(other)) > 5 else None]


for name, cls in list(CLASSES.items()):
    for attr in ('call', 'positional', 'defaults', 'keyword', 'nothing', 'me',
                 'raising', 'recursive', 'both'):
        setattr(cls, attr, _Call.__dict__[attr])


class Sub(CLASSES['LNode']):
    """Overrides locked methods by locked methods calling them."""

    @locktree
    def positional(self, a, b):
        return super(Sub, self).positional(a, b)

    @locktree
    def raising(self, exc):
        return super(Sub, self).raising(exc)


class Calls(Cases):
    """Decorated methods behave like the undecorated ones."""
    name = 'decorated methods'
    chunk = 10
    EXC = [Boom, BaseBoom, KeyError, StopIteration, GeneratorExit,
           SystemExit, KeyboardInterrupt, AttributeError, RuntimeError]
    RESULTS = [None, 0, False, '', [], {}, (), 'x', ValueError, NotImplemented,
               iter([1]), map(str, [1]), (x for x in [1]), zip([1]), range(2),
               set([1]), {1: 2}.keys(), len, io.StringIO(u'a'), Boom('x'),
               Ellipsis, object(), functools.partial(len), memoryview(b'a'),
               contextlib.suppress(), bytearray(b'a')]

    def cases(self):
        for cls in sorted(CLASSES) + ['Sub']:
            for node in NODES:
                for n in range(7):
                    yield (cls, node, n)

    def run(self, case):
        name, at, n = case
        cls = CLASSES.get(name, Sub)
        nodes = build(cls)
        node = nodes[at]
        marker = object()
        calls = []

        def scenario():
            if n == 0:
                for res in self.RESULTS:
                    def fn(*args, **kw):
                        calls.append((args, kw))
                        return res
                    got = node.call(fn, 1, marker, x=marker)
                    if got is not res:
                        fail('returned %r instead of %r', got, res)
                    if calls != [((1, marker), {'x': marker})]:
                        fail('called with %r', calls)
                    del calls[:]
                for res in self.RESULTS:
                    # nothing was taken from iterators, as arguments neither
                    if node.call(lambda x: x, res) is not res:
                        fail('%r was not passed on', res)
                    if hasattr(res, '__next__') and not isinstance(
                            res, io.StringIO):
                        again = iter([1])
                        if list(node.call(lambda: again)) != [1] or \
                                list(node.call(lambda x: x, iter([2]))) != [2]:
                            fail('iterators are used up')
            elif n == 1:
                for got, want in [
                        (node.positional(1, marker), (1, marker)),
                        (node.positional(a=1, b=2), (1, 2)),
                        (node.positional(1, b=None), (1, None)),
                        (node.defaults(1), (1, 2, (), {})),
                        (node.defaults(1, 3, 4, 5, z=6), (1, 3, (4, 5),
                                                          {'z': 6})),
                        (node.defaults(a=1, z=2), (1, 2, (), {'z': 2})),
                        (node.keyword(), {}),
                        (node.keyword(fn=1, lock=2, args=3, name=4),
                         {'fn': 1, 'lock': 2, 'args': 3, 'name': 4}),
                        (node.nothing(), None),
                        (node.recursive(5), 5)]:
                    if got != want:
                        fail('returned %r instead of %r', got, want)
                if node.me() is not node:
                    fail('self is %r', node.me())
            elif n == 2:
                for exc in self.EXC:
                    e = exc('why')
                    try:
                        got = node.raising(e)
                    except BaseException as x:
                        if x is not e:
                            fail('raised %r instead of %r', x, e)
                    else:
                        fail('returned %r, expected %r', got, e)
            elif n == 3:
                # wrong calls
                for fn in (lambda: node.positional(),
                           lambda: node.positional(1, 2, 3),
                           lambda: node.nothing(1),
                           lambda: node.keyword(1)):
                    out = outcome(fn)
                    if out[0] != 'raise' or not isinstance(out[1], TypeError):
                        fail('expected TypeError: %r', out)
            elif n == 4:
                for other in nodes.values():
                    got = node.both(other)
                    if got != [node, other, None]:
                        fail('%r', got)
            elif n == 5:
                # raising inside of nested calls
                e = Boom('x')
                for k in range(3):
                    try:
                        node.call(nodes['root'].call, nodes['c'].raising, e)
                    except Boom as x:
                        if x is not e:
                            fail('raised %r', x)
                    else:
                        fail('not raised')
            elif n == 6:
                # unbound and by another instance's bound method
                got = cls.positional(node, 1, 2)
                if got != (1, 2):
                    fail('%r', got)
                with TreeLock(node) as lock:
                    got = node.positional(3, 4)
                if got != (3, 4):
                    fail('%r', got)
        problems = []
        done = sched.held()

        def body_first():
            try:
                scenario()
            except Exception as e:
                problems.append(e)
            done.release()

        def body_second():
            done.acquire()
            with TreeLock(nodes['root']):
                pass
        s = sched.Scheduler([body_first, body_second], fine=False).run()
        if problems:
            raise problems[0]
        if s.deadlock or s.error:
            fail('lock not free after %s: %s', case, s.deadlock or s.error)
        for t in s.threads:
            if t.result[0] != 'ok':
                fail('%s', t.result)


class Guarded(OrderedNode):
    """Mapping interface below the lock of the tree."""
    __getitem__ = locktree(OrderedNode.__getitem__)
    __setitem__ = locktree(OrderedNode.__setitem__)
    __delitem__ = locktree(OrderedNode.__delitem__)


@plumbing(Adopt, DefaultInit, Nodify, GetattrChildren, OdictStorage)
class Attribs(object):
    pass


class GuardedAttribs(Attribs):
    """Children are attributes too, looking them up locks the tree."""
    __getitem__ = locktree(Attribs.__getitem__)
    __setitem__ = locktree(Attribs.__setitem__)
    __delitem__ = locktree(Attribs.__delitem__)


class Consulting(Attribs):
    """Lookup of children consults other trees, below their locks."""

    def __getitem__(self, key):
        for other in self.__dict__.get('others', ()):
            with TreeLock(other):
                other.get(key)
        return Attribs.__getitem__(self, key)


class GuardedConsulting(Consulting):
    __getitem__ = locktree(Consulting.__getitem__)
    __setitem__ = locktree(Consulting.__setitem__)
    __delitem__ = locktree(Consulting.__delitem__)


class LockedMapping(Cases):
    """Locked mapping methods behave like those of the class below."""
    name = 'locked mapping methods'
    chunk = 20
    PAIRS = [(Guarded, OrderedNode), (GuardedAttribs, Attribs),
             (GuardedConsulting, Consulting)]
    OPS = [('set', 'a'), ('set', 'b'), ('del', 'a'), ('get', 'a'),
           ('bad', 'c'), ('sub', 'a'), ('pop', 'b')]

    def __init__(self, length):
        self.length = length

    def cases(self):
        for n in range(len(self.PAIRS)):
            for ops in itertools.product(range(len(self.OPS)),
                                         repeat=self.length):
                yield (n,) + ops

    def run(self, case):
        guarded, bare = self.PAIRS[case[0]]
        case = case[1:]
        one, two = guarded(name='root'), bare(name='root')
        if guarded is GuardedConsulting:
            for node in one, two:
                node.__dict__['others'] = [OrderedNode(name='other'),
                                           Attribs(name='more'),
                                           guarded(name='most')]
        log = []
        done = sched.held()

        def play(node, cls):
            out = []
            for op in case:
                op, key = self.OPS[op]
                if op == 'set':
                    res = outcome(node.__setitem__, key, cls())
                elif op == 'del':
                    res = outcome(node.__delitem__, key)
                elif op == 'get':
                    res = outcome(node.get, key)
                elif op == 'bad':
                    res = outcome(node.__setitem__, key, 'no node')
                elif op == 'sub':
                    res = outcome(lambda: node['a'].__setitem__('x', cls()))
                else:
                    res = outcome(node.pop, key)
                out.append((res[0], type(res[1]).__name__.replace(
                    guarded.__name__, bare.__name__),
                    [(k, list(v)) for k, v in node.items()]))
            return out

        def body_first():
            try:
                log.append(play(one, guarded))
            finally:
                done.release()

        def body_second():
            done.acquire()
            with TreeLock(one):
                pass
        s = sched.Scheduler([body_first, body_second], fine=False).run()
        if s.deadlock or s.error:
            fail('lock not free: %s', s.deadlock or s.error)
        for t in s.threads:
            if t.result[0] != 'ok':
                fail('%s', t.result)
        log.append(play(two, bare))
        if log[0] != log[1]:
            fail('%s with lock, %s without', log[0], log[1])


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class LReferenced(object):

    @locktree
    def section(self):
        return self


def tree(cls):
    return build(cls)


COPIED = dict(CLASSES, LReferenced=LReferenced, Sub=Sub, Guarded=Guarded,
              BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node)


def dump(node):
    out = []

    def add(n, at):
        out.append((at, type(n).__name__, n.__name__, list(n.keys())))
        for k, v in n.items():
            if v.__parent__ is not n:
                fail('parent of %s is %r', at + (k,), v.__parent__)
            add(v, at + (k,))
    add(node, ())
    return out


COPY = {
    'deepcopy': lambda node: copy.deepcopy(node),
    'node.deepcopy': lambda node: node.deepcopy(),
    'copy of list': lambda node: copy.deepcopy([node, node])[1],
}
# odict itself cannot be pickled by protocols 0 and 1
for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
    COPY['pickle %s' % proto] = (
        lambda node, proto=proto: pickle.loads(pickle.dumps(node, proto)))


class Copies(Cases):
    """A locked tree is copied and pickled like one never locked."""
    name = 'copies of locked trees'
    chunk = 10

    def cases(self):
        for cls in sorted(COPIED):
            for how in sorted(COPY):
                for locked in ('b', 'root', 'both', 'holding', 'holding twice',
                               'raised', 'copy of a copy'):
                    for which in ('root', 'a'):
                        yield (cls, how, locked, which)

    def run(self, case):
        name, how, locked, which = case
        cls = COPIED[name]
        plain = build(cls)
        nodes = build(cls)
        ref = outcome(COPY[how], plain[which])
        problems = []
        box = {}
        done = sched.held()
        go = sched.held()

        def scenario():
            if locked in ('b', 'both'):
                with TreeLock(nodes['b']):
                    pass
            if locked in ('root', 'both'):
                with TreeLock(nodes['root']):
                    pass
            if locked == 'raised':
                try:
                    with TreeLock(nodes['c']):
                        raise Boom()
                except Boom:
                    pass
            if locked == 'copy of a copy':
                with TreeLock(nodes['c']):
                    pass
                out = outcome(COPY[how], nodes['root'])
                if out[0] == 'ok':
                    fresh = out[1]
                    with TreeLock(fresh['a']):
                        pass
                    nodes.update(root=fresh, a=fresh['a'], b=fresh['a']['b'],
                                 c=fresh['c'])
            if locked.startswith('holding'):
                locks = [TreeLock(nodes['b'])]
                if locked == 'holding twice':
                    locks.append(TreeLock(nodes['c']))
                for lock in locks:
                    lock.acquire()
            out = box['out'] = outcome(COPY[how], nodes[which])
            if out[0] == 'ok':
                # the copy is free and a tree of its own, even while the
                # original is locked
                go.release()
                done.acquire()
            if locked.startswith('holding'):
                for lock in locks:
                    lock.release()
                # ... and copying did not touch the lock of the original

        def body_first():
            try:
                scenario()
            except Exception as e:
                problems.append(e)
                box.setdefault('out', ('raise', e))

        def body_second():
            if ref[0] != 'ok':
                return
            go.acquire()
            with TreeLock(box['out'][1]):
                pass
            done.release()
            with TreeLock(nodes['a']):
                pass
        if ref[0] != 'ok':
            # not possible without locks either
            s = sched.Scheduler([body_first], fine=False).run()
        else:
            s = sched.Scheduler([body_first, body_second], fine=False).run()
        if problems:
            raise problems[0]
        out = box['out']
        if ref[0] != 'ok':
            if out[0] == 'ok' or type(out[1]) is not type(ref[1]):
                fail('%r, but %r if never locked', out, ref)
            return 'refused'
        if out[0] != 'ok':
            fail('raised %s, works if never locked', describe_exc(out[1]))
        if s.deadlock or s.error:
            fail('the copy is not free or not a tree of its own: %s',
                 s.deadlock or s.error)
        for t in s.threads:
            if t.result[0] != 'ok':
                fail('%s', t.result)
        if dump(out[1]) != dump(ref[1]):
            fail('copy %s, expected %s', dump(out[1]), dump(ref[1]))
        if set(out[1].storage if hasattr(out[1], 'storage') else ()) != set(
                ref[1].storage if hasattr(ref[1], 'storage') else ()):
            fail('children differ')


def tasks(tier):
    quick = tier == 'quick'
    out = []
    length = 6 if quick else 8
    for w in words(length):
        out.append(Words([w, 'Aa'], False, bound=2 if quick else 4))
        out.append(Words([w, 'AaBb' if len(w) % 4 else 'ABba'], True,
                         bound=1 if quick else 3))
    for w, v in itertools.product(words(4), repeat=2):
        out.append(Words([w, v], False, 'LNode', bound=2 if quick else 4))
    for w in ('Aa', 'ABba', 'AABbaa'):
        out.append(Words([w, 'Aa', 'ABab'], False, 'LMy',
                         bound=2 if quick else 4))
        out.append(Words([w, 'ABab'], False, 'LBase', fine=True,
                         bound=1 if quick else 2))
    for w in words(4):
        for cls in sorted(CLASSES):
            out.append(Words([w, 'AaAa'], False, cls,
                             bound=1 if quick else 4))
    styles = ['with', 'object', 'method']
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for combo in itertools.product(styles, repeat=n):
            out.append(Nest(combo, None, None))
            for raised in range(1, n + 1):
                for caught in range(raised):
                    if quick and n == 3 and caught and raised != n:
                        continue
                    out.append(Nest(combo, raised, caught))
    for exc in ('BaseBoom', 'KeyError', 'GeneratorExit', 'KeyboardInterrupt'):
        for style in styles:
            out.append(Nest((style,), 1, 0, exc))
            out.append(Nest((style, 'method'), 2, 0, exc))
    for style in styles:
        out.append(Nest((style,), 1, 0, fine=True, bound=1 if quick else 2))
        out.append(Nest((style, 'with'), 2, 0, fine=True,
                        bound=1 if quick else 2))
    for how in MOVES:
        for at in ('root', 'a', 'b'):
            for raising in (False, True):
                for n in (1, 2 - raising) if quick else (1, 2, 3):
                    for combo in itertools.product(styles, repeat=n):
                        if quick and n == 2 and 'method' not in combo:
                            continue
                        out.append(Moving(combo, at, how, raising))
            for style in styles if not quick else styles[2:] * (at == 'a'):
                out.append(Moving((style,), at, how, False, fine=True))
    out.append(Calls())
    out.append(LockedMapping(3 if quick else 5))
    out.append(Copies())
    seen = set()
    return [t for t in out if not (t.name in seen or seen.add(t.name))]
