"""C23: mutual exclusion by tree locks."""
from mc import sched
from mc.core import Schedules
from mc.core import State
from mc.core import fail
from node.base import AbstractNode
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.locking import TreeLock
from node.locking import locktree
from node.testing.env import MyNode
import itertools

TECHNIQUE = ('stateless model checking of the real code: every interleaving of '
             'two or three real threads up to a preemption bound, switching '
             'at every opcode touching shared state, under a controlled '
             'scheduler')
LEVEL_NOTE = (
    'Two threads with up to two preemptions at opcode granularity inside node '
    'code and locked sections, three threads with one; every pair of locking '
    'styles and nodes of the tree, first and later uses of the lock. Opcodes '
    'of other packages are atomic.')
ASSUMPTIONS = ['the interpreter switches threads between opcodes only',
               'the tree is not restructured while it is locked']


class Overlap(Exception):
    pass


def body_section(s, who):
    """Critical section: read, modify, write, noting any overlap."""
    if s.inside:
        s.overlap.append((who, list(s.inside)))
    s.inside.append(who)
    val = s.count
    sched.pause()
    s.count = val + 1
    s.inside.remove(who)


class _Locked(object):
    """Mixin with decorated methods."""

    @locktree
    def section(self, s, who):
        body_section(s, who)
        return (who, s)

    @locktree
    def body_nested(self, s, who, other):
        body_section(s, who)
        other.section(s, who)
        body_section(s, who)


class LBase(_Locked, BaseNode):
    pass


class LOrdered(_Locked, OrderedNode):
    pass


class LNode(_Locked, Node):
    pass


class LMy(_Locked, MyNode):
    pass


class LAttributed(_Locked, AttributedNode):
    pass


class LOwn(_Locked, AbstractNode):
    """Hand written primitives."""

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent
        self.data = {}

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, val):
        val.__name__ = key
        val.__parent__ = self
        self.data[key] = val

    def __delitem__(self, key):
        del self.data[key]

    def __iter__(self):
        return iter(self.data)


CLASSES = {'LBase': LBase, 'LOrdered': LOrdered, 'LNode': LNode, 'LMy': LMy,
           'LAttributed': LAttributed, 'LOwn': LOwn}


def build(cls):
    root = cls(name='root')
    root['a'] = cls()
    root['a']['b'] = cls()
    root['c'] = cls()
    return {'root': root, 'a': root['a'], 'b': root['a']['b'],
            'c': root['c']}


def run_object(node, s, who):
    def body_object():
        lock = TreeLock(node)
        lock.acquire()
        body_section(s, who)
        lock.release()
    return body_object


def run_with(node, s, who):
    def body_with():
        with TreeLock(node):
            body_section(s, who)
    return body_with


def run_method(node, s, who):
    def body_method():
        node.section(s, who)
    return body_method


def run_kept(node, s, who):
    """A lock object made before the threads start."""
    lock = TreeLock(node)

    def body_kept():
        with lock:
            body_section(s, who)
    return body_kept


def run_twice(node, s, who):
    def body_twice():
        lock = TreeLock(node)
        with lock:
            body_section(s, who)
        with lock:
            body_section(s, who)
    return body_twice


def run_nested(node, s, who):
    other = node.root

    def body_nest():
        node.body_nested(s, who, other)
    return body_nest


STYLES = {'object': run_object, 'with': run_with, 'method': run_method,
          'kept': run_kept, 'twice': run_twice, 'nested': run_nested}
SECTIONS = {'twice': 2, 'nested': 3}


class Exclusion(Schedules):

    def __init__(self, cls, threads, bound, first=True, setup=None,
                 fine=True):
        self.cls = cls
        self.fine = fine
        self.threads = threads
        self.bound = bound
        self.first = first
        self.setup = setup
        self.name = '%s %s %s%s %s bound %s' % (
            cls, ' | '.join('%s on %s' % t for t in threads),
            'first use' if first else 'later use',
            ' ' + setup if setup else '', {True: 'opcodes', 'line': 'lines', False: 'locks'}[fine], bound)

    def make(self):
        cls = CLASSES[self.cls]
        nodes = build(cls)
        if self.setup == 'grown':
            # parts locked before they became part of the tree
            part = cls(name='part')
            with TreeLock(part):
                part['x'] = cls()
            with TreeLock(part['x']):
                pass
            nodes['root']['d'] = part
            nodes['d'] = part
            nodes['x'] = part['x']
        elif self.setup == 'attrs':
            nodes['attrs'] = nodes['b'].attrs
        elif self.setup == 'shrunk':
            # a part taken out of a locked tree
            with TreeLock(nodes['root']):
                pass
            sub = nodes['root'].detach('a')
            nodes = {'root': sub, 'a': sub, 'b': sub['b'], 'c': sub['b']}
        elif self.setup == 'moved':
            # a part used below another tree before
            away = build(cls)
            with TreeLock(away['root']):
                pass
            t = State(inside=[], overlap=[], count=0)
            for style in STYLES:
                for name in ('a', 'b'):
                    STYLES[style](away[name], t, 'x')()
            nodes['root']['m'] = away['root'].detach('a')
            nodes['m'], nodes['n'] = away['a'], away['b']
        if not self.first:
            with TreeLock(nodes['root']):
                pass
        s = State(inside=[], overlap=[], count=0)
        bodies = [STYLES[style](nodes[node], s, i)
                  for i, (style, node) in enumerate(self.threads)]
        return bodies, s

    def check(self, s, sc):
        if sc.deadlock:
            fail('deadlock: %s', sc.deadlock)
        for i, t in enumerate(sc.threads):
            if t.result[0] != 'ok':
                fail('thread %s ended with %s', i, t.result)
        if s.overlap:
            fail('thread %s entered a locked section while %s was inside',
                 *s.overlap[0])
        want = sum(SECTIONS.get(style, 1) for style, n in self.threads)
        if s.count != want:
            fail('%s sections ran, counter is %s: update lost', want, s.count)

    def outcome(self, s, sc):
        return 'exclusive'


class Updates(Schedules):
    """Read-modify-write of a node's item below a lock."""

    def __init__(self, cls, bound):
        self.cls = cls
        self.bound = bound
        self.name = 'updates of %s bound %s' % (cls, bound)

    def make(self):
        nodes = build(CLASSES[self.cls])
        attrs = nodes['root'].attrs
        attrs['n'] = 0
        s = State(attrs=attrs)

        def thread(node, n):
            def body_update():
                for i in range(n):
                    with TreeLock(node):
                        attrs['n'] = attrs['n'] + 1
            return body_update
        return [thread(nodes['a'], 1), thread(attrs, 2)], s

    def check(self, s, sc):
        if sc.deadlock:
            fail('deadlock: %s', sc.deadlock)
        for i, t in enumerate(sc.threads):
            if t.result[0] != 'ok':
                fail('thread %s ended with %s', i, t.result)
        if s.attrs['n'] != 3:
            fail('3 increments, value is %s: update lost', s.attrs['n'])

    def outcome(self, s, sc):
        return 'exclusive'


class Independent(Schedules):
    """A thread inside one tree's section waits for one using another tree."""

    def __init__(self, styles, bound, setup):
        self.styles = styles
        self.bound = bound
        self.setup = setup
        self.name = 'independent trees %s %s bound %s' % (
            '/'.join(styles), setup, bound)

    def make(self):
        one, two = build(LOrdered), build(LOrdered)
        if self.setup == 'copied':
            with TreeLock(one['b']):
                pass
            root = one['root'].deepcopy()
            two = {'root': root, 'b': root['a']['b']}
        elif self.setup == 'same names':
            with TreeLock(one['root']):
                with TreeLock(two['root']):
                    pass
        s = State(inside=[], overlap=[], count=0)
        t = State(inside=[], overlap=[], count=0)
        inside, done = sched.held(), sched.held()
        node, other = one['b'], two['b']

        def body_outer():
            with TreeLock(node):
                inside.release()
                done.acquire()
                body_section(s, 0)

        def body_inner():
            inside.acquire()
            STYLES[self.styles[0]](other, t, 1)()
            done.release()
        s.other = t
        return [body_outer, body_inner], s

    def check(self, s, sc):
        if sc.deadlock:
            fail('locking one tree blocks while another tree is locked: %s',
                 sc.deadlock)
        for i, t in enumerate(sc.threads):
            if t.result[0] != 'ok':
                fail('thread %s ended with %s', i, t.result)
        if s.count != 1 or s.other.count != SECTIONS.get(self.styles[0], 1):
            fail('counters %s %s', s.count, s.other.count)

    def outcome(self, s, sc):
        return 'independent'


def tasks(tier):
    quick = tier == 'quick'
    out = []

    def add(cls, *threads, **kw):
        out.append(Exclusion(cls, threads, kw.pop('bound'), **kw))

    # the races on the very first use need two preemptions
    deep = 2 if quick else 3
    add('LOrdered', ('with', 'a'), ('with', 'b'), bound=deep)
    add('LOrdered', ('object', 'root'), ('method', 'b'), bound=deep)
    if not quick:
        add('LNode', ('with', 'root'), ('with', 'root'), bound=deep)
    add('LOrdered', ('kept', 'a'), ('with', 'b'), bound=1 if quick else 3)
    add('LOrdered', ('with', 'a'), ('with', 'c'), first=False,
        bound=1 if quick else 3)
    styles = sorted(STYLES)
    for x, y in itertools.combinations_with_replacement(styles, 2):
        add('LNode', (x, 'a'), (y, 'c'), bound=1 if quick else 2)
        if not quick:
            add('LNode', (x, 'root'), (y, 'b'), first=False, bound=2)
        for cls in CLASSES:
            for n, m in [('root', 'b'), ('a', 'a'), ('b', 'c')]:
                for first in (True, False):
                    if quick and (n, first) != ('root', True):
                        continue
                    add(cls, (x, n), (y, m), first=first, fine=False,
                        bound=2 if quick else 9)
    for cls in sorted(CLASSES):
        add(cls, ('with', 'b'), ('object', 'root'), bound=1 if quick else 2)
        add(cls, ('method', 'c'), ('nested', 'b'), bound=1 if quick else 2,
            first=False)
        for first in (True, False):
            add(cls, ('with', 'a'), ('object', 'b'), ('method', 'c'),
                first=first, fine=False, bound=3 if quick else 5)
    for setup in ('grown', 'shrunk'):
        for x, y in [('with', 'with'), ('object', 'method'),
                     ('nested', 'with')]:
            add('LOrdered', (x, 'x' if setup == 'grown' else 'a'),
                (y, 'b'), setup=setup, bound=1 if quick else 2)
            add('LNode', (x, 'd' if setup == 'grown' else 'b'),
                (y, 'a'), setup=setup, fine=False, bound=4)
    for x, y in itertools.product(styles, repeat=2):
        for first in (True, False):
            add('LOrdered', (x, 'n'), (y, 'a'), setup='moved', fine=False,
                first=first, bound=2 if quick else 4)
            add('LNode', (x, 'm'), (y, 'root'), setup='moved', fine=False,
                first=first, bound=2 if quick else 4)
    for cls in ('LNode', 'LAttributed'):
        add(cls, ('with', 'attrs'), ('with', 'a'), setup='attrs',
            bound=1 if quick else 2)
        add(cls, ('object', 'attrs'), ('with', 'attrs'), setup='attrs',
            bound=1 if quick else 2)
    for fine, bound in [(True, 1)] if quick else [(True, 1), ('line', 2)]:
        add('LOrdered', ('with', 'root'), ('with', 'a'), ('with', 'b'),
            bound=bound, fine=fine)
        add('LNode', ('object', 'c'), ('method', 'a'), ('kept', 'b'),
            bound=bound, fine=fine)
    for cls in ('LNode', 'LAttributed'):
        out.append(Updates(cls, 1 if quick else 2))
    for setup in ('fresh', 'same names', 'copied'):
        for style in ('with', 'object', 'method'):
            out.append(Independent((style,), 1 if quick else 2, setup))
    return out
