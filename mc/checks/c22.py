"""C22: event, suppression and fallback state is per thread."""
from mc import sched
from mc.core import Schedules
from mc.core import State
from mc.core import fail
from node.base import AttributedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import suppress_events
from node.events import EventDispatcher
from node.utils import UNSET
from plumber import plumbing
import itertools

TECHNIQUE = ('stateless model checking of the real code: every interleaving of '
             'two or three real threads up to a preemption bound, switching '
             'at every opcode touching shared state, under a controlled '
             'scheduler; each thread has to see what it sees alone')
LEVEL_NOTE = (
    'Ten scenarios (and eight on objects shared by threads) of dispatching, event attributes, suppression and fallback '
    'lookups; all pairs with one preemption (thorough: two) at opcodes of '
    'node code, three threads at coarse points. The expected traces are '
    'written by hand.')
ASSUMPTIONS = ['shared trees are only read, shared dispatchers keep their '
               'subscribers, different threads set different attributes',
               'the interpreter switches threads between opcodes only']


@plumbing(NodeChildValidate, Adopt, Events, DefaultInit, Nodify, DictStorage)
class Dispatching(object):
    __events__ = ['changed', 'other']
    value = EventAttribute(0)
    always = EventAttribute(0, always_dispatch=True)
    follow = EventAttribute()

    @value.subscriber
    def body_on_value(self, value=UNSET):
        sched.pause()
        self.log.append(('decorated', value))

    @follow.subscriber
    def body_on_follow(self, value=UNSET):
        # sets another attribute while the first one is dispatched
        self.log.append(('follow', value))
        self.always = value


@plumbing(Events)
class Stored(AttributedNode):
    stored = EventAttribute(None, storage='attrs')

    @stored.subscriber
    def body_on_stored(self, value=UNSET):
        sched.pause()
        self.log.append(('stored', value))


class MyDispatcher(EventDispatcher):
    __events__ = ['changed', 'other']


@plumbing(Adopt, Fallback, DefaultInit, Nodify, OdictStorage)
class FNode(object):
    pass


@plumbing(NodeChildValidate, Adopt, Lifecycle, DefaultInit, Nodify,
          OdictStorage)
class LNode(object):
    pass


def subscriber(log, tag):
    def body_subscriber(*args, **kw):
        sched.pause()
        log.append((tag,) + args + tuple(sorted(kw.items())))
    return body_subscriber


def logged(cls):
    ob = cls()
    ob.log = []
    return ob


def bound(cls, *events):
    ob = logged(cls)
    for event in events:
        ob.bind(**{event: subscriber(ob.log, event)})
    return ob


# every scenario: make() -> (body, expected result)

def plain():
    ob = bound(MyDispatcher, 'changed', 'other')

    def body_plain():
        ob.dispatch('changed', 1)
        ob.dispatch('other', x=2)
        ob.dispatch('changed', 3, 4)
        return ob.log
    return body_plain, [('changed', 1), ('other', ('x', 2)), ('changed', 3, 4)]


def attribute():
    ob = bound(Dispatching, 'value')

    def body_attribute():
        ob.value = 1
        ob.value = 1
        ob.value = 2
        return ob.log + [ob.value]
    return body_attribute, [('decorated', 1), ('value', 1), ('decorated', 2),
                            ('value', 2), 2]


def deletion():
    ob = bound(Dispatching, 'value')

    def body_deletion():
        ob.value = 1
        del ob.value
        ob.value = None
        return ob.log
    return body_deletion, [('decorated', 1), ('value', 1),
                           ('decorated', UNSET), ('value', UNSET),
                           ('decorated', None), ('value', None)]


def following():
    ob = bound(Dispatching, 'follow', 'always')

    def body_following():
        ob.follow = 1
        ob.always = 1
        return ob.log + [ob.follow, ob.always]
    return body_following, [('follow', 1), ('always', 1), ('follow', 1),
                            ('always', 1), 1, 1]


def stored():
    ob = bound(Stored, 'stored')

    def body_stored():
        ob.stored = 1
        with suppress_events('stored'):
            ob.stored = 2
        ob.stored = 3
        return ob.log + [ob.attrs['stored']]
    return body_stored, [('stored', 1), ('stored', 1), ('stored', 3),
                         ('stored', 3), 3]


def suppress_all():
    ob = bound(Dispatching, 'changed', 'value')

    def body_suppress():
        ob.dispatch('changed', 0)
        with suppress_events() as count:
            ob.log.append(count)
            ob.dispatch('changed', 1)
            ob.value = 1
            with suppress_events() as count:
                ob.log.append(count)
                ob.dispatch('changed', 2)
            ob.dispatch('changed', 3)
        ob.dispatch('changed', 4)
        ob.value = 2
        return ob.log
    return body_suppress, [('changed', 0), 1, 2, ('changed', 4),
                           ('decorated', 2), ('value', 2)]


def suppress_some():
    ob = bound(MyDispatcher, 'changed', 'other')

    def body_some():
        with suppress_events('changed'):
            ob.dispatch('changed', 1)
            ob.dispatch('other', 1)
            with suppress_events(['other']):
                ob.dispatch('changed', 2)
                ob.dispatch('other', 2)
            ob.dispatch('other', 3)
        ob.dispatch('changed', 4)
        return ob.log
    return body_some, [('other', 1), ('other', 3), ('changed', 4)]


def suppress_given():
    """The suppressions were created by the importing thread."""
    ob = bound(MyDispatcher, 'changed', 'other')
    some, every = suppress_events(['changed']), suppress_events()
    with some, every:
        pass

    def body_given():
        with some:
            ob.dispatch('changed', 1)
            ob.dispatch('other', 1)
            with every as count:
                ob.dispatch('other', 2)
        with some:
            ob.dispatch('changed', 3)
        ob.dispatch('changed', 4)
        return ob.log + [count]
    return body_given, [('other', 1), ('changed', 4), 2]


def suppress_error():
    ob = bound(MyDispatcher, 'changed', 'other')

    def body_error():
        try:
            with suppress_events(['changed', 'other']):
                ob.dispatch('changed', 1)
                raise ValueError('x')
        except ValueError:
            ob.log.append('caught')
        ob.dispatch('changed', 2)
        return ob.log
    return body_error, ['caught', ('changed', 2)]


def fallback():
    root = FNode(name='root')
    root.fallback_key = 'f'
    root['f'] = FNode()
    root['f']['v'] = 'value'
    root['x'] = x = FNode()

    def body_fallback():
        return [x['v'], x.get('w'), x.get('v')]
    return body_fallback, ['value', None, 'value']


def fallback_deep():
    root = FNode(name='root')
    root.fallback_key = 'f'
    root['f'] = FNode()
    root['f']['y'] = FNode()
    root['f']['y']['v'] = 'value'
    root['x'] = FNode()
    root['x'].fallback_key = 'g'
    root['x']['g'] = FNode()
    root['x']['y'] = y = FNode()

    def body_fallback():
        return ['v' in y, y['v']]
    return body_fallback, [True, 'value']


def fallback_missing():
    root = FNode(name='root')
    root.fallback_key = 'f'
    root['x'] = x = FNode()

    def body_missing():
        out = []
        for i in range(2):
            try:
                out.append(x['v'])
            except KeyError:
                out.append('missing')
        return out
    return body_missing, ['missing', 'missing']


def detaching():
    root = LNode(name='root')
    for key in 'ab':
        root[key] = LNode()

    def body_detaching():
        a = root.detach('a')
        root['c'] = a
        del root['b']
        return [list(root), a.name]
    return body_detaching, [['c'], 'c']


def tiny_dispatch():
    ob = bound(MyDispatcher, 'changed')

    def body_tiny():
        ob.dispatch('changed', 1)
        return ob.log
    return body_tiny, [('changed', 1)]


def tiny_attribute():
    ob = logged(Dispatching)

    def body_tiny():
        ob.value = 1
        return ob.log
    return body_tiny, [('decorated', 1)]


def tiny_suppress():
    ob = bound(MyDispatcher, 'changed')

    def body_tiny():
        with suppress_events('changed') as count:
            ob.dispatch('changed', 1)
        return ob.log + [count]
    return body_tiny, [1]


def tiny_fallback():
    root = FNode(name='root')
    root.fallback_key = 'f'
    root['f'] = FNode()
    root['f']['v'] = 1
    root['x'] = x = FNode()

    def body_tiny():
        return x['v']
    return body_tiny, 1


SCENARIOS = dict((f.__name__, f) for f in (
    tiny_dispatch, tiny_attribute, tiny_suppress, tiny_fallback,
    plain, attribute, deletion, following, stored, suppress_all,
    suppress_some, suppress_given, suppress_error, fallback, fallback_deep, fallback_missing, detaching))


class Threads(Schedules):

    def __init__(self, names, bound, fine=True, main=False):
        self.names = names
        self.bound = bound
        self.fine = fine
        self.main = main
        self.name = '%s%s %s bound %s' % (
            ' | '.join(names), ' after the importing thread' if main else '',
            {True: 'opcodes', 'line': 'lines', False: 'coarse'}[fine],
            bound)

    def make(self):
        if self.main:
            # the importing thread is in the middle of suppression
            for n in self.names:
                body, want = SCENARIOS[n]()
                if body() != want:
                    fail('%s: wrong in the importing thread', n)
        pairs = [SCENARIOS[n]() for n in self.names]
        return [p[0] for p in pairs], State(want=[p[1] for p in pairs])

    def check(self, s, sc):
        if sc.deadlock:
            fail('deadlock: %s', sc.deadlock)
        for i, t in enumerate(sc.threads):
            if t.result != ('ok', s.want[i]):
                fail('%s: got %s, alone it gets %s', self.names[i],
                     t.result[1:] if t.result[0] == 'raise' else t.result[1],
                     s.want[i])

    def outcome(self, s, sc):
        return 'undisturbed'


class Inside(Schedules):
    """Threads running while another thread suppresses or looks up."""
    bound = 1
    fine = False

    def __init__(self, holder, name):
        self.holder = holder
        self.other = name
        self.name = '%s during %s of another thread' % (name, holder)

    def make(self):
        body, want = SCENARIOS[self.other]()
        entered, done = sched.held(), sched.held()
        waited = []

        class Waiting(FNode):
            def __getitem__(self, key):
                if key == 'v' and not waited:
                    waited.append(True)
                    entered.release()
                    done.acquire()
                return super(Waiting, self).__getitem__(key)

        root = FNode(name='root')
        root.fallback_key = 'f'
        root['f'] = Waiting()
        root['x'] = FNode()
        ob = logged(Dispatching)

        def wait(*args):
            entered.release()
            done.acquire()
            ob.log.append('waited')
        ob.bind(changed=wait)

        def body_holder():
            if self.holder == 'suppression':
                with suppress_events():
                    entered.release()
                    done.acquire()
                    ob.dispatch('changed')
            elif self.holder == 'some suppression':
                with suppress_events(['changed', 'value', 'stored', 'other']):
                    entered.release()
                    done.acquire()
                    ob.dispatch('changed')
            elif self.holder == 'nested suppression':
                with suppress_events('changed'):
                    with suppress_events():
                        entered.release()
                        done.acquire()
                    ob.dispatch('changed')
            elif self.holder == 'dispatch':
                ob.dispatch('changed')
                return ob.log == ['waited']
            elif self.holder == 'lookup':
                return root['x'].get('v') is None
            return ob.log == []

        def body_other():
            entered.acquire()
            try:
                return body()
            finally:
                done.release()
        return [body_holder, body_other], State(want=want)

    def check(self, s, sc):
        if sc.deadlock:
            fail('deadlock: %s', sc.deadlock)
        if sc.threads[0].result != ('ok', True):
            fail('holding thread: %s', sc.threads[0].result)
        if sc.threads[1].result != ('ok', s.want):
            fail('got %s, alone it gets %s', sc.threads[1].result, s.want)

    def outcome(self, s, sc):
        return 'undisturbed'


def missing(node, key):
    try:
        return node[key]
    except KeyError:
        return 'missing'


# objects shared between threads: make(parts) -> (body, expected) per part

def shared_tree(parts):
    root = FNode(name='root')
    root.fallback_key = 'f'
    root['f'] = FNode()
    root['f']['v'] = 'value'
    root['f']['y'] = FNode()
    root['f']['y']['v'] = 'deep'
    root['x'] = x = FNode()
    x['y'] = y = FNode()
    root['y'] = z = FNode()

    def body_x():
        return [missing(x, 'v'), 'w' in x]

    def body_y():
        return [y.get('v'), missing(z, 'v'), missing(y, 'w')]

    def body_nothing():
        return [missing(x, 'w'), missing(root, 'w')]
    parted = {'x': (body_x, ['value', False]),
              'y': (body_y, ['deep', 'value', 'missing']),
              'nothing': (body_nothing, ['missing', 'missing'])}
    return [parted[p] for p in parts]


def shared_dispatcher(parts):
    ob = Dispatching()
    ob.log = []
    ob.bind(changed=subscriber(ob.log, 'changed'),
            value=subscriber(ob.log, 'value'),
            always=subscriber(ob.log, 'always'))

    def part(i, name):
        def mine():
            return [e for e in ob.log if isinstance(e[1], tuple)
                    and e[1][0] == i]

        def body_dispatch():
            ob.dispatch('changed', (i, 1))
            ob.dispatch('changed', (i, 2))
            return mine()

        def body_suppress():
            with suppress_events() as count:
                ob.dispatch('changed', (i, 1))
            ob.dispatch('changed', (i, 2))
            return mine() + [count]

        def body_some():
            with suppress_events('changed'):
                ob.dispatch('changed', (i, 1))
                ob.dispatch('always', (i, 2))
            ob.dispatch('changed', (i, 3))
            return mine()

        def body_value():
            ob.value = (i, 1)
            with suppress_events('value'):
                ob.value = (i, 2)
            return mine() + [ob.value]

        def body_always():
            with suppress_events('other'):
                ob.always = (i, 1)
                ob.always = (i, 1)
            return mine() + [ob.always]
        return {
            'dispatch': (body_dispatch, [('changed', (i, 1)),
                                         ('changed', (i, 2))]),
            'suppress': (body_suppress, [('changed', (i, 2)), 1]),
            'some': (body_some, [('always', (i, 2)), ('changed', (i, 3))]),
            'value': (body_value, [('decorated', (i, 1)), ('value', (i, 1)),
                                   (i, 2)]),
            'always': (body_always, [('always', (i, 1)), ('always', (i, 1)),
                                     (i, 1)])}[name]
    return [part(i, p) for i, p in enumerate(parts)]


def shared_suppression(parts):
    """The same suppression objects are entered by several threads."""
    some, every = suppress_events(['changed']), suppress_events()

    def part(name):
        ob = bound(MyDispatcher, 'changed', 'other')

        def body_some():
            with some as count:
                ob.dispatch('changed', 1)
                ob.dispatch('other', 1)
            ob.dispatch('changed', 2)
            return ob.log + [count]

        def body_every():
            with every as count:
                ob.dispatch('other', 1)
            ob.dispatch('other', 2)
            return ob.log + [count]

        def body_both():
            with every:
                with some as count:
                    ob.dispatch('changed', 1)
                ob.dispatch('other', 2)
            with some:
                ob.dispatch('changed', 3)
                ob.dispatch('other', 3)
            ob.dispatch('changed', 4)
            return ob.log + [count]

        def body_none():
            ob.dispatch('changed', 1)
            ob.dispatch('other', 2)
            return ob.log
        return {
            'some': (body_some, [('other', 1), ('changed', 2), 1]),
            'every': (body_every, [('other', 2), 1]),
            'both': (body_both, [('other', 3), ('changed', 4), 2]),
            'none': (body_none, [('changed', 1), ('other', 2)])}[name]
    return [part(p) for p in parts]


SHARED = {
    'suppression': (shared_suppression, ('some', 'every', 'both', 'none')),
    'tree': (shared_tree, ('x', 'y', 'nothing')),
    'dispatcher': (shared_dispatcher, ('dispatch', 'suppress', 'some',
                                       'value', 'always')),
}


class Shared(Threads):
    """Threads using the same objects."""

    def __init__(self, kind, parts, bound, fine=True):
        self.kind = kind
        self.names = parts
        self.bound = bound
        self.fine = fine
        self.name = 'same %s: %s %s bound %s' % (
            kind, ' | '.join(parts),
            {True: 'opcodes', 'line': 'lines', False: 'coarse'}[fine], bound)

    def make(self):
        pairs = SHARED[self.kind][0](self.names)
        return [p[0] for p in pairs], State(want=[p[1] for p in pairs])


def tasks(tier):
    quick = tier == 'quick'
    out = []
    for kind in sorted(SHARED):
        parts = SHARED[kind][1]
        for part in parts:
            out.append(Shared(kind, (part,), 0))
        for pair in itertools.combinations_with_replacement(parts, 2):
            if pair[0] == pair[1] in ('value', 'always'):
                # threads setting the same attribute of the same object
                continue
            out.append(Shared(kind, pair, 1, fine='line' if quick else True))
            out.append(Shared(kind, pair, 2 if quick else 3, fine=False))
            if not quick and kind == 'dispatcher':
                out.append(Shared(kind, pair, 2, fine='line'))
    names = [n for n in sorted(SCENARIOS) if not n.startswith('tiny')]
    for n in names:
        out.append(Threads((n,), 0))
        out.append(Threads((n,), 0, main=True))
        for holder in ('suppression', 'some suppression', 'nested suppression',
                       'dispatch', 'lookup'):
            out.append(Inside(holder, n))
    for pair in itertools.combinations_with_replacement(names, 2):
        out.append(Threads(pair, 1, fine='line' if quick else True))
        if not quick and not any('fallback' in n for n in pair) \
                and (pair[0] == pair[1] or 'suppress_all' in pair):
            out.append(Threads(pair, 2, fine='line'))
        out.append(Threads(pair, 2 if quick else 4, fine=False))
    for triple in itertools.combinations(names, 3):
        out.append(Threads(triple, 1 if quick else 2, fine=False))
        if not quick:
            out.append(Threads(triple, 1))
    small = ['tiny_dispatch', 'tiny_attribute', 'tiny_suppress',
             'tiny_fallback']
    for pair in itertools.combinations_with_replacement(small, 2):
        out.append(Threads(pair, 1 if quick else 2))
        out.append(Threads(pair, 1 if quick else 3, fine='line'))
    return out
