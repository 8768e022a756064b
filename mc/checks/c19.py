"""C19: suppression covers exactly its block and its events."""
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.base import AttributedNode
from node.events import EventAttribute
from node.events import EventDispatcher
from node.events import Events
from node.events import suppress_events
from plumber import plumbing
import inspect
import itertools

TECHNIQUE = ('explicit-state BFS over histories of entering, leaving (also by '
             'exceptions), creating and re-entering suppressions, dispatches '
             'and attribute changes, and enumeration of all programs of nested '
             'with-blocks up to a size, on the real code against a stack model')
LEVEL_NOTE = (
    'Every history of entering and leaving suppressions in any order up to '
    'the depth over 10 ways to name events, '
    'two dispatchers and an attributed node with bound and decorated '
    'subscribers; every program of with-blocks up to 6 statements, subscribers '
    'entering suppressions included. Trusts the stack model.')
ASSUMPTIONS = ['single thread (threads: C22)']


class Dispatcher(EventDispatcher):
    __events__ = ['a', 'b', '']
    attr = EventAttribute(0)
    second = EventAttribute(0, always_dispatch=True)

    def __init__(self):
        self.log = []

    @attr.subscriber
    def on_attr(self, value):
        self.log.append(('deco attr', value))

    @second.subscriber
    def on_second(self, value):
        self.log.append(('deco second', value))


@plumbing(Events)
class EventNode(AttributedNode):
    __events__ = ['a', 'b', '']
    attr = EventAttribute(0, storage='attrs')
    second = EventAttribute(0, always_dispatch=True)

    @attr.subscriber
    def on_attr(self, value):
        self.log.append(('deco attr', value))

    @second.subscriber
    def on_second(self, value):
        self.log.append(('deco second', value))


def make(kind):
    d = Dispatcher() if kind == 'dispatcher' else EventNode(name='n')
    d.log = []
    for ev in ('a', 'b', '', 'attr', 'second'):
        d.bind(**{ev: (lambda e: lambda *args: d.log.append(
            ('bound ' + e,) + args))(ev)})
    return d


ALL = 'ALL'
SPECS = {
    'all': ((), ALL), 'a': (('a',), ['a']), 'la': ((['a'],), ['a']),
    'tab': ((('a', 'b'),), ['a', 'b']), 'attr': (('attr',), ['attr']),
    'laa': ((['a', 'a'],), ['a']), 'second': ((['second'],), ['second']),
    'other': (('other',), ['other']), 'empty': (('',), ['']),
    'none': (([],), []), 'notuple': (((),), []),
    'lempty': ((['', ''],), ['']),
    'lb': ((['b', 'attr', 'unknown'],), ['b', 'attr', 'unknown']),
}


class Boom(Exception):
    pass


class OwnBase(BaseException):
    pass


# ways to leave a block
LEAVE = [Boom, KeyError, StopIteration, StopAsyncIteration, GeneratorExit,
         KeyboardInterrupt, SystemExit, OwnBase, MemoryError, RuntimeError]


def suppressed(stack, ev):
    return any(x == ALL or ev in x for x in stack)


def notify(d, stack, ev, value, changed=True):
    """What d logs for ev under the suppressions in stack."""
    if suppressed(stack, ev) or not changed:
        return []
    if ev in ('attr', 'second'):
        return [('bound ' + ev, value), ('deco ' + ev, value)]
    return [('bound ' + ev, value)]


def compare(d, want, what):
    got = list(d.log)
    del d.log[:]
    if sorted(got, key=repr) != sorted(want, key=repr):
        fail('%s called %r, expected %r', what, got, want)


class Blocks(Machine):

    def __init__(self, kind, specs, depth, tag='', leave=False, fifo=False):
        self.leave = leave
        self.fifo = fifo
        self.kind = kind
        self.specs = specs
        self.depth = depth
        self.name = 'blocks-%s%s' % (kind, tag)

    def fresh(self):
        return State(ds=[make(self.kind), make('dispatcher')], stack=[],
                     objs=[], entered=[], val=0)

    def ops(self, s):
        for n in self.specs:
            yield ('enter', n)
            yield ('create', n)
        for i in range(len(s.objs)):
            if i < 2:
                yield ('reenter', i)
        if s.entered:
            yield ('exit', False)
            for i in range(len(LEAVE) if self.leave else 1):
                yield ('exit', True, i)
        for i in range(len(s.entered) - 1):
            # blocks of generators end in any order
            yield ('exitat', i)
        yield ('dispatch', 0, 'a')
        yield ('set', 0, 'attr')
        yield ('del', 0, 'attr')
        yield ('same', 0, 'second')

    def apply(self, s, op):
        kind = op[0]
        if kind in ('create', 'enter'):
            args, names = SPECS[op[1]]
            obj = suppress_events(*args)
            if kind == 'create':
                s.objs.append((obj, names))
                return
            return self.enter(s, obj, names)
        if kind == 'reenter':
            return self.enter(s, *s.objs[op[1]])
        if kind == 'exitat':
            obj = s.entered.pop(op[1])
            s.stack.pop(op[1])
            expect('leaving', outcome(obj.__exit__, None, None, None),
                   ('any',))
            return
        if kind == 'exit':
            obj = s.entered.pop()
            s.stack.pop()
            if op[1]:
                exc = LEAVE[op[2]]
                try:
                    raise exc()
                except exc as e:
                    out = outcome(obj.__exit__, exc, e, e.__traceback__)
            else:
                out = outcome(obj.__exit__, None, None, None)
            expect('leaving', out, ('any',))
            if out[1] and op[1]:
                fail('leaving swallows the exception')
            return
        d = s.ds[op[1]]
        del d.log[:]
        if kind == 'dispatch':
            d.dispatch(op[2], 1)
            compare(d, notify(d, s.stack, op[2], 1), 'dispatch')
        elif kind == 'set':
            s.val += 1
            setattr(d, op[2], s.val)
            compare(d, notify(d, s.stack, op[2], s.val), 'set')
        elif kind == 'same':
            setattr(d, op[2], getattr(d, op[2]))
            compare(d, notify(d, s.stack, op[2], getattr(d, op[2])), 'set')
        elif kind == 'del':
            from node.utils import UNSET
            store = d.attrs if self.kind == 'node' else d.__dict__
            have = 'attr' in store
            out = outcome(delattr, d, 'attr')
            if not have:
                if out[0] == 'ok':
                    fail('deleting an unset attribute succeeded')
                compare(d, [], 'failing delete')
                return 'unset'
            compare(d, notify(d, s.stack, 'attr', UNSET), 'delete')

    def enter(self, s, obj, names):
        out = outcome(obj.__enter__)
        expect('entering at depth %d' % len(s.stack), out,
               ('ok', len(s.stack) + 1))
        s.stack.append(names)
        s.entered.append(obj)

    def probe(self, s, what):
        for i, d in enumerate(s.ds):
            del d.log[:]
            for ev in ('a', 'b', '', 'attr', 'second'):
                if ev in ('a', 'b', ''):
                    d.dispatch(ev, 7)
                    compare(d, notify(d, s.stack, ev, 7),
                            '%s: dispatching %r' % (what, ev))
                else:
                    s.val += 1
                    setattr(d, ev, s.val)
                    compare(d, notify(d, s.stack, ev, s.val),
                            '%s: setting %r' % (what, ev))
                    # nothing is left over for others
                    d.dispatch('b', 8)
                    compare(d, notify(d, s.stack, 'b', 8),
                            '%s: dispatching after setting %r' % (what, ev))

    def look(self, s):
        self.probe(s, 'inside %r' % (s.stack,))

    def check(self, s):
        if s.val > 1000:
            return
        self.probe(s, 'inside %r' % (s.stack,))
        # unwind, probing on each level
        while s.entered:
            at = 0 if self.fifo else -1
            s.entered.pop(at).__exit__(None, None, None)
            s.stack.pop(at)
            self.probe(s, 'back in %r' % (s.stack,))


# ------------------------------------------------------------------ programs
def programs(size, specs):
    """All statement lists with at most size statements in total."""
    if size <= 0:
        yield ()
        return
    yield ()
    for first, used in statements(size, specs):
        for rest in programs(size - used, specs):
            yield (first,) + rest


def statements(size, specs):
    yield ('d', 'a'), 1
    yield ('set', 'attr'), 1
    if size < 2:
        return
    for spec in specs:
        for body in programs(size - 1, specs):
            if not body:
                continue
            n = 1 + count(body)
            if n <= size:
                yield ('with', spec, body), n
                yield ('raise', spec, body), n


def count(body):
    return sum(1 if x[0] in ('d', 'set') else 1 + count(x[2]) for x in body)


class Programs(Cases):
    """Real with statements."""

    def __init__(self, size, specs, reuse):
        self.size = size
        self.specs = specs
        self.reuse = reuse
        self.name = 'programs%s' % ('-reused' if reuse else '')

    def cases(self):
        return programs(self.size, self.specs)

    def run(self, case):
        d = make('dispatcher')
        self.val = 0
        objs = {n: suppress_events(*SPECS[n][0]) for n in self.specs}
        self.block(d, case, [], objs)
        for ev in ('a', 'b', '', 'attr', 'second'):
            self.dispatch(d, ev, [])
        return 'depth %d' % depth(case)

    def dispatch(self, d, ev, stack):
        self.val += 1
        if ev in ('attr', 'second'):
            setattr(d, ev, self.val)
        else:
            d.dispatch(ev, self.val)
        compare(d, notify(d, stack, ev, self.val), '%r in %r' % (ev, stack))

    def block(self, d, body, stack, objs):
        for x in body:
            if x[0] == 'd':
                self.dispatch(d, 'a', stack)
                self.dispatch(d, 'b', stack)
            elif x[0] == 'set':
                self.dispatch(d, 'attr', stack)
            else:
                args, names = SPECS[x[1]]
                obj = objs[x[1]] if self.reuse else suppress_events(*args)
                try:
                    with obj as level:
                        if level != len(stack) + 1:
                            fail('entering yields %r at depth %d', level,
                                 len(stack))
                        self.block(d, x[2], stack + [names], objs)
                        if x[0] == 'raise':
                            raise Boom()
                    if x[0] == 'raise':
                        fail('the exception was swallowed')
                except Boom:
                    pass


def depth(body):
    return max([0] + [1 + depth(x[2]) for x in body if x[0] in
                      ('with', 'raise')])


class Leaving(Cases):
    """Every way to leave nested blocks, generators included."""
    name = 'leaving'
    WAYS = [None, 'return', 'break', 'continue', 'close', 'throw'] + LEAVE

    def cases(self):
        for outer in (None, 'all', 'a', 'empty'):
            for spec in sorted(SPECS):
                for n in range(len(self.WAYS)):
                    for catch in ('inside', 'outside'):
                        yield (outer, spec, n, catch)

    def run(self, case):
        outer, spec, n, catch = case
        d = make('dispatcher')
        self.val = 0
        stack = []
        if outer is None:
            self.leave(d, stack, spec, self.WAYS[n], catch)
        else:
            names = SPECS[outer][1]
            way = self.WAYS[n]
            exc = way if inspect.isclass(way) else None
            try:
                with suppress_events(*SPECS[outer][0]):
                    self.leave(d, [names], spec, way, catch)
                    self.all(d, [names])
                    if exc is not None:
                        raise exc()
                if exc is not None:
                    fail('%s was swallowed', exc.__name__)
            except BaseException as e:
                if exc is None or not isinstance(e, exc):
                    raise
        self.all(d, [])
        return str(self.WAYS[n])

    def all(self, d, stack):
        for ev in ('a', 'b', '', 'attr', 'second'):
            self.val += 1
            if ev in ('attr', 'second'):
                setattr(d, ev, self.val)
            else:
                d.dispatch(ev, self.val)
            compare(d, notify(d, stack, ev, self.val), '%r in %r' % (
                ev, stack))

    def leave(self, d, stack, spec, way, catch):
        args, names = SPECS[spec]
        inner = stack + [names]
        if way in ('close', 'throw'):
            def gen():
                with suppress_events(*args):
                    self.all(d, inner)
                    yield 1
                    fail('the generator went on')
            g = gen()
            next(g)
            if way == 'close':
                g.close()
            else:
                out = outcome(g.throw, Boom())
                expect('throwing into a generator', out, ('raise', Boom))
            return
        if way in (None, 'return'):
            def func():
                with suppress_events(*args):
                    self.all(d, inner)
                    if way:
                        return 5
                return 6
            if func() != (5 if way else 6):
                fail('returned another value')
            return
        if way in ('break', 'continue'):
            for i in range(2):
                with suppress_events(*args):
                    self.all(d, inner)
                    if way == 'break':
                        break
                    continue
            return
        raised = way()
        try:
            if catch == 'inside':
                with suppress_events(*args):
                    try:
                        with suppress_events(*args):
                            raise raised
                        fail('%s was swallowed', way.__name__)
                    except way as e:
                        if e is not raised:
                            fail('another exception')
                        self.all(d, inner)
                    raise raised
            else:
                with suppress_events(*args):
                    self.all(d, inner)
                    raise raised
            fail('%s was swallowed', way.__name__)
        except way as e:
            if e is not raised:
                fail('another exception')


class Changing(Cases):
    """Lists of events which their owner changes or shares."""
    name = 'changing lists'
    CHANGES = {
        'clear': lambda x: x.__delitem__(slice(None)),
        'add': lambda x: x.append('b'), 'again': lambda x: x.append('a'),
        'drop': lambda x: x.pop(0), 'turn': lambda x: x.reverse(),
        'other': lambda x: x.__setitem__(0, 'b'), 'same': lambda x: None}

    def cases(self):
        for names in (('a',), ('a', 'attr'), ('a', 'a'), ('', 'b')):
            for one in sorted(self.CHANGES):
                for two in sorted(self.CHANGES):
                    for outer in (None, 'a', 'lb'):
                        for how in ('nested', 'after', 'again'):
                            yield (names, one, two, outer, how)

    def run(self, case):
        names, one, two, outer, how = case
        one, two = self.CHANGES[one], self.CHANGES[two]
        d = make('dispatcher')
        self.val = 0
        stack = []
        if outer is None:
            self.blocks(d, stack, list(names), one, two, how)
        else:
            with suppress_events(*SPECS[outer][0]):
                stack.append(SPECS[outer][1])
                self.blocks(d, stack, list(names), one, two, how)
                Leaving.all(self, d, stack)
            stack.pop()
        Leaving.all(self, d, stack)

    def blocks(self, d, stack, names, one, two, how):
        def probe():
            Leaving.all(self, d, stack)
        first = list(names)
        ctx = suppress_events(names)
        with ctx:
            stack.append(first)
            probe()
            one(names)
            probe()
            if names and how == 'nested':
                # the very same list names other events now
                second = list(names)
                with suppress_events(names):
                    stack.append(second)
                    probe()
                    two(names)
                    probe()
                stack.pop()
                probe()
        stack.pop()
        probe()
        if how == 'again':
            # entered again: still the events it was created for
            with ctx:
                stack.append(first)
                probe()
                if names:
                    two(names)
                probe()
            stack.pop()
            probe()
        elif how == 'after' and names:
            second = list(names)
            with suppress_events(names):
                stack.append(second)
                two(names)
                probe()
            stack.pop()
            probe()


class Deep(Cases):
    """Very many blocks within each other."""
    name = 'deep'

    def __init__(self, depths):
        self.depths = depths

    def cases(self):
        for depth in self.depths:
            for pattern in itertools.product(('a', 'lb', 'all'), repeat=2):
                for reuse in (True, False):
                    for raising in (True, False):
                        yield (depth, pattern, reuse, raising)

    def run(self, case):
        depth, pattern, reuse, raising = case
        d = make('dispatcher')
        self.val = 0
        made = {}
        stack = []

        def block(name):
            if not reuse or name not in made:
                made[name] = suppress_events(*SPECS[name][0])
            return made[name]

        def level(n):
            if n in (0, 1, depth // 2, depth - 1, depth):
                Leaving.all(self, d, stack)
            if n == depth:
                if raising:
                    raise Boom()
                return
            name = pattern[n % 2]
            try:
                with block(name) as count:
                    if count != n + 1:
                        fail('depth %d is given as %r', n + 1, count)
                    stack.append(SPECS[name][1])
                    level(n + 1)
            finally:
                stack.pop()
                if n in (0, 1, depth // 2, depth - 1):
                    Leaving.all(self, d, stack)
        if raising:
            expect('deep blocks', outcome(level, 0), ('raise', Boom))
        else:
            level(0)
        Leaving.all(self, d, stack)


class Interleaved(Cases):
    """Generators inside of blocks, advanced in any order."""
    name = 'interleaved'

    def __init__(self, steps):
        self.steps = steps

    def cases(self):
        specs = ('all', 'a', 'lb', 'attr', 'none', 'tab')
        for a in specs:
            for b in specs:
                for bits in range(2 ** self.steps):
                    yield (a, b, bits)

    def run(self, case):
        a, b, bits = case
        d = make('dispatcher')
        val = [0]
        active = []

        def gen(spec, n):
            args, names = SPECS[spec]
            for _ in range(2):
                with suppress_events(*args):
                    active.append((n, names))
                    yield
                    active.remove((n, names))
                yield

        def probe():
            stack = [names for _, names in active]
            for ev in ('a', 'b', '', 'attr', 'second'):
                val[0] += 1
                if ev in ('attr', 'second'):
                    setattr(d, ev, val[0])
                else:
                    d.dispatch(ev, val[0])
                compare(d, notify(d, stack, ev, val[0]), '%r in %r' % (
                    ev, active))
        gens = [gen(a, 0), gen(b, 1)]
        for i in range(self.steps):
            g = gens[bool(bits & 1 << i)]
            next(g, None)
            probe()
        # the first one first
        for n, g in enumerate(gens):
            g.close()
            active[:] = [x for x in active if x[0] != n]
            probe()
        return 'ok'


class FromSubscribers(Cases):
    """Subscribers which enter suppressions while being notified."""
    name = 'subscribers'

    def cases(self):
        for spec in sorted(SPECS):
            for ev in ('a', 'attr'):
                for how in ('with', 'raise', 'create', 'leak'):
                    for outer in (None, 'other', 'lb'):
                        yield (spec, ev, how, outer)

    def run(self, case):
        spec, ev, how, outer = case
        args, names = SPECS[spec]
        d, o = make('dispatcher'), make('dispatcher')
        keep = []

        def sub(*_):
            if how == 'create':
                suppress_events(*args)
                o.dispatch('a', 1)
                compare(o, notify(o, stack, 'a', 1), 'created only')
                return
            if how == 'leak':
                ctx = suppress_events(*args)
                ctx.__enter__()
                keep.append(ctx)
                return
            try:
                with suppress_events(*args):
                    o.dispatch('a', 1)
                    compare(o, notify(o, stack + [names], 'a', 1), 'inside')
                    o.attr = o.attr + 1
                    compare(o, notify(o, stack + [names], 'attr', o.attr),
                            'inside')
                    if how == 'raise':
                        raise Boom()
            except Boom:
                pass
            o.dispatch('a', 1)
            compare(o, notify(o, stack, 'a', 1), 'after block')
        d.unbind()
        d.bind(**{ev: sub})
        d.bind(**{ev: lambda *x: d.log.append(('last',) + x)})
        stack = []
        outerctx = None
        if outer:
            outerctx = suppress_events(*SPECS[outer][0])
            outerctx.__enter__()
            stack.append(SPECS[outer][1])
        withheld = suppressed(stack, ev)
        if ev == 'attr':
            d.attr = 5
            want = [('deco attr', 5), ('last', 5)]
        else:
            d.dispatch('a', 5)
            want = [('last', 5)]
        if withheld:
            want = []
        compare(d, want, 'dispatch with suppressing subscriber')
        for ctx in keep:
            ctx.__exit__(None, None, None)
        if outerctx is not None:
            outerctx.__exit__(None, None, None)
        del stack[:]
        d.unbind()
        d.bind(**{ev: lambda *x: d.log.append(('last',) + x)})
        for n in (6, 7):
            if ev == 'attr':
                d.attr = n
                compare(d, [('deco attr', n), ('last', n)], 'afterwards')
            else:
                d.dispatch('a', n)
                compare(d, [('last', n)], 'afterwards')
        return how


def tasks(tier):
    q = tier == 'quick'
    return [
        Blocks('dispatcher', ['all', 'a', 'attr'], 5 if q else 7),
        Blocks('dispatcher', sorted(SPECS), 3 if q else 4, '-specs'),
        Blocks('dispatcher', ['a', 'empty'], 3 if q else 4, '-leaving', True),
        Leaving(),
        Changing(),
        Deep((3, 9, 17, 33, 70) if q else (3, 9, 17, 33, 70, 130, 260)),
        Interleaved(4 if q else 6),
        Blocks('dispatcher', ['all', 'tab', 'none'], 4 if q else 6, '-fifo',
               fifo=True),
        Blocks('node', ['all', 'attr', 'tab'], 4 if q else 5),
        Programs(5 if q else 6, ['all', 'a'], False),
        Programs(5 if q else 6, ['a', 'attr'], True),
        FromSubscribers(),
    ]
