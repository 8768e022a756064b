"""C26: serializer registrations and simple mode."""
from mc import shapes
from mc.checks.c25 import AccessNode
from mc.checks.c25 import ATOMS
from mc.checks.c25 import Composed
from mc.checks.c25 import function
from mc.checks.c25 import Outer
from mc.checks.c25 import allowed
from mc.checks.c25 import unwrapped
from mc.core import Cases
from mc.core import describe_exc
from mc.core import fail
from mc.core import outcome
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.interfaces import IAttributes
from node.interfaces import INode
from node.interfaces import IOrder
from node.serializer import deserialize
from node.serializer import NodeEncoder
from node.serializer import deserializer
from node.serializer import serialize
from node.serializer import serializer
from node.testing.env import MyNode
from node.utils import UNSET
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import classImplements
from zope.interface import implementer
from zope.interface import noLongerProvides
import abc
import inspect
import itertools
import json
import uuid

TECHNIQUE = ('complete enumeration of registrations (subsets and orders), node '
             'types, modes and small trees; calls and emitted data of the real '
             'code are compared with an independent reference')
LEVEL_NOTE = (
    'All ordered selections of up to 4 (6) registrations out of 15 interfaces '
    'and classes (abstract ones with registered or computed subclasses too), before and after the built-in ones, on 7 node types; all '
    'trees up to 4 nodes, all value atoms in both simple modes; one callback '
    'registered for several interfaces or classes; serializations in any mode '
    'inside of any other, three deep.')
ASSUMPTIONS = ['one registration per interface or class: registering again '
               'replaces the callback and keeps the position']


class IOne(Interface):
    pass


class ITwo(IOne):
    """Extends the other interface."""


class IThree(Interface):
    """Provided by single instances."""


class Plain(OrderedNode):
    pass


@implementer(IOne)
class One(OrderedNode):
    pass


@implementer(ITwo)
class Two(AttributedNode):
    pass


class SubOne(One):
    pass


@implementer(IThree)
class Both(SubOne):
    pass


class IFour(Interface):
    """Provided directly by every instance of a class."""


class Marking(OrderedNode):

    def __init__(self, name=None, parent=None):
        super(Marking, self).__init__(name=name, parent=parent)
        alsoProvides(self, IFour)


class NoNodeMixin(object):
    """A class which is no node class."""


class Mixed(NoNodeMixin, Plain):
    pass


class Virtual(abc.ABC):
    """Its subclasses are registered."""


Virtual.register(SubOne)
Virtual.register(NoNodeMixin)


class Hooked(abc.ABC):
    """Its subclasses are told by what they have."""

    @classmethod
    def __subclasshook__(cls, other):
        return hasattr(other, 'attrs')


NODES = [Plain, One, Two, SubOne, Both, Mixed, Marking, 'marked']
# matching rules of interfaces and classes, by hand
POOL = [
    ('IOne', IOne, {One, Two, SubOne, Both}),
    ('ITwo', ITwo, {Two}),
    ('IThree', IThree, {Both, 'marked'}),
    ('IFour', IFour, {Marking}),
    ('IOrder', IOrder, {Two}),
    ('Plain', Plain, {Plain, Mixed, 'marked'}),
    ('One', One, {One, SubOne, Both}),
    ('Two', Two, {Two}),
    ('SubOne', SubOne, {SubOne, Both}),
    ('NoNodeMixin', NoNodeMixin, {Mixed}),
    ('Virtual', Virtual, {SubOne, Both, Mixed}),
    ('Hooked', Hooked, {Two}),
    ('object', object, set(NODES)),
]


def make(kind, name=None):
    if kind == 'marked':
        node = Plain(name=name)
        alsoProvides(node, IThree)
        return node
    return kind(name=name)


class Registry(object):
    """Registers for a while."""

    def __init__(self, cls):
        self.cls = cls

    def __enter__(self):
        self.kept = list(self.cls.registry.items())
        return self

    def __exit__(self, *args):
        self.cls.registry.clear()
        for k, v in self.kept:
            self.cls.registry[k] = v


class Registrations(Cases):
    """Which callbacks are called, in which order."""
    chunk = 50

    def __init__(self, size):
        self.size = size
        self.name = 'registrations up to %s' % size

    def cases(self):
        for n in range(self.size + 1):
            for combo in itertools.permutations(range(len(POOL)), n):
                yield combo

    def run(self, case):
        with Registry(serializer), Registry(deserializer):
            self.register_and_run(case)

    def register_and_run(self, case):
        log = []
        for i in case:
            name, cls, match = POOL[i]

            def callback(encoder, node, data, name=name):
                log.append(('s', name, node))
                data['own_' + name] = name
            if serializer(cls)(callback) is not callback:
                fail('registering a serializer does not return it')

            def back(decoder, node, data, name=name):
                log.append(('d', name, type(node), node.name, dict(data)))
                node.__dict__['own_' + name] = data['own_' + name]
            if deserializer(cls)(back) is not back:
                fail('registering a deserializer does not return it')
        for kind in NODES:
            node = make(kind, 'x')
            want = [POOL[i][0] for i in case if kind in POOL[i][2]]
            del log[:]
            data = json.loads(serialize(node))['__node__']
            got = [(n, ob) for s, n, ob in log]
            if [n for n, ob in got] != want:
                fail('%s: serializers called %s, expected %s', kind,
                     [n for n, ob in got], want)
            if any(ob is not node for n, ob in got):
                fail('%s: serializers called with %s', kind, got)
            keys = ['class', 'name'] + (['attrs'] if kind is Two else [])
            if sorted(data) != sorted(keys + ['own_' + n for n in want]):
                fail('%s: data %s', kind, data)
            # the same in simple mode
            for include in (False, True):
                del log[:]
                simple = json.loads(serialize(node, simple_mode=True,
                                              include_class=include))
                if [n for s, n, ob in log] != want:
                    fail('%s: serializers called in simple mode %s, expected '
                         '%s', kind, log, want)
                expected = dict(data)
                if not include:
                    del expected['class']
                if simple != expected:
                    fail('%s: simple data %s, expected %s', kind, simple,
                         expected)
            if kind == 'marked':
                # what single instances provide is not serialized
                want = [POOL[i][0] for i in case if Plain in POOL[i][2]]
                data = dict(data)
            del log[:]
            back = deserialize(json.dumps({'__node__': data}))
            if [c[1] for c in log] != want:
                fail('%s: deserializers called %s, expected %s', kind,
                     [c[1] for c in log], want)
            for c in log:
                if c[2] is not type(back) or c[3] != 'x':
                    fail('%s: deserializer called with %s', kind, c)
            for name in want:
                if back.__dict__.get('own_' + name) != name:
                    fail('%s: deserializer got other data', kind)
        # every node of a tree
        top = Both(name='top')
        top['a'] = One()
        top['a']['b'] = Mixed()
        top['c'] = make('marked')
        del log[:]
        text = serialize(top)
        kinds = {top: Both, top['a']: One, top['a']['b']: Mixed,
                 top['c']: 'marked'}
        for node, kind in kinds.items():
            want = [POOL[i][0] for i in case if kind in POOL[i][2]]
            if [c[1] for c in log if c[2] is node] != want:
                fail('in a tree, serializers called for %s: %s', kind, log)
        if len(log) != sum(len([1 for i in case if k in POOL[i][2]])
                           for k in kinds.values()):
            fail('in a tree, serializers called: %s', log)
        del log[:]
        deserialize(text)
        for name, kind in [('top', Both), ('a', One), ('b', Mixed),
                           ('c', Plain)]:
            want = [POOL[i][0] for i in case if kind in POOL[i][2]]
            if [c[1] for c in log if c[3] == name] != want:
                fail('in a tree, deserializers called for %s: %s', name, log)


class SameCallback(Cases):
    """One function, or equal ones, for several registrations."""
    name = 'one callback for several'
    chunk = 50

    def __init__(self, size):
        self.size = size

    def cases(self):
        for n in range(2, self.size + 1):
            for combo in itertools.combinations(range(len(POOL)), n):
                for way in ('function', 'method', 'equal', 'falsy'):
                    yield (combo, way)

    class Equal(object):

        def __init__(self, fn):
            self.fn = fn

        def __eq__(self, other):
            return isinstance(other, SameCallback.Equal)

        def __ne__(self, other):
            return not self == other

        def __hash__(self):
            return 1

        def __call__(self, *args):
            self.fn(*args)

        method = __call__

    class Falsy(Equal):

        def __len__(self):
            return 0

    def run(self, case):
        combo, way = case
        log = []

        def call(coder, node, data):
            log.append((node, data))
            if isinstance(coder, NodeEncoder):
                data['count'] = data.get('count', 0) + 1
        with Registry(serializer), Registry(deserializer):
            for i in combo:
                callback = {
                    'function': lambda: call,
                    'method': lambda: self.Equal(call).method,
                    'equal': lambda: self.Equal(call),
                    'falsy': lambda: self.Falsy(call)}[way]()
                serializer(POOL[i][1])(callback)
                deserializer(POOL[i][1])(callback)
            for kind in NODES:
                want = len([i for i in combo if kind in POOL[i][2]])
                node = make(kind, 'x')
                for mode in ({}, {'simple_mode': True}):
                    del log[:]
                    data = json.loads(serialize(node, **mode))
                    data = data.get('__node__', data)
                    if len(log) != want or data.get('count', 0) != want:
                        fail('%s: callback called %d times, expected %d',
                             kind, len(log), want)
                if kind == 'marked':
                    want = len([i for i in combo if Plain in POOL[i][2]])
                del log[:]
                deserialize(serialize(node))
                if len(log) != want + len(
                        [i for i in combo if kind in POOL[i][2]]):
                    fail('%s: callback called %d times for both directions',
                         kind, len(log))


class Builtin(Cases):
    """Callbacks registered before, between and after the built-in ones."""
    name = 'position of registrations'

    def cases(self):
        for order in itertools.permutations(
                ['INode', 'IAttributes', 'own', 'other']):
            yield order

    def run(self, case):
        with Registry(serializer), Registry(deserializer):
            ser = dict(serializer.registry.items())
            des = dict(deserializer.registry.items())
            serializer.registry.clear()
            deserializer.registry.clear()
            seen = []

            def callback(name):
                def call(encoder, node, data):
                    if node.name == 'root':
                        seen.append((name, 'children' in data,
                                     'attrs' in data))
                return call

            def back(name):
                def call(decoder, node, data):
                    if node.name == 'root':
                        seen.append((name, list(node.keys()),
                                     list(node.attrs.keys())))
                return call
            for what in case:
                if what == 'INode':
                    serializer(INode)(ser[INode])
                    deserializer(INode)(des[INode])
                elif what == 'IAttributes':
                    serializer(IAttributes)(ser[IAttributes])
                    deserializer(IAttributes)(des[IAttributes])
                else:
                    key = Two if what == 'own' else IOne
                    serializer(key)(callback(what))
                    deserializer(key)(back(what))
            node = Two(name='root')
            node['c'] = Two()
            node.attrs['a'] = 1
            text = serialize(node)
            pos = list(case).index
            want = [(w, pos('INode') < pos(w), pos('IAttributes') < pos(w))
                    for w in case if w in ('own', 'other')]
            if seen != want:
                fail('order of serializers: %s, expected %s', seen, want)
            del seen[:]
            deserialize(text)
            want = [(w, ['c'] if pos('INode') < pos(w) else [],
                     ['a'] if pos('IAttributes') < pos(w) else [])
                    for w in case if w in ('own', 'other')]
            if seen != want:
                fail('order of deserializers: %s, expected %s', seen, want)


class Again(Cases):
    """Registering again replaces, registering one side only."""
    name = 'registering again'

    def cases(self):
        for i in range(len(POOL)):
            for j in range(len(POOL)):
                if i != j:
                    yield (i, j)

    def run(self, case):
        with Registry(serializer), Registry(deserializer):
            i, j = case
            log = []

            def call(tag):
                def callback(coder, node, data):
                    log.append(tag)
                return callback
            serializer(POOL[i][1])(call('old'))
            serializer(POOL[j][1])(call('second'))
            serializer(POOL[i][1])(call('new'))
            for kind in NODES:
                del log[:]
                text = serialize(make(kind))
                want = (['new'] if kind in POOL[i][2] else []) + (
                    ['second'] if kind in POOL[j][2] else [])
                if log != want:
                    fail('%s: called %s, expected %s', kind, log, want)
                # nothing registered for deserializing
                del log[:]
                deserialize(text)
                if log:
                    fail('%s: serializers called for deserializing', kind)


class Provided(Cases):
    """Single instances providing more or less than their class, changing
    between encodings of one encoder or of several."""
    name = 'provided by instances'
    chunk = 20
    STEPS = ['+0', '-0', '+1', '-1', '+2', 'class', 'abc', 'reg']

    def __init__(self, depth):
        self.depth = depth
        self.name = 'provided by instances up to %s' % depth

    def cases(self):
        for n in range(self.depth + 1):
            for steps in itertools.product(self.STEPS, repeat=n):
                for mode in ('serialize', 'one encoder', 'simple'):
                    yield (steps, mode)

    def run(self, case):
        with Registry(serializer), Registry(deserializer):
            self.changes(*case)

    def changes(self, steps, mode):
        class Local(OrderedNode):
            pass

        class Base(abc.ABC):
            pass
        Local.__qualname__ = 'Plain'
        log = []
        order = [('IThree', IThree), ('IFour', IFour), ('Base', Base)]

        def register(name, cls):
            def callback(encoder, node, data):
                log.append((name, node))
            serializer(cls)(callback)
        for name, cls in order:
            register(name, cls)
        top = Local(name='top')
        nodes = [top, Local(), Local(), Local()]
        for n, node in enumerate(nodes[1:]):
            top[str(n)] = node
        provided = dict((node, set()) for node in nodes)
        encoders = [NodeEncoder(), NodeEncoder()]

        def look():
            for _ in range(2):
                del log[:]
                if mode == 'serialize':
                    serialize(top)
                elif mode == 'simple':
                    serialize(top, simple_mode=True)
                else:
                    encoders[0].encode(top)
                for node in nodes:
                    got = [n for n, ob in log if ob is node]
                    want = [n for n, _ in order if n in provided[node]]
                    if got != want:
                        fail('called for %s: %s, expected %s', node.name, got,
                             want)
        look()
        for step in steps:
            if step[0] in '+-':
                i = int(step[1])
                node = nodes[i + 1] if i < 2 else top
                if step[0] == '+':
                    alsoProvides(node, IThree)
                    provided[node].add('IThree')
                elif 'IThree' in provided[node]:
                    noLongerProvides(node, IThree)
                    provided[node].discard('IThree')
            elif step == 'class':
                classImplements(Local, IFour)
                for node in nodes:
                    provided[node].add('IFour')
            elif step == 'abc':
                Base.register(Local)
                for node in nodes:
                    provided[node].add('Base')
            elif len(order) == 3:
                order.append(('Local', Local))
                register('Local', Local)
                for node in nodes:
                    provided[node].add('Local')
            look()


def plain(val, include, dotted):
    """What simple mode has to emit."""
    if val is UNSET:
        return '<UNSET>'
    if isinstance(val, uuid.UUID):
        return '<UUID>:%s' % val
    if inspect.isclass(val) or inspect.isfunction(val):
        return '%s.%s' % (val.__module__, val.__qualname__)
    if isinstance(val, list):
        return [plain(v, include, dotted) for v in val]
    if isinstance(val, dict):
        return dict((k, plain(v, include, dotted)) for k, v in val.items())
    if INode.providedBy(val):
        ret = {}
        if include:
            ret['class'] = '%s.%s' % (type(val).__module__,
                                      type(val).__qualname__)
        ret['name'] = val.name
        if val.keys():
            ret['children'] = [plain(v, include, dotted)
                               for v in val.values()]
        if hasattr(type(val), 'attrs'):
            attrs = unwrapped(val.attrs)
            ret['attrs'] = dict((k, plain(attrs[k], include, dotted))
                                for k in attrs.keys())
        return ret
    return val


def ordered(x):
    """Comparable form keeping the order of children and attributes."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            out[k] = ordered(v)
        if 'attrs' in out and isinstance(x['attrs'], dict):
            out['attrs'] = [(k, ordered(v)) for k, v in x['attrs'].items()]
        return out
    if isinstance(x, list):
        return [ordered(v) for v in x]
    return (type(x).__name__, repr(x))


CLASSES = [BaseNode, OrderedNode, AttributedNode, Node, MyNode, AccessNode,
           Composed, Outer.Inner.Innermost]


class Simple(Cases):

    def __init__(self, n, classes):
        self.shapes = shapes.shapes(n)
        self.n = n
        self.classes = classes
        self.name = 'simple mode, %s nodes' % n

    def cases(self):
        for i, shape in enumerate(self.shapes):
            for combo in itertools.product(range(len(self.classes)),
                                           repeat=self.n):
                if all(p < 0 or allowed(self.classes[combo[p]],
                                        self.classes[combo[j]])
                       for j, p in enumerate(shape)):
                    yield (i,) + combo

    def run(self, case):
        nodes = []
        for i, p in enumerate(self.shapes[case[0]]):
            node = self.classes[case[i + 1]]()
            if p < 0:
                node.__name__ = [None, 'root', '', 0][sum(case) % 4]
            else:
                nodes[p]['k%s' % (9 - i)] = node
            nodes.append(node)
            if hasattr(type(node), 'attrs'):
                attrs = unwrapped(node.attrs)
                for j in range(i):
                    attrs['z%s' % (9 - j)] = ATOMS[
                        (i * 5 + sum(case) + j) % len(ATOMS)]
                attrs['a'] = {'x': [i, UNSET], 'a': OrderedNode}
        self.compare(nodes[0])
        self.compare([nodes[-1], {'k': nodes[0]}])

    def compare(self, val):
        for include in (False, True):
            out = outcome(serialize, val, simple_mode=True,
                          include_class=include)
            if out[0] != 'ok':
                fail('simple mode raised %s', describe_exc(out[1]))
            got = ordered(json.loads(out[1]))
            want = ordered(json.loads(json.dumps(plain(val, include, None))))
            if got != want:
                fail('simple mode%s: %s, expected %s',
                     ' with class' if include else '', got, want)
        # classes are not left out otherwise
        if serialize(val, include_class=False) != serialize(val) or \
                serialize(val, simple_mode=True) != serialize(
                    val, simple_mode=True, include_class=False):
            fail('defaults of simple mode')
        # one mode does not influence the other
        if '__node__' not in serialize(val):
            fail('simple mode sticks')


class SimpleValues(Cases):
    name = 'simple mode, values'

    def cases(self):
        for i in range(len(ATOMS)):
            for j in range(len(ATOMS)):
                if i == j or j % 4 == 0:
                    yield (i, j)

    def run(self, case):
        v, w = ATOMS[case[0]], ATOMS[case[1]]
        node = Node(name='x')
        node.attrs['z'] = v
        node.attrs['a'] = [w, {'k': v, 'b': [w]}]
        node['c'] = Node()
        node['c'].attrs['n'] = w
        node.attrs['n'] = OrderedNode(name='n')
        node.attrs['n']['m'] = OrderedNode()
        Simple.compare(None, node)
        for val in (v, [v, w], {'k': v}):
            for include in (False, True):
                got = ordered(json.loads(serialize(
                    val, simple_mode=True, include_class=include)))
                want = ordered(json.loads(json.dumps(plain(val, 0, 0))))
                if got != want:
                    fail('%r: %s, expected %s', val, got, want)


class Data(Cases):
    """Data added by callbacks lands directly inside the simple dictionary,
    callbacks may encode parts themselves."""
    name = 'simple mode, own data'

    def cases(self):
        for i in range(len(ATOMS)):
            yield (i,)

    def run(self, case):
        val = ATOMS[case[0]]
        with Registry(serializer), Registry(deserializer):
            @serializer(IOne)
            def own(encoder, node, data):
                data['own'] = encoder.default(val)
                data['nested'] = {'k': [val]}
                data['function'] = function

            node = One(name='x')
            for include in (False, True):
                data = json.loads(serialize(node, simple_mode=True,
                                            include_class=include))
                p = json.loads(json.dumps(plain(val, 0, 0)))
                want = {'name': 'x', 'own': p, 'nested': {'k': [p]},
                        'function': 'mc.checks.c25.function'}
                if include:
                    want['class'] = 'mc.checks.c26.One'
                if ordered(data) != ordered(want):
                    fail('%s, expected %s', data, want)
            if isinstance(val, (list, dict)):
                return
            got = {}

            @deserializer(IOne)
            def back(decoder, node, data):
                got['own'] = decoder.decode(data['own'])
                got['nested'] = decoder.decode(data['nested'])
            deserialize(serialize(node))
            if ordered([got['own'], got['nested']]) != ordered(
                    [val, {'k': [val]}]):
                fail('own data came back as %s', got)


class Boom(Exception):
    pass


class Direct(Cases):
    """The encoder used without the convenience function."""
    name = 'encoder used directly'

    def cases(self):
        for i in range(len(ATOMS)):
            for j in range(len(CLASSES)):
                yield (i, j)

    def run(self, case):
        val = ATOMS[case[0]]
        node = CLASSES[case[1]](name='x')
        if hasattr(type(node), 'attrs'):
            unwrapped(node.attrs)['z'] = val
        sub = CLASSES[case[1]]
        node['c'] = sub()

        class Names(NodeEncoder):
            simple_mode = True

        class NoNames(Names):
            include_class = False

        for ob in (val, node, [node, val]):
            for what, got, want in (
                ('typed', json.dumps(ob, cls=NodeEncoder), serialize(ob)),
                ('typed', NodeEncoder().encode(ob), serialize(ob)),
                ('typed without class',
                 json.dumps(ob, cls=NodeEncoder, include_class=False),
                 serialize(ob)),
                ('simple', json.dumps(ob, cls=NodeEncoder, simple_mode=True),
                 serialize(ob, True, True)),
                ('simple without class', json.dumps(
                    ob, cls=NodeEncoder, simple_mode=True,
                    include_class=False), serialize(ob, True)),
                ('simple by class', json.dumps(ob, cls=Names),
                 serialize(ob, True, True)),
                ('simple by class without class', json.dumps(ob, cls=NoNames),
                 serialize(ob, True)),
                ('typed by class', json.dumps(ob, cls=NoNames,
                                              simple_mode=False),
                 serialize(ob)),
            ):
                if got != want:
                    fail('%s %r: %s, expected %s', what, ob, got, want)
            pretty = json.dumps(ob, cls=NodeEncoder, indent=1, sort_keys=True)
            if repr(json.loads(pretty)) != repr(json.loads(
                    json.dumps(json.loads(serialize(ob)), sort_keys=True))):
                fail('options of json change the data: %s', pretty)


class Entering(Cases):
    """Callbacks which fail, serialize and register themselves."""
    name = 'callbacks with effects'

    def cases(self):
        for way in ('fails', 'serializes', 'deserializes', 'one side'):
            for k in range(len(POOL)):
                for where in range(3):
                    yield (way, k, where)

    def run(self, case):
        with Registry(serializer), Registry(deserializer):
            self.both(case)

    def both(self, case):
        way, k, where = case
        name, cls, match = POOL[k]
        kinds = [kind for kind in NODES if kind in match
                 and (kind != 'marked' or Plain in match)]
        if not kinds:
            return
        log = []

        def tree():
            top = make(kinds[0], 'top')
            kid = top['kid'] = make(kinds[-1])
            kid['last'] = make(kinds[0])
            return top

        before = serialize(tree())
        target = ('top', 'kid', 'last')[where]

        @serializer(cls)
        def out(encoder, node, data):
            if node.name != target:
                return
            log.append('out')
            if way == 'fails':
                raise Boom('out')
            if way == 'serializes':
                data['inner'] = serialize(OrderedNode(name='i'), True)
            if way == 'deserializes':
                deserialize(serialize(OrderedNode(name='i')))

        if way != 'one side':
            @deserializer(cls)
            def back(decoder, node, data):
                if node.name != target:
                    return
                log.append('back')
                if way == 'fails':
                    raise Boom('back')
                serialize(OrderedNode(name='i'), True)
                node.__dict__['own'] = deserialize(
                    serialize([OrderedNode(name='i')]))
                if way == 'serializes':
                    node.__dict__['inner'] = data['inner']

        got = outcome(serialize, tree())
        if way == 'fails':
            if got[0] != 'raise' or not isinstance(got[1], Boom):
                fail('failure of a serializer ends with %s', got)
        else:
            data = json.loads(got[1]) if got[0] == 'ok' else None
            inner = data and data['__node__']
            for step in range(where):
                inner = inner['children'][0]['__node__']
            extra = inner and inner.pop('inner', None)
            if data != json.loads(before):
                fail('%s: serialized %s, expected %s', way, got, before)
            if way == 'serializes' and json.loads(extra) != {'name': 'i'}:
                fail('serialized by a callback: %s', extra)
        text = before if way in ('fails', 'one side') else got[1]
        got = outcome(deserialize, text)
        if way == 'fails':
            if got[0] != 'raise' or not isinstance(got[1], Boom):
                fail('failure of a deserializer ends with %s', got)
        elif got[0] != 'ok':
            fail('deserializing raised %s', describe_exc(got[1]))
        else:
            node = got[1]
            for step, key in enumerate(('kid', 'last', None)):
                own = node.__dict__.get('own')
                if (own is not None) is not (
                        step == where and way != 'one side'):
                    fail('data of callback on %s', node)
                if own is not None and (len(own) != 1 or own[0].name != 'i'
                                        or own[0].parent is not None):
                    fail('deserialized by a callback: %s', own)
                if node.keys() != ([key] if key else []):
                    fail('children of %s: %s', node, node.keys())
                if key:
                    node = node[key]
        want = ['out'] if way == 'one side' else ['out', 'back']
        if log != want:
            fail('called %s, expected %s', log, want)
        # and nothing of it sticks
        del serializer.registry[cls]
        deserializer.registry.pop(cls, None)
        if serialize(tree()) != before:
            fail('%s: serialized differently afterwards', way)
        deserialize(before)


def typed(ob):
    return serialize(ob)


def typed_keyword(ob):
    return serialize(ob, simple_mode=False, include_class=False)


def simple(ob):
    return serialize(ob, simple_mode=True)


def simple_class(ob):
    return serialize(ob, True, True)


def encoder(ob):
    return json.dumps(ob, cls=NodeEncoder)


def encoder_simple(ob):
    return json.dumps(ob, cls=NodeEncoder, simple_mode=True,
                      include_class=False)


def encoder_simple_class(ob):
    return NodeEncoder(simple_mode=True).encode(ob)


MODES = (typed, simple, simple_class, typed_keyword, encoder, encoder_simple,
         encoder_simple_class)


class Modal(AttributedNode):
    pass


class Modes(Cases):
    """Callbacks which serialize, in whatever mode, while the node is being
    serialized in another one."""
    name = 'modes inside modes'

    def __init__(self, levels):
        self.levels = levels
        self.name = '%d modes inside each other' % levels

    def cases(self):
        for plan in itertools.product(range(len(MODES)), repeat=self.levels):
            yield plan

    def tree(self):
        top = Modal(name='top')
        for key in ('first', 'mid', 'last'):
            node = top[key] = Modal()
            node.attrs['ref'] = [Modal, UNSET]
        return top

    def run(self, plan):
        modes = [MODES[i] for i in plan]
        with Registry(serializer), Registry(deserializer):
            @serializer(Modal)
            def quiet(encoder, node, data):
                data['own'] = [Modal]
            alone = [mode(self.tree()) for mode in modes]
        for way in ('ok', 'fails', 'twice', 'reads'):
            with Registry(serializer), Registry(deserializer):
                texts = self.nested(modes, way)
            if texts != alone:
                fail('%s nested (%s): %s, expected %s', [
                    m.__name__ for m in modes], way, texts, alone)
            with Registry(serializer), Registry(deserializer):
                @serializer(Modal)
                def again(encoder, node, data):
                    data['own'] = [Modal]
                after = [mode(self.tree()) for mode in reversed(modes)]
            if after[::-1] != alone:
                fail('%s after nesting (%s): %s, expected %s', [
                    m.__name__ for m in modes], way, after, alone)

    def nested(self, modes, way):
        texts = [None] * len(modes)
        level = [0]

        @serializer(Modal)
        def entering(encoder, node, data):
            data['own'] = [Modal]
            if node.name != 'mid':
                return
            here = level[0]
            if here + 1 == len(modes):
                return
            level[0] += 1
            try:
                for n in range(2 if way == 'twice' else 1):
                    texts[here + 1] = modes[here + 1](self.tree())
                if way == 'reads':
                    deserialize(serialize(self.tree()))
            finally:
                level[0] -= 1
            if way == 'fails':
                # a serialization ending by an error
                got = outcome(modes[here + 1], [OrderedNode(), object()])
                if got[0] != 'raise':
                    fail('an object without representation: %s', got)
        texts[0] = modes[0](self.tree())
        return texts


def tasks(tier):
    quick = tier == 'quick'
    out = [Registrations(4 if quick else 6), Builtin(), Again(),
           SameCallback(3 if quick else 4)]
    for n in (1, 2, 3):
        out.append(Simple(n, CLASSES))
    out.append(Simple(4, CLASSES[:4] if quick else CLASSES))
    if not quick:
        out.append(Simple(5, CLASSES[:4]))
    out.append(Provided(3 if quick else 4))
    out += [SimpleValues(), Data(), Direct(), Entering(),
            Modes(2), Modes(3)]
    return out
