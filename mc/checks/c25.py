"""C25: serialize and deserialize."""
from mc import shapes
from mc.core import Cases
from mc.core import describe_exc
from mc.core import fail
from mc.core import outcome
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import NodeAttributes
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.interfaces import INode
from node.interfaces import IReference
from node.serializer import deserialize
from node.serializer import deserializer
from node.serializer import serialize
from node.serializer import serializer
from node.testing.env import MyNode
from node.utils import AttributeAccess
from node.utils import UNSET
from plumber import plumbing
from zope.interface import Interface
from zope.interface import implementer
import copy
import inspect
import itertools
import json
import uuid

TECHNIQUE = ('complete enumeration of trees, classes, names and nested values '
             'up to a size; every one is serialized and deserialized by the '
             'real code and compared node by node and value by value')
LEVEL_NOTE = (
    'All tree shapes up to 4 (5) nodes with every assignment of five (eleven) '
    'classes, with children and attributes of their own from the start or not, '
    'all values nested up to two (three) levels over 31 atoms in every '
    'context, with and without root. The comparison is written '
    'independently of the code and trusted.')
ASSUMPTIONS = ['dictionary keys and attribute names are strings, lists are not '
               'tuples (JSON)', 'node names are strings, numbers or None',
               'children are nodes']


class AccessNode(AttributedNode):
    attribute_access_for_attrs = True


@plumbing(Adopt, Nodespaces, Attributes, DefaultInit, Nodify, OdictStorage)
class Composed(object):
    pass


class IKeyworded(Interface):
    pass


@implementer(IKeyworded)
class Keyworded(AttributedNode):
    """Needs keyword arguments to be created and has data of its own."""
    extra = None

    def __init__(self, first, second=None):
        super(Keyworded, self).__init__()
        self.first = first
        self.second = second


@serializer(IKeyworded)
def serialize_keyworded(encoder, node, data):
    data['kw'] = {'first': node.first, 'second': node.second}
    data['extra'] = node.extra


@deserializer(IKeyworded)
def deserialize_keyworded(decoder, node, data):
    node.extra = decoder.decode(data['extra'])


class Made(OrderedNode):
    """Has children as soon as it is created."""

    def __init__(self, *args, **kw):
        super(Made, self).__init__(*args, **kw)
        self['own'] = BaseNode()
        self['own']['deep'] = OrderedNode()
        self['k8'] = OrderedNode()
        self['c'] = BaseNode()


class MadeAttrs(AttributedNode):
    """Has attributes as soon as it is created."""

    def __init__(self, *args, **kw):
        super(MadeAttrs, self).__init__(*args, **kw)
        self.attrs['v'] = 'default'
        self.attrs['z1'] = [1]
        self['k7'] = AttributedNode()
        self['k7'].attrs['default'] = UNSET


class Outer(object):

    class Inner(OrderedNode):

        class Innermost(AttributedNode):
            pass

    def method(self):
        pass

    @staticmethod
    def static():
        pass


def function():
    pass


CLASSES = [BaseNode, OrderedNode, AttributedNode, Node, MyNode, AccessNode,
           Composed, Outer.Inner, Outer.Inner.Innermost, Made, MadeAttrs]
ATOMS = [
    None, True, False, 0, 1, -1, 2 ** 70, 0.5, -0.0, 1e300, float('inf'),
    float('nan'), '', 'text', 'ü€😀', '\ud800', 'a"\\/\n\x00', 'null', '<UNSET',
    'UUID', UNSET, uuid.UUID(int=0),
    uuid.UUID('fcb30f5a-20c7-43aa-9537-2a25fef0248d'), OrderedNode,
    Outer.Inner.Innermost, dict, function, serialize, Outer.method,
    Outer.static, '__node__']
KEYS = ['k', '', 'ü', 'name', '0', '<UNSET>', 'a.b']


def unwrapped(attrs):
    if isinstance(attrs, AttributeAccess):
        return object.__getattribute__(attrs, 'context')
    return attrs


def same(a, b, at='value'):
    """a is the original, b what came back."""
    if INode.providedBy(a) and not inspect.isclass(a):
        return same_node(a, b, at)
    if type(a) is not type(b):
        fail('%s: %r came back as %r', at, a, b)
    if isinstance(a, dict):
        if list(a) != list(b):
            fail('%s: keys %r came back as %r', at, list(a), list(b))
        for k in a:
            same(a[k], b[k], '%s[%r]' % (at, k))
    elif isinstance(a, list):
        if len(a) != len(b):
            fail('%s: %r came back as %r', at, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '%s[%s]' % (at, i))
    elif a is UNSET or inspect.isclass(a) or inspect.isfunction(a):
        if a is not b:
            fail('%s: %r came back as %r', at, a, b)
    elif repr(a) != repr(b):
        fail('%s: %r came back as %r', at, a, b)


def same_node(a, b, at):
    if type(a) is not type(b):
        fail('%s: %r came back as %r', at, a, b)
    if type(a.name) is not type(b.name) or a.name != b.name:
        fail('%s: name %r came back as %r', at, a.name, b.name)
    ours, theirs = list(a.keys()), list(b.keys())
    if ours != theirs:
        fail('%s: children %r came back as %r', at, ours, theirs)
    if isinstance(a, Keyworded):
        same(a.first, b.first, at + '.first')
        same(a.second, b.second, at + '.second')
        same(a.extra, b.extra, at + '.extra')
    if hasattr(type(a), 'attrs'):
        x, y = unwrapped(a.attrs), unwrapped(b.attrs)
        if list(x.keys()) != list(y.keys()):
            fail('%s: attributes %r came back as %r', at, list(x.keys()),
                 list(y.keys()))
        if y.__parent__ is not b:
            fail('%s: parent of attributes is %r', at, y.__parent__)
        for k in x.keys():
            same(x[k], y[k], '%s.attrs[%r]' % (at, k))
            if INode.providedBy(x[k]) and not inspect.isclass(x[k]) \
                    and x[k].__parent__ is x and y[k].__parent__ is not y:
                fail('%s.attrs[%r]: parent is %r', at, k, y[k].__parent__)
    for k in ours:
        if b[k].__parent__ is not b:
            fail('%s[%r]: parent is %r', at, k, b[k].__parent__)
        same_node(a[k], b[k], '%s[%r]' % (at, k))


def snapshot(val):
    """Structure of a value, to notice changes by serializing."""
    if INode.providedBy(val) and not inspect.isclass(val):
        return (id(val), val.name, id(val.__parent__),
                [(k, snapshot(v)) for k, v in val.items()],
                [(k, snapshot(v)) for k, v in unwrapped(val.attrs).items()]
                if hasattr(type(val), 'attrs') else None)
    if isinstance(val, dict):
        return (id(val), [(k, snapshot(v)) for k, v in val.items()])
    if isinstance(val, list):
        return (id(val), [snapshot(v) for v in val])
    return id(val)


def round_trip(val, what, root=None):
    before = snapshot(val)
    out = outcome(serialize, val)
    if out[0] != 'ok':
        fail('serializing %s raised %s', what, describe_exc(out[1]))
    data = out[1]
    if snapshot(val) != before:
        fail('serializing changed %s', what)
    if not isinstance(data, str):
        fail('serialized %s is %r', what, data)
    if serialize(val) != data:
        fail('serializing %s again gives something else', what)
    if root is None:
        got = outcome(deserialize, data)
    else:
        got = outcome(lambda: deserialize(data, root=root))
    if got[0] != 'ok':
        fail('deserializing %s raised %s: %s', what, describe_exc(got[1]),
             data[:500])
    got = got[1]
    same(val, got, what)
    if root is None:
        if INode.providedBy(got) and not inspect.isclass(got) \
                and got.__parent__ is not None:
            fail('parent of the deserialized root is %r', got.__parent__)
        again = serialize(got)
        if json.loads(again) != json.loads(data) and 'NaN' not in data:
            fail('%s serialized again: %s, before: %s', what, again, data)
    return got


def allowed(parent, child):
    return not IReference.implementedBy(parent) \
        or IReference.implementedBy(child)


class Trees(Cases):
    """Shapes and classes."""

    def __init__(self, n, classes):
        self.shapes = shapes.shapes(n)
        self.classes = classes
        self.name = 'trees of %s nodes of %s classes' % (n, len(classes))
        self.n = n

    def cases(self):
        for i in range(len(self.shapes)):
            for combo in itertools.product(range(len(self.classes)),
                                           repeat=self.n):
                # referencing nodes take referencing children only
                if all(p < 0 or allowed(self.classes[combo[p]],
                                        self.classes[combo[j]])
                       for j, p in enumerate(self.shapes[i])):
                    yield (i,) + combo

    def build(self, case):
        shape = self.shapes[case[0]]
        nodes = []
        for i, p in enumerate(shape):
            node = self.classes[case[i + 1]]()
            if p < 0:
                node.__name__ = 'root'
            else:
                # not in alphabetical order
                nodes[p]['k%s' % (9 - i)] = node
            nodes.append(node)
            if hasattr(type(node), 'attrs'):
                attrs = unwrapped(node.attrs)
                attrs['z%s' % i] = ATOMS[(i * 7 + case[0]) % len(ATOMS)]
                attrs['a%s' % i] = {'x': [i, UNSET], 'a': OrderedNode}
        return nodes

    def run(self, case):
        nodes = self.build(case)
        round_trip(nodes[0], 'tree')
        root = OrderedNode(name='top')
        got = round_trip(nodes[0], 'tree', root=root)
        if list(root.keys()) != ['root'] or root['root'] is not got:
            fail('children of the given root: %r', root.items())
        if got.__parent__ is not root:
            fail('parent is %r', got.__parent__)
        # a part of the tree
        got = round_trip(nodes[-1].__parent__ and nodes[-1] or nodes[0],
                         'part')


class Names(Cases):
    """Names and keys."""
    name = 'names'
    NAMES = ['', 'a', 'ü€', 'a/b', ' ', '1', 'name', 'children', 'class', 'kw',
             'attrs', '__node__', '__ob__', '<UNSET', 0, 1, -5, 1.5, 'x' * 300,
             'a"\\', '\n']

    def cases(self):
        for i in range(len(self.NAMES)):
            for j in range(len(self.NAMES)):
                for cls in range(len(CLASSES)):
                    if i == j or (i + j) % 3 == 0:
                        yield (i, j, cls)

    def run(self, case):
        i, j, cls = case
        cls = CLASSES[cls]
        x, y = self.NAMES[i], self.NAMES[j]
        if hasattr(cls, 'attrs') and any(
                       str(n).startswith('__') for n in (x, y)):
            return 'nodespaces'
        for rootname in (x, None):
            node = cls(name=rootname)
            node[x] = cls()
            node[y] = cls()
            node[y][x] = cls()
            if hasattr(type(node), 'attrs'):
                unwrapped(node.attrs)[str(x)] = 1
                unwrapped(node.attrs)[str(y)] = {str(x): {str(y): UNSET}}
            round_trip(node, 'tree')
        root = OrderedNode(name='root')
        round_trip(node.values(), 'list of nodes', root=root)
        if list(root.keys()) != list(node.keys()):
            fail('children of the given root %r', list(root.keys()))


class AttributeNames(Cases):
    """Attributes named like the words of the format."""
    name = 'attribute names'
    NAMES = ['__ob__', '__node__', '__node__ ', '<UNSET>', '<UUID>:',
             '<UUID>:x', 'class', 'name', 'kw', 'children', 'attrs', '', 'a.b',
             '__attrs__', '__class__', 'context', 'keys', '_keys', '0']

    def cases(self):
        for i in range(len(CLASSES)):
            if hasattr(CLASSES[i], 'attrs'):
                for names in itertools.permutations(range(len(self.NAMES)), 2):
                    yield (i,) + names

    def run(self, case):
        cls = CLASSES[case[0]]
        for vals in ((1, [UNSET]), ('x', OrderedNode), (None, {'k': 'node'})):
            node, kid = cls(name='n'), cls()
            node['kid'] = kid
            for owner in (node, kid):
                for n, val in zip(case[1:], vals):
                    unwrapped(owner.attrs)[self.NAMES[n]] = val
            round_trip(node, 'attributes')


def nested(atoms, depth, wide):
    """All values nested up to a depth."""
    levels = [list(atoms)]
    for d in range(depth):
        last = levels[-1]
        out = []
        for i, v in enumerate(last):
            out.append([v])
            out.append({KEYS[i % len(KEYS)]: v})
            if d < wide:
                for w in atoms[::1 if d == 0 else 5]:
                    out.append([v, w])
                    out.append({'z': v, 'a': w})
            else:
                w = atoms[i % len(atoms)]
                out.append([w, v])
                out.append({'z': w, 'k': v})
        out += [[], {}]
        levels.append(out)
    return [v for level in levels for v in level]


CONTEXTS = ['bare', 'bare root', 'attr', 'access', 'kw', 'extra', 'child',
            'attr of child', 'attr root']


class Values(Cases):
    chunk = 100

    def __init__(self, values, contexts):
        self.values = values
        self.contexts = contexts
        self.name = 'values'

    def cases(self):
        for c in range(len(self.contexts)):
            for i in range(len(self.values)):
                yield (c, i)

    def run(self, case):
        context = self.contexts[case[0]]
        val = self.values[case[1]]
        root = OrderedNode(name='root')
        if context == 'bare':
            round_trip(val, 'value')
        elif context == 'bare root':
            round_trip(val, 'value', root=root)
            if root.keys():
                fail('children of the given root: %r', root.items())
        elif context == 'kw':
            round_trip(Keyworded(val), 'node')
            node = Keyworded(None, second=val)
            round_trip(node, 'node')
        elif context == 'extra':
            node = Keyworded(0)
            node.extra = val
            round_trip(node, 'node')
        else:
            node = OrderedNode(name='x')
            if context == 'attr of child':
                node['c'] = Node()
                node['c'].attrs['k'] = val
            elif context == 'child':
                node['a'] = Keyworded([val])
                node['a'].attrs['v'] = [val]
                node['a']['b'] = Keyworded({'k': val})
            elif context == 'access':
                node = AccessNode(name='x')
                node.attrs.k = val
                node.attrs.l = [val]
            else:
                node = AttributedNode(name='x')
                node.attrs['k'] = val
                node.attrs['l'] = 1
            if context == 'attr root':
                got = round_trip(node, 'node', root=root)
                if root['x'] is not got:
                    fail('not a child of the given root')
            else:
                round_trip(node, 'node')


def lookalikes():
    """Texts which are no markers, but nearly."""
    some = 'fcb30f5a-20c7-43aa-9537-2a25fef0248d'
    out = [some, some.upper(), '{%s}' % some, 'urn:uuid:' + some,
           some.replace('-', ''), 'UNSET', '<UUID>', 'UUID:' + some, '<', '>',
           '<>', '<UUID:>' + some, '<UUID>;' + some, '<UUID> :' + some,
           '<UUID>' + some, '<NODE>', '<OB>:x', 'node.base.Node',
           '{"__node__": {}}', '{"__ob__": "node.base.Node"}', '[]', '{}',
           '"x"', '1', '1.0', 'true', 'null', 'None', 'NaN', 'Infinity',
           '-0', '__ob__', '__node__', 'class', 'children', 'UNSET>', '<UNSET']
    for mark in ('<UNSET>', '<UUID>:' + some, '<UUID>:', '<UUID>:x'):
        for around in (' ', '\n', '\t', '\r\n', '\x00', '\xa0', '\ufeff', 'x',
                       '<', '"', "'"):
            out.append(around + mark)
            if mark == '<UNSET>':
                out += [mark + around, around + mark + around]
        out += [mark.lower(), mark.replace('>', ''), mark.replace('<', ''),
                mark.replace('<', '&lt;').replace('>', '&gt;'),
                mark.replace('U', 'u'), mark.replace('UNSET', 'Unset'),
                mark.replace('UU', '\uff35\uff35'), mark[::-1], '<' + mark,
                mark.replace('UNSET', ' UNSET'), mark.replace('UUI', ' UUI')]
        if mark == '<UNSET>':
            out += [mark * 2, mark + ':', mark + '>', mark[:-1] + ':>']
    seen = []
    for text in out:
        if text not in seen and text != '<UNSET>' \
                and not text.startswith('<UUID>:'):
            seen.append(text)
    return seen


class Lookalikes(Cases):
    """Texts which are no markers, wherever texts may be."""
    name = 'lookalikes'
    TEXTS = lookalikes()
    PLACES = ('bare', 'list', 'value', 'key', 'attr', 'attr name', 'deep',
              'name', 'child', 'kw', 'root name', 'uuid beside')

    def cases(self):
        for i in range(len(self.TEXTS)):
            for place in self.PLACES:
                yield (i, place)

    def run(self, case):
        text = self.TEXTS[case[0]]
        place = case[1]
        if place == 'bare':
            round_trip(text, 'text')
            return place
        if place in ('list', 'value', 'key', 'uuid beside'):
            round_trip({
                'list': [text, [text]],
                'value': {'a': text, 'b': {'c': [text]}},
                'key': {text: 1, 'x': {text: text}, 'y': [{text: UNSET}]}
                if text not in ('__ob__', '__node__') else {},
                'uuid beside': [uuid.UUID(int=5), text, UNSET, OrderedNode]
            }[place], 'value')
            return place
        node = AttributedNode(name='x')
        if place == 'attr':
            node.attrs['k'] = text
            node.attrs['l'] = [text]
        elif place == 'attr name':
            node.attrs[text] = UNSET
            node.attrs['l'] = text
        elif place == 'deep':
            node['c'] = AttributedNode()
            node['c'].attrs['k'] = {'a': [text]}
        elif place == 'name':
            node = AttributedNode(name=text)
        elif place == 'child':
            node[text] = AttributedNode()
            node[text]['z'] = AttributedNode()
        elif place == 'kw':
            node = Keyworded(text, second=[text])
            node.extra = {'k': text}
        elif place == 'root name':
            root = OrderedNode(name='root')
            node = OrderedNode(name=text)
            got = round_trip(node, 'node', root=root)
            if root[text] is not got or list(root) != [text]:
                fail('children of the given root %r', list(root.keys()))
            return place
        round_trip(node, 'node')
        return place


class NodesIn(Cases):
    """Nodes nested in lists, dictionaries and attributes."""
    name = 'nodes in values'
    SPOTS = ['list', 'dict', 'list in list', 'dict in dict', 'list in dict',
             'dict in list', 'mixed', 'attr', 'attr list', 'attr dict', 'kw',
             'two levels of attrs', 'same name']

    def cases(self):
        for s in range(len(self.SPOTS)):
            for cls in range(len(CLASSES)):
                for n in (1, 2, 3):
                    for root in (0, 1):
                        yield (s, cls, n, root)

    def run(self, case):
        spot, cls, n, root = case
        spot, cls = self.SPOTS[spot], CLASSES[cls]
        nodes = []
        for i in range(n):
            node = cls(name='n%s' % (5 - i))
            node['c'] = cls()
            node['c']['d'] = cls()
            if hasattr(type(node), 'attrs'):
                unwrapped(node.attrs)['v'] = [UNSET, i]
            nodes.append(node)
        inside = False
        if spot == 'list':
            val = nodes
        elif spot == 'dict':
            val = dict(('k%s' % (7 - i), v) for i, v in enumerate(nodes))
        elif spot == 'list in list':
            val = [nodes, [], [1]]
        elif spot == 'dict in dict':
            val = {'a': dict((n.name, n) for n in nodes), 'b': 1}
        elif spot == 'list in dict':
            val = {'a': nodes, 'b': [None]}
        elif spot == 'dict in list':
            val = [dict((n.name, n) for n in nodes), UNSET]
        elif spot == 'mixed':
            val = [1, nodes[0], {'k': [nodes[1:], OrderedNode]}, 'x']
        elif spot == 'same name':
            # without a root nothing has to be unique
            for node in nodes:
                node.__name__ = 'same'
            val, root = nodes, 0
        else:
            inside = True
            if spot == 'kw':
                val = Keyworded(nodes[0], second=nodes[1:])
                val.__name__ = 'owner'
            elif spot == 'two levels of attrs':
                val = AttributedNode(name='owner')
                val.attrs['x'] = AttributedNode(name='x')
                for node in nodes:
                    val.attrs['x'].attrs[node.name] = node
            else:
                val = AttributedNode(name='owner')
                if spot == 'attr':
                    for node in nodes:
                        val.attrs[node.name] = node
                elif spot == 'attr list':
                    val.attrs['x'] = nodes
                else:
                    val.attrs['x'] = dict((n.name, n) for n in nodes)
        top = OrderedNode(name='top') if root else None
        if root:
            top['before'] = OrderedNode()
        round_trip(val, spot, root=top)
        if root:
            want = ['before'] + (['owner'] if inside
                                 else [x.name for x in nodes])
            if list(top.keys()) != want:
                fail('children of the given root %r, expected %r',
                     list(top.keys()), want)
            for child in top.values():
                if child.__parent__ is not top:
                    fail('parent of %r is %r', child, child.__parent__)


class Roots(Cases):
    """Deserializing into roots of any class."""
    name = 'roots'

    def cases(self):
        for cls in range(len(CLASSES)):
            for child in range(len(CLASSES)):
                if not allowed(CLASSES[cls], CLASSES[child]):
                    continue
                for spot in range(4):
                    yield (cls, child, spot)

    def run(self, case):
        cls, child, spot = case
        root = CLASSES[cls](name='root')
        at = root
        if spot == 1:
            root['x'] = CLASSES[cls]()
        elif spot == 2:
            # not the root of its tree
            root['x'] = at = CLASSES[cls]()
        elif spot == 3:
            # replaces a child of that name
            root['n'] = CLASSES[cls]()
        node = CLASSES[child](name='n')
        node['a'] = CLASSES[child]()
        if hasattr(type(node), 'attrs'):
            unwrapped(node.attrs)['v'] = UNSET
            if hasattr(type(root), 'attrs'):
                unwrapped(root.attrs)['w'] = 1
        before = [k for k in at.keys() if k != 'n']
        if hasattr(type(root), 'attrs'):
            attrs = list(unwrapped(root.attrs).keys())
        got = round_trip(node, 'node', root=at)
        if at['n'] is not got or got.__parent__ is not at:
            fail('not a child of the given root')
        if [k for k in at.keys() if k != 'n'] != before:
            fail('other children changed: %r', at.keys())
        if hasattr(type(root), 'attrs') and hasattr(type(node), 'attrs') \
                and list(unwrapped(root.attrs).keys()) != attrs:
            fail('attributes of the given root changed')


class Shared(Cases):
    """Values and parts of trees which appear several times, and results not
    sharing anything with the original."""
    name = 'independence'

    def cases(self):
        for cls in range(len(CLASSES)):
            for i in range(3):
                yield (cls, i)

    def run(self, case):
        cls, i = case
        node = AttributedNode(name='x')
        val = [1, {'k': [2]}]
        node.attrs['a'] = val
        node.attrs['b'] = val
        if allowed(AttributedNode, CLASSES[cls]):
            node['c'] = CLASSES[cls]()
            node['c']['d'] = CLASSES[cls]()
        else:
            node['c'] = Node()
            node['c']['d'] = Node()
        listed = [node, node['c'], node['c']['d']][:i + 1]
        got = round_trip(listed, 'parts of one tree')
        for n in got:
            if n.__parent__ is not None:
                fail('parent of %r is %r', n, n.__parent__)
        got = round_trip(node, 'node')
        got.attrs['a'].append(3)
        got.attrs['a'][1]['k'].append(4)
        del got['c']
        if node.attrs['a'] != [1, {'k': [2]}] or 'c' not in node:
            fail('the deserialized node shares data with the original')
        if got.attrs['b'] != [1, {'k': [2]}]:
            fail('deserialized attributes share data')


class Markers(Cases):
    """Values looking like the markers of the serializer itself."""
    name = 'values looking like markers'
    VALS = ['<UNSET>', '<UUID>:', '<UUID>:x',
            '<UUID>:fcb30f5a-20c7-43aa-9537-2a25fef0248d',
            {'__ob__': 'x'}, {'__ob__': 'node.base.Node'}, {'__node__': {}},
            {'__node__': 1, 'x': 2}]

    def cases(self):
        for i in range(len(self.VALS)):
            yield (i,)

    def run(self, case):
        val = self.VALS[case[0]]
        round_trip(copy.deepcopy(val), 'value')
        node = AttributedNode(name='x')
        node.attrs['k'] = val
        round_trip(node, 'node')


def classify(task, case, msg):
    if isinstance(task, Markers):
        return 'marker-value-%s' % case[0]
    return None


def tasks(tier):
    quick = tier == 'quick'
    out = [Trees(1, CLASSES), Trees(2, CLASSES), Trees(3, CLASSES),
           Trees(4, CLASSES[:5] if quick else CLASSES)]
    if not quick:
        out.append(Trees(5, CLASSES[:6]))
        out.append(Trees(6, CLASSES[1:5:2]))
    out += [Names(), AttributeNames()]
    out.append(Values(nested(ATOMS, 2 if quick else 3, 1 if quick else 2),
                      CONTEXTS))
    out.append(Lookalikes())
    out.append(NodesIn())
    out.append(Roots())
    out.append(Shared())
    out.append(Markers())
    return out
