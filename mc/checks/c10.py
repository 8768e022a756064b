"""C10: attributes of nodes."""
from mc import zoo
from mc.checks.c01 import MISSING
from mc.checks.c01 import Ref
from mc.checks.c01 import observe
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UnicodeAware
from node.utils import UNSET
from node.utils import AttributeAccess
from plumber import plumbing

import itertools

TECHNIQUE = ('explicit-state BFS over interleaved attribute and child '
             'operations of several nodes on the real classes against '
             'reference dictionaries')
LEVEL_NOTE = (
    'Every history up to the depth over 3 nodes, 2 attribute keys, 2 child '
    'keys in both access styles for 9 classes; the complete mapping contract '
    'of the attributes for 8 values of all kinds; factories and access style '
    'set, computed and switched on classes and instances. Trusts the reference '
    'dictionary.')
ASSUMPTIONS = ['a node stored as attribute is not a child at the same time']


@plumbing(AttributesLifecycle)
class LifecycleAttributes(NodeAttributes):
    pass


class LifecycleAttributed(zoo.LifecycleFull):
    attributes_factory = LifecycleAttributes


class Accessible(zoo.AttributedNode):
    attribute_access_for_attrs = True


class AccessibleLifecycle(LifecycleAttributed):
    attribute_access_for_attrs = True


@plumbing(UnicodeAware, NodeChildValidate, Adopt, Nodify, OdictStorage)
class OwnAttributes(object):
    allow_non_node_childs = True

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


class LateAttributes(NodeAttributes):
    pass


class WithOwnAttributes(zoo.Node):
    attributes_factory = OwnAttributes


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class DictAttributed(object):
    pass


@plumbing(Adopt, Attributes, Nodespaces, DefaultInit, Nodify, OdictStorage)
class OtherOrder(object):
    pass


class InstanceFactory(zoo.Node):
    """Attributes are configured on the node."""

    def __init__(self, name=None, parent=None):
        super(InstanceFactory, self).__init__(name=name, parent=parent)
        self.attributes_factory = OwnAttributes


class InstanceAccess(zoo.Node):

    def __init__(self, name=None, parent=None):
        super(InstanceAccess, self).__init__(name=name, parent=parent)
        self.attribute_access_for_attrs = True
        self.attributes_factory = lambda **kw: OwnAttributes(**kw)

    attributes_factory = LifecycleAttributes


class Withdrawn(Accessible):
    """Switched off again on the node."""

    def __init__(self, name=None, parent=None):
        super(Withdrawn, self).__init__(name=name, parent=parent)
        self.attribute_access_for_attrs = False


class Computed(zoo.Node):
    """Configuration is computed."""

    @property
    def attributes_factory(self):
        return OwnAttributes

    @property
    def attribute_access_for_attrs(self):
        return True


class SubAttributed(zoo.AttributedNode):
    """Sets attributes on construction."""

    def __init__(self, name=None, parent=None):
        super(SubAttributed, self).__init__(name=name, parent=parent)
        self.attrs


CLASSES = {
    'Node': zoo.Node, 'AttributedNode': zoo.AttributedNode,
    'OrderedAttributed': zoo.OrderedAttributed,
    'LifecycleAttributed': LifecycleAttributed, 'Accessible': Accessible,
    'AccessibleLifecycle': AccessibleLifecycle,
    'WithOwnAttributes': WithOwnAttributes, 'DictAttributed': DictAttributed,
    'OtherOrder': OtherOrder, 'SubAttributed': SubAttributed,
    'InstanceFactory': InstanceFactory, 'InstanceAccess': InstanceAccess,
    'Withdrawn': Withdrawn, 'Computed': Computed,
}
FACTORIES = {
    'LifecycleAttributed': LifecycleAttributes,
    'AccessibleLifecycle': LifecycleAttributes,
    'WithOwnAttributes': OwnAttributes, 'InstanceFactory': OwnAttributes,
    'InstanceAccess': OwnAttributes, 'Computed': OwnAttributes,
}
OWN = [name for name in FACTORIES if FACTORIES[name] is OwnAttributes]


def real(node):
    """The mapping behind node.attrs."""
    attrs = node.attrs
    if node.attribute_access_for_attrs:
        return object.__getattribute__(attrs, 'context')
    return attrs


class Attrs(Machine):
    no_merge = 0
    akeys = ('x', 'y')

    def __init__(self, name, cls, depth, nnodes=3, mix=True):
        self.name = name
        self.cls = cls
        self.depth = depth
        self.mix = mix
        self.nnodes = nnodes
        self.access = cls().attribute_access_for_attrs

    def fresh(self):
        s = State()
        s.nodes = [self.cls(name='n%d' % i) for i in range(self.nnodes)]
        s.refs = [Ref() for _ in range(self.nnodes)]
        s.attrs = [None] * self.nnodes
        s.ch = [{} for _ in range(self.nnodes)]
        s.vals = [None, 0, self.cls(name='val')]
        return s

    def ops(self, s):
        held = [c for d in s.ch for c in d.values()]
        for i in range(self.nnodes):
            for k in self.akeys:
                for v in range(3):
                    if v == 2 and any(x is s.vals[2] for r in s.refs
                                      for _, x in r.items):
                        continue
                    yield ('set', i, k, v)
                    if self.access:
                        yield ('setattr', i, k, v)
                yield ('del', i, k)
                if self.access:
                    yield ('delattr', i, k)
                yield ('pop', i, k)
                yield ('setdefault', i, k)
            yield ('popitem', i)
            yield ('clear', i)
            yield ('update', i)
            if not self.mix:
                continue
            # tree operations: nodes go below nodes with lower number
            for c in range(i + 1, self.nnodes):
                if c not in held:
                    for k in 'xb':
                        if k not in s.ch[i]:
                            yield ('child', i, k, c)
            for k in sorted(s.ch[i]):
                yield ('delchild', i, k)
                yield ('detach', i, k)

    def apply(self, s, op):
        name, i = op[:2]
        node, ref = s.nodes[i], s.refs[i]
        if name == 'child':
            k, c = op[2:]
            expect('child', outcome(node.__setitem__, k, s.nodes[c]),
                   ('any',))
            s.ch[i][k] = c
            return
        if name in ('delchild', 'detach'):
            k = op[2]
            expect(name, outcome(
                node.__delitem__ if name == 'delchild' else node.detach, k),
                ('any',))
            del s.ch[i][k]
            return
        attrs = node.attrs
        m = real(node)
        if name in ('set', 'setattr'):
            k, v = op[2], s.vals[op[3]]
            if name == 'set':
                out = outcome(attrs.__setitem__, k, v)
            else:
                out = outcome(setattr, attrs, k, v)
            expect(name, out, ('any',))
            ref.set(k, v)
        elif name in ('del', 'delattr'):
            k = op[2]
            want = ref.remove(k)
            if name == 'del':
                out = outcome(attrs.__delitem__, k)
                exc = KeyError
            else:
                out = outcome(delattr, attrs, k)
                exc = AttributeError
            expect(name, out, ('raise', exc) if want is MISSING
                   else ('any',))
            return want is MISSING
        elif name == 'pop':
            want = ref.remove(op[2])
            expect('pop', outcome(m.pop, op[2]),
                   ('raise', KeyError) if want is MISSING else ('is', want))
        elif name == 'setdefault':
            want = ref.get(op[2])
            if want is MISSING:
                ref.set(op[2], 0)
                want = 0
            expect('setdefault', outcome(m.setdefault, op[2], 0),
                   ('is', want))
        elif name == 'popitem':
            out = outcome(m.popitem)
            if not ref.items:
                expect('popitem', out, ('raise', KeyError))
                return 'empty'
            expect('popitem', out, ('any',))
            k, v = ref.items.pop()
            if out[1][0] != k or out[1][1] is not v:
                fail('popitem returned %r, expected %r', out[1], (k, v))
        elif name == 'clear':
            expect('clear', outcome(m.clear), ('any',))
            ref.items = []
        elif name == 'update':
            expect('update', outcome(m.update, [('y', None), ('x', 0)]),
                   ('any',))
            ref.set('y', None)
            ref.set('x', 0)

    def check(self, s):
        for i, node in enumerate(s.nodes):
            m = real(node)
            if s.attrs[i] is None:
                s.attrs[i] = m
            kind = FACTORIES.get(self.name.split('-')[0], NodeAttributes)
            if type(m) is not kind:
                fail('attributes of node %d are %r, not %r', i, type(m), kind)
            if type(node.attrs) is not (
                    AttributeAccess if self.access else kind):
                fail('attrs of node %d is %r', i, type(node.attrs))
            if m is not s.attrs[i] or real(node) is not m:
                fail('attributes of node %d are not stable', i)
            other = node.attributes
            if self.access:
                other = object.__getattribute__(other, 'context')
            if other is not m:
                fail('attributes and attrs differ')
            if m.name != '__attrs__' or m.__name__ != '__attrs__' or \
                    m.parent is not node or m.__parent__ is not node:
                fail('attributes of node %d are named %r below %r', i, m.name,
                     m.parent)
            for j in range(i):
                if s.attrs[j] is m:
                    fail('nodes %d and %d share attributes', j, i)
            ref = s.refs[i]
            observe(m, ref, ['x', 'y', 'zz', 'b'], True,
                    'attributes of node %d: ' % i)
            if self.access:
                a = node.attrs
                for k in ('x', 'y', 'zz'):
                    want = ref.get(k)
                    have = want is not MISSING
                    expect('attrs.%s' % k, outcome(getattr, a, k),
                           ('is', want) if have
                           else ('raise', AttributeError))
                    expect('attrs[%r]' % k, outcome(lambda: a[k]),
                           ('is', want) if have else ('raise', KeyError))
                    if hasattr(a, k) is not have or \
                            getattr(a, k, s) is not (want if have else s):
                        fail('hasattr/getattr default for %r', k)
            kids = dict((k, s.nodes[c]) for k, c in s.ch[i].items())
            if sorted(node) != sorted(kids) or len(node) != len(kids) or any(
                    node[k] is not v for k, v in kids.items()):
                fail('children of node %d are %r, expected %r', i,
                     list(node.items()), kids)
            for k, c in s.ch[i].items():
                if s.nodes[c].name != k or s.nodes[c].parent is not node:
                    fail('child %r of node %d displaced', k, i)


VALUES = [None, 0, '', False, [], {}, (), 'text', b'bytes', 1.5, UNSET,
          object, zoo.Node, len, Exception('x'), set(), frozenset(),
          lambda: 1, 10 ** 30, float('inf'), Ellipsis, NotImplemented]
KEYS = ['x', '', u'\xe4', '__x__', '__attrs__', '__children__', 'a/b', 'keys',
        'name', 'parent', '__name__', '__init__', 'attrs', 'context',
        'storage', ' ', '0', '_', '_x', '__x', 'x_', 'X']
STYLE_KEYS = [k for k in KEYS if k not in ('context', '__init__', 'attrs')]


class Values(Cases):
    """Any value under any key, in item style."""
    name = 'values'

    def cases(self):
        for name in sorted(CLASSES):
            for k in range(len(KEYS)):
                for v in range(len(VALUES)):
                    yield (name, k, v)

    def run(self, case):
        name, k, v = case
        cls = CLASSES[name]
        key, val = KEYS[k], VALUES[v]
        if name in OWN and isinstance(val, bytes):
            return 'skip'
        node = cls(name='n')
        child = node['c'] = cls()
        before = repr(val)
        attrs = node.attrs
        m = real(node)
        attrs[key] = val
        ref = Ref()
        ref.set(key, val)
        observe(m, ref, [key, 'nokey'], True)
        m['second'] = 2
        ref.set('second', 2)
        attrs[key] = val
        observe(m, ref, [key, 'nokey'], True)
        if repr(val) != before:
            fail('value changed to %r', val)
        if list(node) != ['c'] or node['c'] is not child:
            fail('children changed')
        if len(real(child)) or len(real(cls())):
            fail('other attributes changed')
        # the tree moves, attributes stay
        top = cls(name='top')
        top['sub'] = node
        observe(real(top['sub']), ref, [key], True)
        top.detach('sub')
        other = cls()
        other['new'] = node
        observe(real(node), ref, [key], True)
        del other['new']
        node.clear()
        observe(real(node), ref, [key], True)
        del attrs[key]
        ref.remove(key)
        observe(m, ref, [key], True)
        return 'ok'


class Stray(Cases):
    """Attributes are kept even if they do not know where they belong."""
    name = 'stray'

    def cases(self):
        for name in sorted(CLASSES):
            if name == 'Computed':
                continue
            for how in ('noparent', 'noname', 'other', 'function', 'given',
                        'empty'):
                for ops in itertools.product('srmc', repeat=3):
                    yield (name, how, ops)

    def run(self, case):
        name, how, ops = case
        node = CLASSES[name](name='n')
        if how == 'function':
            # a factory doing as it likes
            made = []

            def factory(**kw):
                made.append(zoo.OdictValues(name='own'))
                return made[-1]
            node.nodespaces.pop('__attrs__', None)
            node.attributes_factory = factory
        elif how == 'given':
            node['__attrs__'] = zoo.OdictValues(name='given')
        elif how == 'empty':
            class Empty(zoo.OdictValues):
                def __bool__(self):
                    return False
                __nonzero__ = __bool__
            node['__attrs__'] = Empty()
        m = real(node)
        if how == 'noparent':
            m.__parent__ = None
        elif how == 'noname':
            m.__name__ = None
        elif how == 'other':
            m.__parent__ = CLASSES[name](name='o')
        ref = Ref()
        lifecycle = 'Lifecycle' in name and how in ('noparent',)
        for n, op in enumerate(ops):
            if op == 's' and not lifecycle:
                real(node)['k%d' % n] = n
                ref.set('k%d' % n, n)
            elif op == 'm':
                CLASSES[name](name='top')['sub'] = node
            elif op == 'c':
                node['c%d' % n] = CLASSES[name]()
            if real(node) is not m or node.nodespaces['__attrs__'] is not m:
                fail('attributes became others')
            observe(real(node), ref, ['k0', 'nokey'], True)
        if how == 'function' and len(made) != 1:
            fail('%d attributes were made', len(made))
        return how


class Replaced(Cases):
    """The attributes of a node are exchanged, taken away or given back."""
    name = 'replaced'
    OPS = ('del', 'new', 'swap', 'write', 'access', 'copy', 'factory',
           'foreign')

    def __init__(self, length):
        self.length = length

    def cases(self):
        for name in sorted(CLASSES):
            if name == 'Computed':
                continue
            for ops in itertools.product(self.OPS, repeat=self.length):
                yield (name,) + ops

    def run(self, case):
        name, ops = case[0], case[1:]
        cls = CLASSES[name]
        kind = FACTORIES.get(name, NodeAttributes)
        nodes = [cls(name='n'), cls(name='o')]
        maps, refs = [real(n) for n in nodes], [Ref(), Ref()]
        kinds = [kind, kind]
        self.compare(nodes, maps, refs)
        for n, op in enumerate(ops):
            node, m, ref = nodes[0], maps[0], refs[0]
            if op == 'del':
                del node['__attrs__']
                refs[0] = Ref()
                maps[0] = real(node)
                if maps[0] is m or type(maps[0]) is not kinds[0]:
                    fail('deleted attributes are back: %r', maps[0])
            elif op == 'new':
                maps[0] = node['__attrs__'] = kind(name='x', parent=node)
                refs[0] = Ref()
            elif op == 'factory':
                # what is there stays, whatever new ones will be made from
                kinds[0] = LateAttributes if kinds[0] is not LateAttributes \
                    else kind
                node.attributes_factory = kinds[0]
            elif op == 'foreign':
                maps[0] = node['__attrs__'] = zoo.OrderedNode(
                    name='__attrs__', parent=node)
                refs[0] = Ref()
                node.attrs['n%d' % n] = child = zoo.OrderedNode()
                refs[0].set('n%d' % n, child)
            elif op == 'swap':
                nodes[0]['__attrs__'] = maps[1]
                nodes[1]['__attrs__'] = maps[0]
                maps.reverse()
                refs.reverse()
            elif op == 'access':
                node.attribute_access_for_attrs = \
                    not node.attribute_access_for_attrs
            elif op == 'copy':
                # nodespaces are shared by shallow copies
                nodes[0] = node.deepcopy()
                if real(nodes[0]) is m:
                    fail('a deep copy shares attributes')
                observe(m, ref, ['k0', 'nokey'], True)
                maps[0] = real(nodes[0])
                refs[0] = Ref()
                for key, val in ref.items:
                    if isinstance(val, zoo.OrderedNode):
                        copied = maps[0][key]
                        if copied is val or type(copied) is not type(val):
                            fail('copy of attribute %r is %r', key, copied)
                        val = copied
                    refs[0].set(key, val)
            else:
                key = 'k%d' % n
                val = n if not isinstance(m, zoo.OrderedNode) \
                    else zoo.OrderedNode()
                if node.attribute_access_for_attrs and n % 2:
                    setattr(node.attrs, key, val)
                else:
                    node.attrs[key] = val
                ref.set(key, val)
            self.compare(nodes, maps, refs)
        return 'ok'

    def compare(self, nodes, maps, refs):
        for node, m, ref in zip(nodes, maps, refs):
            if real(node) is not m or node.nodespaces['__attrs__'] is not m:
                fail('attributes of %r are %r, expected %r', node, real(node),
                     m)
            if m.parent is not node or m.name != '__attrs__':
                fail('attributes of %r belong to %r', node, m.parent)
            if (type(node.attrs) is AttributeAccess) is not \
                    node.attribute_access_for_attrs:
                fail('attrs is %r', node.attrs)
            observe(m, ref, ['k0', 'k1', 'nokey'], True)
            for key, val in ref.items:
                acc = node.attrs
                if acc[key] is not val:
                    fail('attrs[%r] is %r', key, acc[key])
                if node.attribute_access_for_attrs \
                        and getattr(acc, key) is not val:
                    fail('attrs.%s is %r', key, getattr(acc, key))
            if node.attribute_access_for_attrs and hasattr(node.attrs, 'nix'):
                fail('attrs has any attribute')


class Styles(Cases):
    """Item and attribute style are interchangeable."""
    name = 'styles'

    def cases(self):
        for name in ('Accessible', 'AccessibleLifecycle', 'InstanceAccess',
                     'Computed'):
            for key in range(len(STYLE_KEYS)):
                for a in ('item', 'attr'):
                    for b in ('item', 'attr', 'missing'):
                        yield (name, key, a, b)

    def run(self, case):
        name, k, a, b = case
        key = STYLE_KEYS[k]
        if key.startswith('__') and key.endswith('__'):
            return 'reserved'
        node = CLASSES[name](name='n')
        attrs = node.attrs
        val = [1]
        m = real(node)
        if hasattr(attrs, key):
            fail('attribute %r before it is set', key)
        if a == 'item':
            attrs[key] = val
        else:
            setattr(attrs, key, val)
        for x in (attrs, node.attrs):
            if x[key] is not val or getattr(x, key) is not val or \
                    not hasattr(x, key):
                fail('%r not readable in both styles', key)
        if list(m.items()) != [(key, val)]:
            fail('attributes are %r', list(m.items()))
        if b == 'missing':
            expect('getattr', outcome(getattr, attrs, 'missing'),
                   ('raise', AttributeError))
            expect('item', outcome(lambda: attrs['missing']),
                   ('raise', KeyError))
            expect('delattr', outcome(delattr, attrs, 'missing'),
                   ('raise', AttributeError))
            expect('delitem', outcome(attrs.__delitem__, 'missing'),
                   ('raise', KeyError))
            return b
        if b == 'item':
            del attrs[key]
        else:
            delattr(attrs, key)
        if hasattr(attrs, key) or key in m or len(m):
            fail('%r still there after deletion', key)
        expect('item', outcome(lambda: attrs[key]), ('raise', KeyError))
        return b


class Switched(Cases):
    """The access style is switched on and off in between."""
    name = 'switched'

    def cases(self):
        for name in sorted(CLASSES):
            if name == 'Computed':
                continue
            for bits in range(64):
                yield (name, bits)

    def run(self, case):
        name, bits = case
        node, other = CLASSES[name](name='n'), CLASSES[name](name='o')
        was = other.attribute_access_for_attrs
        ref = Ref()
        first = real(node)
        for i in range(6):
            node.attribute_access_for_attrs = on = bool(bits & 1 << i)
            attrs = node.attrs
            if (type(attrs) is AttributeAccess) is not on or \
                    real(node) is not first:
                fail('attrs is %r with attribute access %r', attrs, on)
            key = 'k%d' % (i % 4)
            if ref.get(key) is not MISSING:
                del attrs[key]
                ref.remove(key)
            elif on:
                setattr(attrs, key, i)
                ref.set(key, i)
            else:
                attrs[key] = i
                ref.set(key, i)
            observe(first, ref, ['k0', 'k1', 'nokey'], True)
            if (type(other.attrs) is AttributeAccess) is not was:
                fail('another node is affected')
        return 'ok'


def tasks(tier):
    deep = tier == 'thorough'
    out = [Values(), Styles(), Stray(), Switched(),
           Replaced(5 if deep else 4)]
    for name in sorted(CLASSES):
        out.append(Attrs(name, CLASSES[name], 4 if deep else 2, nnodes=3))
        out.append(Attrs(name + '-mapping', CLASSES[name], 7 if deep else 5,
                         nnodes=1, mix=False))
    for name in ('Node', 'Accessible'):
        t = Attrs(name + '-deep', CLASSES[name], 5 if deep else 3, nnodes=2)
        out.append(t)
    return out
