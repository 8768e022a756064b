"""C04: validating containers hold nodes only, unless allowed otherwise."""
import abc
import contextlib
import inspect
import math
import uuid
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import DictStorage
from node.behaviors import Order
from node.behaviors import UnicodeAware
from node.behaviors import Nodespaces
from node.behaviors import Attributes
from node.behaviors import Cache
from node.interfaces import INode
from node.interfaces import IReference
from node.testing.env import MockupNode
from node.testing.env import NoNode
from node.utils import UNSET
from node.utils import AttributeAccess
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import classImplements
from zope.interface import directlyProvides
from zope.interface import implementer
from zope.interface.declarations import Provides

TECHNIQUE = ('explicit-state BFS over write histories plus complete '
             'enumeration of classes x values x write paths on the real code')
LEVEL_NOTE = (
    'Every history up to the depth of allowing/disallowing and writing nodes, '
    'non-nodes and classes by every write path, and the full product of 14 '
    'validating classes, 45 values, 9 write paths and 3 fill levels. Trusts '
    'that values outside the list behave like listed ones.')
ASSUMPTIONS = ['non-string values of attributes allow_non_node_childs are not '
               'considered']


class DuckNode(object):
    """Everything a node has, but not declared to be one."""

    def __init__(self):
        self.__name__ = self.name = 'a'
        self.__parent__ = self.parent = None
        self.uuid = uuid.uuid4()
        self._index = {}
        self.children = {}

    def __getitem__(self, key):
        return self.children[key]

    def __setitem__(self, key, val):
        self.children[key] = val

    def __iter__(self):
        return iter(self.children)

    def values(self):
        return []


class Mapping(dict):
    __name__ = 'a'
    name = 'a'


class Slotted(object):
    __slots__ = ()


class FalsyNonNode(object):

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


class Meta(type):
    pass


class WithMeta(metaclass=Meta):
    pass


class NodeMeta(type):
    """Its classes look like nodes."""
    __name__ = 'a'
    __parent__ = parent = None

    def values(cls):
        return []


classImplements(NodeMeta, INode)


class Abstract(abc.ABC):
    pass


def meta_providing(base=object, meta=Meta):
    cls = meta('a', (base,), {'__parent__': None})
    alsoProvides(cls, INode)
    return cls


def class_providing():
    """The class itself is declared to provide INode."""
    cls = type('a', (object,), {'__parent__': None})
    alsoProvides(cls, INode)
    return cls


class IOther(Interface):
    pass


@implementer(IOther)
class OtherIface(object):
    name = 'a'


class SubOfNode(zoo.Node):
    pass


def func():
    pass


class WithMethod(object):

    def meth(self):
        pass


def attraccess():
    return AttributeAccess(zoo.BaseNode(name='a'))


# name -> factory
NON_NODES = [
    ('None', lambda: None), ('zero', lambda: 0), ('one', lambda: 1),
    ('float', lambda: 1.5), ('nan', lambda: float('nan')),
    ('True', lambda: True), ('False', lambda: False), ('empty', lambda: ''),
    ('text', lambda: 'x'), ('key', lambda: 'a'), ('bytes', lambda: b'x'),
    ('list', lambda: []), ('list1', lambda: [zoo.Node()]),
    ('tuple', lambda: ()), ('dict', lambda: {}),
    ('dict1', lambda: {'a': zoo.Node()}), ('set', lambda: set()),
    ('object', lambda: object()), ('func', lambda: func),
    ('lambda', lambda: (lambda: zoo.Node())), ('module', lambda: math),
    ('method', lambda: WithMethod().meth), ('UNSET', lambda: UNSET),
    ('NoNode', NoNode), ('DuckNode', DuckNode), ('Mapping', Mapping),
    ('Slotted', Slotted), ('Falsy', FalsyNonNode), ('OtherIface', OtherIface),
    ('INode', lambda: INode), ('uuid', lambda: uuid.UUID(int=5)),
    ('attraccess', attraccess), ('generator', lambda: (i for i in ())),
    ('Ellipsis', lambda: Ellipsis), ('exception', lambda: ValueError('x')),
]
CLASSES = [
    ('cls-object', lambda: object), ('cls-Node', lambda: zoo.Node),
    ('cls-BaseNode', lambda: zoo.BaseNode), ('cls-Sub', lambda: SubOfNode),
    ('cls-Mockup', lambda: MockupNode), ('cls-dict', lambda: dict),
    ('cls-type', lambda: type), ('cls-Meta', lambda: Meta),
    ('cls-WithMeta', lambda: WithMeta), ('cls-exc', lambda: ValueError),
    ('cls-providing', class_providing),
    ('cls-NodeMeta', lambda: NodeMeta('a', (), {})),
    ('cls-NodeMeta-Node', lambda: NodeMeta),
    ('cls-meta-providing', meta_providing),
    ('cls-abstract-providing', lambda: meta_providing(Abstract,
                                                      abc.ABCMeta)),
    ('cls-node-providing', lambda: meta_providing(zoo.OrderedNode,
                                                  type(zoo.OrderedNode))),
]
BAD = dict(NON_NODES + CLASSES)
PROVIDING = [n for n in BAD if INode.providedBy(BAD[n]())]


@plumbing(Adopt, NodeChildValidate, DefaultInit, Nodify, OdictStorage)
class ValidateBelowAdopt(object):
    pass


@plumbing(UnicodeAware, NodeChildValidate, Adopt, DefaultInit, Nodify,
          DictStorage)
class UnicodeValidating(object):
    pass


@plumbing(Cache, Invalidate, NodeChildValidate, Adopt, DefaultInit, Nodify,
          OdictStorage)
class CachedValidating(object):
    pass


@plumbing(Nodespaces, Attributes, Lifecycle, Adopt, NodeChildValidate, Order,
          DefaultInit, Nodify, OdictStorage)
class LateValidating(object):
    pass


@plumbing(NodeChildValidate, Adopt, Nodify, OdictStorage)
class StrictAttributes(object):

    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(NodeChildValidate, DefaultInit, Nodify, OdictStorage)
class OnlyValidating(object):
    """Without Adopt: setdefault is the plain mapping one."""


class Disallowing(zoo.AllowingValues):
    allow_non_node_childs = False


class InheritingNode(zoo.Node):

    def __setitem__(self, key, val):
        super(InheritingNode, self).__setitem__(key, val)


# name -> (class, factory of a fitting node)
STRICT = [
    ('BaseNode', zoo.BaseNode), ('OrderedNode', zoo.OrderedNode),
    ('Node', zoo.Node), ('AttributedNode', zoo.AttributedNode),
    ('MyNode', zoo.MyNode), ('SubNode', zoo.SubNode),
    ('InheritingNode', InheritingNode),
    ('OrderedPlain', zoo.OrderedPlain), ('DictReference', zoo.DictReference),
    ('OuterReference', zoo.OuterReference),
    ('LifecycleFull', zoo.LifecycleFull), ('CachedFull', zoo.CachedFull),
    ('EventsNode', zoo.EventsNode), ('Disallowing', Disallowing),
    ('ValidateBelowAdopt', ValidateBelowAdopt),
    ('UnicodeValidating', UnicodeValidating),
    ('CachedValidating', CachedValidating), ('LateValidating', LateValidating),
    ('StrictAttributes', StrictAttributes), ('OnlyValidating', OnlyValidating),
    ('GetattrNode', zoo.GetattrNode),
]
ALLOWING = ['AllowingValues', 'NodeAttributes', 'BaseNode', 'OrderedNode',
            'Node', 'ValidateBelowAdopt', 'CachedValidating',
            'OnlyValidating', 'MyNode', 'OuterReference', 'DictReference']
STRICT_BY_NAME = dict(STRICT)
WAYS = ('set', 'overwrite', 'update', 'updatedict', 'updatekw', 'setdefault',
        'attraccess', 'update2nd')
ORDER = ('ifirst', 'ilast', 'ibefore', 'iafter')


def write(m, way, key, val, good, ref):
    if way in ('set', 'overwrite'):
        return outcome(m.__setitem__, key, val)
    if way == 'update':
        return outcome(m.update, [(key, val)])
    if way == 'update2nd':
        # refused in the middle
        return outcome(m.update, [('zz', good), (key, val)])
    if way == 'updatedict':
        return outcome(m.update, {key: val})
    if way == 'updatekw':
        return outcome(m.update, **{key: val})
    if way == 'setdefault':
        return outcome(m.setdefault, key, val)
    if way == 'attraccess':
        if hasattr(m, 'as_attribute_access'):
            return outcome(setattr, m.as_attribute_access(), key, val)
        return outcome(m.__setitem__, key, val)
    if way == 'ifirst':
        return outcome(m.insertfirst, val)
    if way == 'ilast':
        return outcome(m.insertlast, val)
    return outcome(m.insertbefore if way == 'ibefore' else m.insertafter,
                   val, ref)


def contents(m):
    return [(k, m[k]) for k in m]


def only(m, want, what):
    got = contents(m)
    if len(got) != len(want) or any(
            k not in want or want[k] is not v for k, v in got):
        fail('%s: container holds %r, expected %r', what, got, want)
    vals = list(m.values())
    if len(vals) != len(want) or any(
            not any(v is w for w in want.values()) for v in vals):
        fail('%s: values() %r, expected %r', what, vals, want)
    if len(m) != len(want):
        fail('%s: len %d, expected %d', what, len(m), len(want))


@contextlib.contextmanager
def named(val, name, yes=True):
    """Give the value a name for the time of a block."""
    cls = inspect.isclass(val)
    had = 'name' in vars(val) if cls else False
    title = type.__dict__['__name__'].__get__(val) if cls else None
    former = vars(val)['name'] if had else None
    if yes:
        for attr in ('__name__', 'name'):
            try:
                setattr(val, attr, name)
            except Exception:
                break
    yield
    if cls and yes and vars(val).get('name') is name:
        type.__dict__['__name__'].__set__(val, title)
        if had:
            val.name = former
        else:
            del val.name


class Refuse(Cases):
    name = 'refuse'

    def cases(self):
        for name, cls in STRICT:
            ways = WAYS + (ORDER if hasattr(cls, 'insertfirst') else ())
            for vname in BAD:
                if name == 'OuterReference' and \
                        vname in PROVIDING:
                    # asked for its index before it is validated
                    continue
                for way in ways:
                    for fill in (0, 1, 2):
                        if fill == 0 and way in ('overwrite', 'ibefore',
                                                 'iafter'):
                            continue
                        yield (name, vname, way, fill)

    def run(self, case):
        name, vname, way, fill = case
        cls = STRICT_BY_NAME[name]
        m = cls(name='m')
        want = {}
        for i in range(fill):
            key = 'bc'[i]
            m[key] = want[key] = cls()
        val = BAD[vname]()
        key = 'b' if way == 'overwrite' else 'a'
        good = cls()
        ref = m['b'] if fill else None
        what = '%s of %s into %s' % (way, vname, name)
        with named(val, 'a', way in ORDER):
            out = write(m, way, key, val, good, ref)
        if way in ORDER:
            if out[0] == 'ok':
                fail('%s succeeded', what)
        else:
            expect(what, out, ('raise', ValueError))
        if way == 'update2nd':
            want['zz'] = good
        only(m, want, what)
        # everything still works
        node = cls()
        m['a'] = want['a'] = node
        only(m, want, what + ', then a node')
        m.setdefault('d', good if way != 'update2nd' else cls())
        if len(m) != len(want) + 1:
            fail('setdefault of a node after refusal')
        return 'refused'


class Provider(object):
    """Objects of this class are no nodes."""

    def __init__(self):
        self.__name__ = self.name = self.__parent__ = None

    def __iter__(self):
        return iter(())


class FalsyProvider(Provider):

    def __bool__(self):
        return False

    __nonzero__ = __bool__

    def __eq__(self, other):
        return not isinstance(other, FalsyProvider)

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__


class INodeExtended(INode):
    pass


class Claiming(Provider):
    """Says what it provides by itself."""
    __provides__ = None

    def __init__(self):
        super(Claiming, self).__init__()
        self.__provides__ = Provides(Claiming, INodeExtended)


class DictProvider(dict):
    __name__ = name = __parent__ = None


def directly(cls=Provider, iface=INode, how=directlyProvides):
    obj = cls()
    how(obj, iface)
    return obj


def implementing(iface=INode, base=Provider):
    """Class declared after it was created."""
    cls = type('Later', (base,), {})
    classImplements(cls, iface)
    return cls()


# name -> (factory, has got what Reference needs)
NODES = [
    ('directly', directly), ('also', lambda: directly(how=alsoProvides)),
    ('extended', lambda: directly(iface=INodeExtended)),
    ('falsy', lambda: directly(FalsyProvider)),
    ('exception', lambda: directly(type('E', (Provider, ValueError), {}))),
    ('dict', lambda: directly(DictProvider)), ('claiming', Claiming),
    ('later', implementing),
    ('later-sub', lambda: implementing(INodeExtended, FalsyProvider)),
    ('other-too', lambda: directly(OtherIface, how=lambda o, i: (
        setattr(o, '__name__', None), setattr(o, '__parent__', None),
        alsoProvides(o, i)))),
    ('mockup', MockupNode), ('base', zoo.BaseNode),
    ('sub', lambda: SubOfNode()), ('own', zoo.OwnNode),
    ('attrs', lambda: zoo.Node(name='a').attrs),
    ('allowing', zoo.AllowingValues),
]
NODE_BY_NAME = dict(NODES)


class Accept(Cases):
    """Whatever provides INode is a node, however it comes to do so."""
    name = 'accept'

    def cases(self):
        for name, cls in STRICT:
            for vname in NODE_BY_NAME:
                for way in WAYS + (
                        ORDER if hasattr(cls, 'insertfirst') else ()):
                    for fill in (1, 2):
                        yield (name, vname, way, fill)

    def run(self, case):
        name, vname, way, fill = case
        cls = STRICT_BY_NAME[name]
        m = cls(name='m')
        if IReference.providedBy(m) and \
                not IReference.providedBy(NODE_BY_NAME[vname]()):
            # these containers hold referencing nodes
            return 'skip'
        want = {}
        for i in range(fill):
            key = 'bc'[i]
            m[key] = want[key] = cls()
        val = NODE_BY_NAME[vname]()
        key = 'b' if way == 'overwrite' else 'a'
        good = cls()
        if way in ORDER:
            val.__name__ = 'a'
            if not isinstance(getattr(type(val), 'name', None), property):
                val.name = 'a'
        what = '%s of %s into %s' % (way, vname, name)
        out = write(m, way, key, val, good, m['b'])
        expect(what, out, ('any',))
        want[key] = val
        if way == 'update2nd':
            want['zz'] = good
        only(m, want, what)
        if m.get(key, m) is not val:
            fail('%s: get returned %r', what, m.get(key, m))
        del m[key]
        del want[key]
        only(m, want, what + ', removed')
        return 'accepted'


class Allow(Cases):
    """Any value is stored and returned unchanged when allowed."""
    name = 'allow'

    def cases(self):
        # classes which are nodes get a place
        values = [n for n in BAD if n not in PROVIDING]
        for name in ALLOWING:
            for vname in values:
                for way in WAYS:
                    for how in ('class', 'instance'):
                        yield (name, vname, way, how)

    def run(self, case):
        name, vname, way, how = case
        if name == 'AllowingValues':
            cls = zoo.AllowingValues
        elif name == 'NodeAttributes':
            cls = NodeAttributes
        else:
            cls = STRICT_BY_NAME[name]
        if how == 'class' and name not in ('AllowingValues',
                                           'NodeAttributes'):
            cls = type('Allowing', (cls,), {'allow_non_node_childs': True})
        m = cls(name='m', parent=zoo.Node(name='owner'))
        if how == 'instance':
            m.allow_non_node_childs = True
        val = BAD[vname]()
        want = {}
        if way == 'overwrite':
            m['a'] = 'before'
        good = STRICT_BY_NAME.get(name, zoo.BaseNode)()
        before = dict(getattr(val, '__dict__', {}))
        out = write(m, way, 'a', val, good, None)
        what = '%s of %s into allowing %s' % (way, vname, name)
        expect(what, out, ('any',))
        if way == 'setdefault' and out[1] is not val:
            fail('%s returned %r', what, out[1])
        want['a'] = val
        if way == 'update2nd':
            want['zz'] = good
        only(m, want, what)
        if m.get('a', m) is not val:
            fail('%s: get returned %r', what, m.get('a', m))
        if dict(getattr(val, '__dict__', {})) != before:
            fail('%s: value changed', what)
        if m.pop('a') is not val:
            fail('%s: pop returned another value', what)
        want.pop('a')
        only(m, want, what + ' popped')
        # a class not allowing is not affected
        other = STRICT_BY_NAME['OrderedNode']()
        expect('other class', outcome(other.__setitem__, 'a', 5),
               ('raise', ValueError))
        return 'stored'


class Histories(Machine):
    """Allowing and disallowing between writes."""
    no_merge = 0
    keys = ('a', 'b')

    def __init__(self, name, cls, depth):
        self.name = 'history-' + name
        self.cls = cls
        self.depth = depth

    def fresh(self):
        s = State()
        s.m = self.cls(name='m')
        s.want = {}
        s.allow = False
        s.nodes = [self.cls() for _ in range(2)]
        s.bad = [None, 'x', zoo.BaseNode]
        return s

    def ops(self, s):
        yield ('allow', True)
        yield ('allow', False)
        ways = ['set', 'update', 'updatekw', 'setdefault', 'attraccess']
        if hasattr(self.cls, 'insertfirst'):
            ways += ORDER
        for k in self.keys:
            for way in ways:
                for i in range(2):
                    if way not in ORDER and not any(
                            v is s.nodes[i] for v in s.want.values()):
                        yield ('node', way, k, i)
                if way in ORDER and s.allow:
                    continue
                for i in range(len(s.bad)):
                    yield ('bad', way, k, i)
            yield ('del', k)

    def apply(self, s, op):
        if op[0] == 'allow':
            s.m.allow_non_node_childs = s.allow = op[1]
            return
        if op[0] == 'del':
            expect('del', outcome(s.m.__delitem__, op[1]), ('any',)
                   if op[1] in s.want else ('raise', KeyError))
            s.want.pop(op[1], None)
            return
        kind, way, key, i = op
        val = (s.nodes if kind == 'node' else s.bad)[i]
        ref = s.m[list(s.m)[0]] if len(s.m) else None
        out = write(s.m, way, key, val, None, ref)
        what = '%s of %r, %sallowed' % (way, val, '' if s.allow else 'not ')
        if way == 'setdefault' and key in s.want:
            expect(what, out, ('is', s.want[key]))
            return 'present'
        if kind == 'bad' and way in ORDER:
            if out[0] == 'ok':
                fail('%s succeeded', what)
            return 'refused'
        if kind == 'bad' and not s.allow:
            expect(what, out, ('raise', ValueError))
            return 'refused'
        expect(what, out, ('any',))
        s.want[key] = val

    def check(self, s):
        only(s.m, s.want, 'history')


def tasks(tier):
    deep = tier == 'thorough'
    out = [Refuse(), Accept(), Allow()]
    for name in ('BaseNode', 'OrderedNode', 'Node', 'OrderedPlain',
                 'ValidateBelowAdopt', 'CachedValidating', 'LifecycleFull',
                 'OuterReference', 'UnicodeValidating'):
        out.append(Histories(name, STRICT_BY_NAME[name], 7 if deep else 5))
    return out
