"""C36: interfaces of nodes are those of their behaviors, and are kept."""
from mc import compose
from mc import env  # noqa: F401
from mc import zoo
from mc.core import Cases
from mc.core import Machine
from mc.core import State
from mc.core import fail
from node import behaviors
from node import interfaces
from node.behaviors import alias
from node import base
from node import events
from node import utils
from odict import odict
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import classImplements
from zope.interface import implementedBy
from zope.interface import implementer
from zope.interface import noLongerProvides
from zope.interface import providedBy
from zope.interface.adapter import AdapterRegistry
from zope.interface.common import mapping
from zope.interface.exceptions import Invalid
from zope.interface.verify import verifyObject
from zope.lifecycleevent import interfaces as lce
import copy
import itertools

TECHNIQUE = ('complete enumeration of sequences of behaviors composed over '
             'several kinds of classes, with the interfaces of the result '
             'compared with those of its parts and verified on an instance; '
             'breadth first search over histories of declaring interfaces on '
             'nodes of a tree interleaved with tree operations')
LEVEL_NOTE = (
    'All ordered sequences of up to 2 (3) of 35 behaviors over 7 kinds of '
    'classes; every stock class, aliaser, attribute access, index and event; '
    'histories up to depth 4 (5) of declarations on 3 nodes between moves, '
    'copies and removals.')
ASSUMPTIONS = ['interfaces are looked at as zope.interface reports them',
               'deserialized nodes provide what their class provides']

# What the documentation says a behavior provides.
PROMISED = {
    'Adopt': ['IAdopt'],
    'Alias': ['IAlias'],
    'AsAttrAccess': ['IAsAttrAccess'],
    'Attributes': ['IAttributes'],
    'AttributesLifecycle': ['IAttributesLifecycle'],
    'Cache': ['ICache'],
    'ChildFactory': ['IChildFactory'],
    'DefaultInit': ['IDefaultInit'],
    'DictStorage': ['IStorage'],
    'Events': ['IEvents'],
    'Fallback': ['IFallback'],
    'FixedChildren': ['IFixedChildren'],
    'GetattrChildren': ['IGetattrChildren'],
    'Invalidate': ['IInvalidate'],
    'Lifecycle': ['ILifecycle'],
    'NodeChildValidate': ['INodeChildValidate'],
    'Nodespaces': ['INodespaces'],
    'Nodify': ['INodify'],
    'OdictStorage': ['IStorage', 'IOrdered'],
    'Order': ['IOrder'],
    'Reference': ['IReference'],
    'Storage': ['IStorage'],
    'UUIDAware': ['IUUIDAware'],
    'UnicodeAware': ['IUnicodeAware'],
    'VolatileStorageInvalidate': ['IInvalidate'],
    'ItemMapping': ['IItemMapping'],
    'ReadMapping': ['IReadMapping'],
    'WriteMapping': ['IWriteMapping'],
    'EnumerableMapping': ['IEnumerableMapping'],
    'Mapping': ['IMapping'],
    'IterableMapping': ['IIterableMapping'],
    'ClonableMapping': ['IClonableMapping'],
    'ExtendedReadMapping': ['IExtendedReadMapping'],
    'ExtendedWriteMapping': ['IExtendedWriteMapping'],
    'FullMapping': ['IFullMapping'],
}
NAMES = sorted(PROMISED)


class IMark(Interface):
    pass


class IOther(Interface):
    pass


class IMore(IMark):
    pass


def iface(name):
    return getattr(interfaces, name, None) or getattr(mapping, name)


def closure(ifaces):
    out = set()
    for i in ifaces:
        out.update(i.__iro__)
    return out


@implementer(IMark)
class Declared(object):
    pass


class Plain(object):
    pass


class SubNode(base.BaseNode):
    pass


@implementer(IOther)
class SubOrdered(base.OrderedNode):
    pass


@plumbing(behaviors.Nodify, behaviors.OdictStorage)
class Small(object):
    pass


# base -> (bases, behaviors added innermost, what these promise)
BASES = {
    'object': ((object,), []),
    'plain': ((Plain,), ['Nodify', 'OdictStorage']),
    'declared': ((Declared,), ['Nodify', 'DictStorage']),
    'small': ((Small,), []),
    'BaseNode': ((base.BaseNode,), []),
    'SubOrdered': ((SubOrdered,), []),
    'Node': ((base.Node,), []),
}
OF_BASE = {
    'object': [],
    'plain': [],
    'declared': [IMark],
    'small': ['Nodify', 'OdictStorage'],
    'BaseNode': ['NodeChildValidate', 'Adopt', 'AsAttrAccess', 'DefaultInit',
                 'Nodify', 'DictStorage'],
    'SubOrdered': [IOther, 'NodeChildValidate', 'Adopt', 'AsAttrAccess',
                   'DefaultInit', 'Nodify', 'OdictStorage'],
    'Node': ['NodeChildValidate', 'Nodespaces', 'Adopt', 'Attributes',
             'Reference', 'Order', 'AsAttrAccess', 'DefaultInit', 'Nodify',
             'OdictStorage'],
}


def promised(names):
    """All interfaces of behaviors (or interfaces)."""
    out = []
    for name in names:
        if isinstance(name, str):
            out += [iface(n) for n in PROMISED[name]]
        else:
            out.append(name)
    return closure(out) | {Interface}


def names_of(ifaces):
    return sorted(i.__name__ for i in ifaces)


def compare(got, want, what):
    """Of all interfaces somebody could be asked for."""
    missing = want - got
    if missing:
        fail('%s does not provide %s', what, names_of(missing))
    spurious = (got - want) & EVERYTHING
    if spurious:
        fail('%s provides %s as well', what, names_of(spurious))


EVERYTHING = promised(NAMES) | {IMark, IOther, IMore}
EVERYTHING |= {interfaces.IRoot, interfaces.ILeaf, interfaces.ICallable,
               interfaces.IAliaser, interfaces.IAttributeAccess}


def keeps(ob, what):
    """Everything promised by the interfaces of ob is there."""
    for i in sorted(providedBy(ob).flattened(), key=lambda i: i.__name__):
        try:
            verifyObject(i, ob, tentative=True)
        except Invalid as e:
            fail('%s breaks the promises of %s: %s', what, i.__name__,
                 ' '.join(str(e).split())[-200:])


def make(cls):
    """Instance, or None if the class has got no usable constructor."""
    try:
        return cls(name='n')
    except TypeError:
        return cls()


def agree(got, want, what):
    if got != want:
        fail('%s: %r instead of %r', what, got, want)


class Compositions(Cases):
    """Behaviors composed in any order over any base."""

    def __init__(self, name, base, length, subset=None):
        self.name = name
        self.base = base
        self.length = length
        self.subset = subset or NAMES

    def cases(self):
        for n in range(0, self.length + 1):
            for seq in itertools.permutations(self.subset, n):
                yield seq

    def run(self, case):
        bases, inner = BASES[self.base]
        if set(inner) & set(case):
            return 'twice'
        before = {n: names_of(implementedBy(getattr(behaviors, n)))
                  for n in case}
        base_before = names_of(implementedBy(bases[0]).flattened())
        what = 'class of %s over %s' % ('+'.join(case) or 'nothing', self.base)
        try:
            cls = compose.compose(list(case) + inner, bases) \
                if case or inner else type('Composed', bases, {})
        except compose.REFUSED:
            return 'cannot be composed'
        want = promised(list(case) + inner + OF_BASE[self.base])
        compare(set(implementedBy(cls).flattened()), want, what)
        sub = type('Sub', (cls,), {})
        compare(set(implementedBy(sub).flattened()), want, 'subclass of ' +
                what)
        # further declarations do not replace those of the behaviors
        implementer(IMore)(sub)
        compare(set(implementedBy(sub).flattened()), want | closure([IMore]),
                'declared subclass of ' + what)
        compare(set(implementedBy(cls).flattened()), want,
                what + ' with a declared subclass')
        if before != {n: names_of(implementedBy(getattr(behaviors, n)))
                      for n in case} or \
                base_before != names_of(
                    implementedBy(bases[0]).flattened()):
            fail('%s changed the interfaces of its parts', what)
        if self.base == 'object':
            return 'parts'
        try:
            ob = make(cls)
        except (AttributeError, NotImplementedError, TypeError):
            return 'cannot be created'
        compare(set(providedBy(ob).flattened()), want, 'instance of ' + what)
        return 'composed'


class Verified(Cases):
    """Compositions which can work keep what their interfaces promise."""
    def __init__(self, name, length):
        self.name = name
        self.length = length

    def cases(self):
        return compose.selections(self.length)

    def run(self, case):
        whole = compose.whole(*case)
        try:
            cls = compose.compose(whole)
        except compose.REFUSED as e:
            return 'cannot be composed: %s' % type(e).__name__
        ob = make(cls)
        what = 'instance of %s' % '+'.join(whole)
        want = promised(whole)
        compare(set(providedBy(ob).flattened()), want, what)
        keeps(ob, what)
        return 'verified'


def attrs_access():
    return utils.AttributeAccess({'a': 1})


def attrs():
    return base.AttributedNode(name='n').attrs


def event(cls):
    node = base.BaseNode(name='n')
    return cls(node)


E = interfaces
OBJECTS = odict([
    ('PrefixAliaser', (lambda: alias.PrefixAliaser('p'), [E.IAliaser])),
    ('SuffixAliaser', (lambda: alias.SuffixAliaser('s'), [E.IAliaser])),
    ('PrefixSuffixAliaser', (lambda: alias.PrefixSuffixAliaser('p', 's'),
                             [E.IAliaser])),
    ('AliaserChain', (lambda: alias.AliaserChain([]), [E.IAliaser])),
    ('DictAliaser', (lambda: alias.DictAliaser([('a', 'b')]),
                     [E.IAliaser, mapping.IFullMapping])),
    ('ReverseMapping', (lambda: utils.ReverseMapping({'a': 1}),
                        [mapping.IEnumerableMapping])),
    ('AttributeAccess', (attrs_access, [E.IAttributeAccess])),
    ('NodeIndex', (lambda: base.Node(name='n').index,
                   [mapping.IReadMapping])),
    ('created', (lambda: event(events.NodeCreatedEvent),
                 [E.INodeCreatedEvent, lce.IObjectCreatedEvent])),
    ('added', (lambda: event(events.NodeAddedEvent),
               [E.INodeAddedEvent, lce.IObjectAddedEvent])),
    ('modified', (lambda: event(events.NodeModifiedEvent),
                  [E.INodeModifiedEvent, lce.IObjectModifiedEvent])),
    ('removed', (lambda: event(events.NodeRemovedEvent),
                 [E.INodeRemovedEvent, lce.IObjectRemovedEvent])),
    ('detached', (lambda: event(events.NodeDetachedEvent),
                  [E.INodeDetachedEvent, lce.IObjectRemovedEvent])),
    ('dispatcher', (events.EventDispatcher, [E.IEvents])),
    ('attributes', (attrs, [E.INode, E.INodify, E.IAdopt, E.IStorage,
                            E.IOrdered, E.INodeChildValidate])),
    ('AbstractNode', (base.AbstractNode, [E.INode, E.INodify, E.IAdopt])),
    ('BaseNode', (base.BaseNode, [
        E.INode, E.INodify, E.IAdopt, E.IStorage, E.INodeChildValidate,
        E.IAsAttrAccess, E.IDefaultInit])),
    ('OrderedNode', (base.OrderedNode, [
        E.INode, E.INodify, E.IAdopt, E.IStorage, E.INodeChildValidate,
        E.IAsAttrAccess, E.IDefaultInit, E.IOrdered])),
    ('Node', (base.Node, [
        E.INode, E.INodify, E.IAdopt, E.IStorage, E.INodeChildValidate,
        E.IAsAttrAccess, E.IDefaultInit, E.IOrdered, E.IOrder, E.IReference,
        E.IAttributes, E.INodespaces])),
    ('AttributedNode', (base.AttributedNode, [
        E.INode, E.INodify, E.IAdopt, E.IStorage, E.INodeChildValidate,
        E.IAsAttrAccess, E.IDefaultInit, E.IOrdered, E.IOrder, E.IReference,
        E.IAttributes, E.INodespaces])),
])
NODE_EVENTS = ['created', 'added', 'modified', 'removed', 'detached']


class Objects(Cases):
    """Everything the package hands out."""
    name = 'objects'

    def cases(self):
        for name in OBJECTS:
            yield ('provides', name)
        for name in zoo.MAPPINGS:
            yield ('keeps', name)
        for name in NODE_EVENTS:
            yield ('events', name)
        for a, b in itertools.product(NODE_EVENTS, NODE_EVENTS):
            yield ('told apart', a, b)
        yield ('lifecycle',)

    def run(self, case):
        if case[0] == 'provides':
            factory, want = OBJECTS[case[1]]
            ob = factory()
            got = set(providedBy(ob).flattened())
            compare(got, closure(want) | {Interface}, case[1])
            if not got >= closure(want):
                fail('%s lacks %s', case[1], names_of(closure(want) - got))
            if case[1] != 'AbstractNode':
                keeps(ob, case[1])
            return case[1]
        if case[0] == 'keeps':
            ob = make_stock(case[1])
            want = set(providedBy(ob).flattened())
            for verb in ('fresh', 'copied', 'deep copied'):
                if verb == 'copied':
                    if interfaces.IUUIDAware.providedBy(ob):
                        continue
                    ob = ob.copy()
                elif verb == 'deep copied':
                    ob = ob.deepcopy() if hasattr(ob, 'deepcopy') \
                        else copy.deepcopy(ob)
                if not interfaces.INode.providedBy(ob):
                    # a mapping or a node
                    agree(mapping.IItemMapping.providedBy(ob), True,
                           '%s is a mapping' % case[1])
                keeps(ob, '%s %s' % (verb, case[1]))
                compare(set(providedBy(ob).flattened()), want,
                        '%s %s' % (verb, case[1]))
            return 'keeps'
        if case[0] == 'lifecycle':
            want = {'created': E.INodeCreatedEvent,
                    'added': E.INodeAddedEvent,
                    'modified': E.INodeModifiedEvent,
                    'removed': E.INodeRemovedEvent,
                    'detached': E.INodeDetachedEvent}
            node = zoo.LifecycleNode(name='n')
            agree(set(node.events), set(want), 'keys of events')
            for key, cls in node.events.items():
                if not want[key].implementedBy(cls):
                    fail('event %s does not provide %s', key, want[key])
            return 'lifecycle'
        if case[0] == 'events':
            # a handler for node events is also found by the general interface
            ob = OBJECTS[case[1]][0]()
            for i in OBJECTS[case[1]][1]:
                reg = AdapterRegistry()
                reg.subscribe([E.INode, i], None, 'handler')
                agree(list(reg.subscriptions(
                    [providedBy(ob.object), providedBy(ob)], None)),
                    ['handler'], 'handlers for %s' % i.__name__)
            return 'events'
        _, a, b = case
        ob = OBJECTS[a][0]()
        own = OBJECTS[b][1][0]
        agree(own.providedBy(ob), a == b,
               'event %s taken for %s' % (a, b))
        return 'told apart'


def make_stock(name):
    factory = zoo.MAPPINGS[name][0]
    try:
        return factory(name='n')
    except TypeError:
        return factory()


MARKS = {'mark': IMark, 'more': IMore, 'leaf': interfaces.ILeaf}


class Declarations(Machine):
    """Interfaces declared on single nodes stay with these."""
    no_merge = 1

    def __init__(self, name, cls, depth):
        self.name = name
        self.cls = cls
        self.depth = depth

    def fresh(self):
        root = self.cls(name='root')
        a = root['a'] = self.cls()
        b = root['b'] = self.cls()
        s = State(nodes=[root, a, b], marks=[set(), set(), set()],
                  up=[None, 0, 0], names=['root', 'a', 'b'], copies=0)
        return s

    def roots(self, s):
        return [s.nodes, s.up, s.names]

    def ops(self, s):
        out = []
        for n in range(3):
            for m in sorted(MARKS):
                out.append(('declare', n, m))
                if MARKS[m] in s.marks[n]:
                    out.append(('revoke', n, m))
        out += [('class',), ('copy', 0), ('deepcopy', 0), ('shallow', 1),
                ('std', 0)]
        for n in (1, 2):
            if s.up[n] is not None:
                out += [('del', n), ('detach', n), ('pop', n)]
                if s.up[3 - n] == 0 and s.up[n] == 0:
                    out.append(('move', n))
            else:
                out.append(('add', n))
        return out

    def apply(self, s, op):
        kind = op[0]
        if kind == 'declare':
            alsoProvides(s.nodes[op[1]], MARKS[op[2]])
            s.marks[op[1]].add(MARKS[op[2]])
        elif kind == 'revoke':
            # those derived from it are gone as well
            noLongerProvides(s.nodes[op[1]], MARKS[op[2]])
            s.marks[op[1]] = {m for m in s.marks[op[1]]
                              if not m.extends(MARKS[op[2]], False)}
        elif kind == 'class':
            # a new class is no concern of existing nodes
            sub = type('Sub', (self.cls,), {})
            classImplements(sub, IOther)
            agree(IOther.providedBy(sub(name='x')), True, 'declared class')
        elif kind in ('copy', 'deepcopy', 'shallow', 'std'):
            src = s.nodes[op[1]]
            new = {'copy': lambda: src.copy(),
                   'shallow': lambda: src.copy(),
                   'deepcopy': lambda: src.deepcopy(),
                   'std': lambda: copy.deepcopy(src)}[kind]()
            self.is_like(new, s.marks[op[1]], kind)
            if kind in ('deepcopy', 'std'):
                for n in (1, 2):
                    if self.line(s, n)[-1] == 0:
                        child = new
                        for key in self.path(s, n):
                            child = child[key]
                        self.is_like(child, s.marks[n], kind + ' child')
                        # declarations on the copy are no concern of the
                        # original
                        alsoProvides(child, IOther)
            alsoProvides(new, IOther)
            for m in s.marks[op[1]]:
                if m.providedBy(new):
                    noLongerProvides(new, m)
        elif kind in ('del', 'detach', 'pop'):
            n = op[1]
            parent = s.nodes[s.up[n]]
            if kind == 'del':
                del parent[s.names[n]]
            elif kind == 'detach':
                agree(parent.detach(s.names[n]) is s.nodes[n], True,
                       'detached')
            else:
                agree(parent.pop(s.names[n]) is s.nodes[n], True, 'popped')
            s.up[n] = None
        elif kind == 'add':
            n = op[1]
            s.nodes[0][s.names[n]] = s.nodes[n]
            s.up[n] = 0
        elif kind == 'move':
            n = op[1]
            del s.nodes[0][s.names[n]]
            s.nodes[3 - n][s.names[n]] = s.nodes[n]
            s.up[n] = 3 - n
        self.check(s)
        return kind

    def path(self, s, n):
        out = []
        while s.up[n] is not None:
            out.insert(0, s.names[n])
            n = s.up[n]
        return out

    def is_like(self, node, marks, what):
        got = {i for i in closure([IMark, IOther, IMore,
                                   interfaces.ILeaf]) - {Interface}
               if i.providedBy(node)}
        agree(names_of(got), names_of(closure(marks) - {Interface}),
               'interfaces of %s' % what)
        if not interfaces.INode.providedBy(node):
            fail('%s is no node', what)

    def check(self, s):
        for n, node in enumerate(s.nodes):
            self.is_like(node, s.marks[n], 'node %s' % s.names[n])
        for n, node in enumerate(s.nodes):
            for i in (IMark, IMore, interfaces.ILeaf, IOther,
                      interfaces.INode):
                def provides(k):
                    return i is interfaces.INode or \
                        i in closure(s.marks[k])
                want = [k for k in self.children(s, n) if provides(k)]
                got = node.filteredvalues(i)
                if sorted(map(id, got)) != \
                        sorted(id(s.nodes[k]) for k in want):
                    fail('children of %s providing %s are %r', s.names[n],
                         i.__name__, [g.name for g in got])
                up = s.up[n]
                while up is not None and not provides(up):
                    up = s.up[up]
                if n and s.up[n] is None:
                    # removed nodes may know their former parent
                    continue
                if any(s.up[k] is None for k in self.line(s, n) if k):
                    continue
                expect_node(node.acquire(i),
                            None if up is None else s.nodes[up],
                            '%s acquired by %s' % (i.__name__, s.names[n]))

    def line(self, s, n):
        out = [n]
        while s.up[n] is not None:
            n = s.up[n]
            out.append(n)
        return out

    def children(self, s, n):
        return [k for k in (1, 2) if s.up[k] == n]


def expect_node(got, want, what):
    if got is not want:
        fail('%s: %r instead of %r', what, got, want)


def tasks(tier):
    thorough = tier == 'thorough'
    out = [Objects(), Verified('verified', 5 if thorough else 4)]
    for name in BASES:
        out.append(Compositions('over %s' % name, name, 2))
    if thorough:
        out.append(Compositions('three over declared', 'declared', 3))
        out.append(Compositions('three over small', 'small', 3))
        out.append(Compositions('three over Node', 'Node', 3))
    depth = 5 if thorough else 4
    for cls in (base.BaseNode, base.OrderedNode, base.AttributedNode,
                zoo.LifecycleNode):
        out.append(Declarations('declarations on %s' % cls.__name__, cls,
                                depth))
    return out
