"""C03: refused insertions leave container, child and index as they were."""
from mc import zoo
from mc.core import Cases
from mc.core import State
from mc.core import expect
from mc.core import fail
from mc.core import Violation
from mc.treemodel import INSERTS
from mc.treemodel import ORDERED
from mc.treemodel import TreeMachine
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors.alias import DictAliaser
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import SuffixAliaser
from node.interfaces import INode
from odict import odict
from plumber import Behavior
from plumber import default
from plumber import plumb
from plumber import plumbing
from zope.interface import implementer

TECHNIQUE = ('explicit-state BFS over histories with a fault injected at every '
             'storage write, on the real classes')
LEVEL_NOTE = (
    'Every history up to the depth over pools of 3-4 nodes in which a valid or '
    'refused insertion by every write path may follow any other, with a fault '
    'of every exception kind at each storage write; complete before/after '
    'comparison of all nodes and indexes. Further tasks refuse insertions in behaviors between '
    'the tested ones. Trusts the model and the list of '
    'exception kinds.')
ASSUMPTIONS = ['a faulting storage raises before changing anything',
               'a refused insertion is refused before or while storing']


def outcome(fn, *args, **kw):
    """Any exception is an outcome."""
    try:
        return ('ok', fn(*args, **kw))
    except Violation:
        raise
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not e.args:
            raise
        return ('raise', e)


class Stop(BaseException):
    pass


class Custom(Exception):
    pass


class Picky(KeyError):
    pass


KINDS = [Custom, KeyError, ValueError, RuntimeError, TypeError,
         AttributeError, OSError, NotImplementedError, StopIteration,
         LookupError, AssertionError, Picky, UnicodeError, ArithmeticError,
         Stop, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError]


class Fault(object):
    left = -1
    exc = None
    hit = False

    @classmethod
    def arm(cls, exc, n):
        cls.exc, cls.left, cls.hit = exc, n, False

    @classmethod
    def write(cls):
        if cls.exc is None:
            return
        if cls.left == 0:
            cls.left = -1
            cls.hit = True
            raise cls.exc
        cls.left -= 1

    @classmethod
    def disarm(cls):
        cls.exc = None


def _writer(base, name):
    orig = getattr(base, name)

    def method(self, *args, **kw):
        Fault.write()
        return orig(self, *args, **kw)
    return method


class FaultDict(dict):
    __setitem__ = _writer(dict, '__setitem__')
    update = _writer(dict, 'update')
    setdefault = _writer(dict, 'setdefault')


class FaultOdict(odict):
    __setitem__ = _writer(odict, '__setitem__')
    update = _writer(odict, 'update')
    setdefault = _writer(odict, 'setdefault')
    insertbefore = _writer(odict, 'insertbefore')
    insertafter = _writer(odict, 'insertafter')
    insertfirst = _writer(odict, 'insertfirst')
    insertlast = _writer(odict, 'insertlast')


def faulty(cls, ordered=True, **members):
    """Subclass of cls on a storage which can fail."""
    factory = FaultOdict if ordered else FaultDict

    def storage(self):
        try:
            return self.__dict__['_backend']
        except KeyError:
            self.__dict__['_backend'] = factory()
            return self.__dict__['_backend']
    members['storage'] = property(storage)
    return type('Faulty' + cls.__name__, (cls,), members)


@plumbing(Alias, NodeChildValidate, Adopt, DefaultInit, Nodify, OdictStorage)
class AliasOuter(object):
    aliaser = DictAliaser([('a', 'ra'), ('b', 'rb')])


@plumbing(NodeChildValidate, Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class AliasInner(object):
    aliaser = DictAliaser([('a', 'ra'), ('b', 'rb')])


@plumbing(NodeChildValidate, Adopt, Alias, DefaultInit, Nodify, OdictStorage)
class PrefixInner(object):
    aliaser = PrefixAliaser('p-')


@plumbing(Alias, NodeChildValidate, Adopt, DefaultInit, Nodify, OdictStorage)
class SuffixOuter(object):
    aliaser = SuffixAliaser('-s')


class NoNode(object):
    """Has a name, but is no node."""
    __name__ = name = 'a'
    __parent__ = parent = None
    uuid = None

    def __init__(self):
        import uuid
        self.uuid = uuid.uuid4()


BAD = ['text', None, zoo.Node]


class Refusing(TreeMachine):
    """TreeMachine with faults and refusals of every kind."""
    kinds = (0,)
    badkeys = ()
    badvalues = True
    faults = True
    spots = 2
    bads = 1

    def fresh(self):
        Fault.disarm()
        return super(Refusing, self).fresh()

    def ops(self, s):
        for op in super(Refusing, self).ops(s):
            yield op
            if self.faults and op[0] in INSERTS + ORDERED:
                way, p, key = op[:3]
                if way == 'setdefault' and self.child(s, p, key) is not None:
                    continue
                for kind in self.kinds:
                    for n in range(self.spots if way in ORDERED else 1):
                        yield ('fault', kind, n, op)
        for p in range(self.npool):
            keys = list(self.keys)
            if self.badvalues and p < self.bads:
                for way in self.inserts:
                    for v in range(len(BAD)):
                        if way in INSERTS:
                            key = keys[v % len(keys)]
                            if way == 'setdefault' and \
                                    self.child(s, p, key) is not None:
                                continue
                            yield ('bad', way, p, key, v)
                    if way in ORDERED:
                        for key in keys:
                            yield ('bad', way, p, key, -1)
            for c in range(self.npool):
                if c == p or s.held[c] is not None or \
                        self.points_to(s, p, c):
                    continue
                for key in self.badkeys:
                    for way in self.inserts:
                        yield ('badkey', way, p, key, c)
                for way in self.inserts:
                    if way in ORDERED:
                        yield ('noname', way, p, c)
                    if way in ('ibefore', 'iafter'):
                        yield ('noref', way, p, c)

    # ------------------------------------------------------------ snapshot
    def snapshot(self, s):
        out = []
        for node in s.nodes:
            d = [node.__name__, id(node.__parent__), id(node.parent),
                 [(k, id(node[k])) for k in node], len(node),
                 [id(v) for v in node.values()]]
            if self.reference:
                d.append(node.uuid)
                d.append([id(node.node(u)) for u in s.used])
                d.append([u in node.index for u in s.used])
            out.append(d)
        return out

    def unchanged(self, s, before, what):
        after = self.snapshot(s)
        for i, (x, y) in enumerate(zip(before, after)):
            if x != y:
                fail('%s was refused but node%d changed from %r to %r', what,
                     i, x, y)

    def perform(self, s, p, way, key, val):
        node = s.nodes[p]
        if way == 'set':
            return outcome(node.__setitem__, key, val)
        if way == 'update':
            return outcome(node.update, [(key, val)])
        if way == 'updatekw':
            return outcome(node.update, **{key: val})
        if way == 'setdefault':
            return outcome(node.setdefault, key, val)
        if way == 'ifirst':
            return outcome(node.insertfirst, val)
        if way == 'ilast':
            return outcome(node.insertlast, val)
        keys = list(node)
        ref = node[keys[0]] if keys else val
        return outcome(node.insertbefore if way == 'ibefore'
                       else node.insertafter, val, ref)

    def apply(self, s, op):
        if op[0] == 'fault':
            return self.fault(s, *op[1:])
        if op[0] == 'bad':
            way, p, key, v = op[1:]
            val = BAD[v]
            if v == -1:
                val = NoNode()
                val.name = val.__name__ = key
            before = self.snapshot(s)
            out = self.perform(s, p, way, key, val)
            if v >= 0 and way in INSERTS:
                expect('%s of %r' % (way, val), out, ('raise', ValueError))
            elif out[0] == 'ok':
                fail('%s of a non-node succeeded', way)
            self.unchanged(s, before, '%s of %r' % (way, val))
            return 'refused'
        if op[0] == 'badkey':
            way, p, key, c = op[1:]
            val = s.nodes[c]
            before = self.snapshot(s)
            out = self.perform(s, p, way, key, val)
            expect('%s under key %r' % (way, key), out, ('raise', KeyError))
            self.unchanged(s, before, '%s under %r' % (way, key))
            return 'refused'
        if op[0] == 'noname':
            way, p, c = op[1:]
            val = s.nodes[c]
            val.__name__ = s.names[c] = None
            before = self.snapshot(s)
            out = self.perform(s, p, way, None, val)
            if out[0] == 'ok':
                fail('%s of a node without name succeeded', way)
            self.unchanged(s, before, way)
            return 'refused'
        if op[0] == 'noref':
            way, p, c = op[1:]
            val = s.nodes[c]
            val.__name__ = s.names[c] = 'fresh'
            ref = self.factory()
            ref.__name__ = 'stranger'
            before = self.snapshot(s)
            out = outcome(s.nodes[p].insertbefore if way == 'ibefore'
                          else s.nodes[p].insertafter, val, ref)
            expect('%s relative to a node which is no child' % way, out,
                   ('raise', (ValueError, KeyError)))
            self.unchanged(s, before, way)
            if ref.__name__ != 'stranger' or ref.__parent__ is not None:
                fail('reference node changed')
            return 'refused'
        if op[0] in INSERTS + ORDERED:
            if op[0] in ORDERED:
                # apply() names the node before inserting
                s.nodes[op[3]].__name__ = s.names[op[3]] = op[2]
            before = self.snapshot(s)
            label = super(Refusing, self).apply(s, op)
            if label == 'refused':
                self.unchanged(s, before, repr(op))
            return label
        return super(Refusing, self).apply(s, op)

    def fault(self, s, kind, n, op):
        way, p, key, c = op[:4]
        val = s.nodes[c]
        if way in ORDERED:
            val.__name__ = s.names[c] = key
        before = self.snapshot(s)
        exc = KINDS[kind]('injected')
        Fault.arm(exc, n)
        try:
            if way in ('ibefore', 'iafter'):
                ref = s.nodes[self.child(s, p, op[4])]
                out = outcome(s.nodes[p].insertbefore if way == 'ibefore'
                              else s.nodes[p].insertafter, val, ref)
            else:
                out = self.perform(s, p, way, key, val)
        finally:
            Fault.disarm()
        what = '%s with %s raised by storage write %d' % (
            way, type(exc).__name__, n)
        taken = way in ORDERED and self.child(s, p, key) is not None
        collides = taken or self.collides(s, p, c)
        if not Fault.hit and not collides:
            # nothing failed: a plain insertion
            expect(what, out, ('any',))
            pos = None
            if way in ORDERED:
                keys = [k for k, _ in s.ch[p]]
                pos = {'ifirst': 0, 'ilast': len(keys)}.get(way)
                if pos is None:
                    pos = keys.index(op[4]) + (way == 'iafter')
            self.link(s, p, key, c, pos)
            return 'no-fault'
        if out[0] != 'raise':
            fail('%s: exception did not propagate', what)
        if Fault.hit and out[1] is not exc and not (
                isinstance(exc, KeyError)
                and isinstance(out[1], (KeyError, ValueError))):
            fail('%s: %r propagates instead', what, out[1])
        self.unchanged(s, before, what)
        return 'fault' if Fault.hit else 'refused'


class Kinds(Cases):
    """Every exception kind, class, write path and former state of child."""
    name = 'exception-kinds'
    ways = INSERTS + ORDERED

    def __init__(self, specs, fills):
        self.specs = specs
        self.fills = fills

    def cases(self):
        for name in self.specs:
            for way in self.ways:
                if way in ORDERED and \
                        not hasattr(self.specs[name][0], 'insertfirst'):
                    continue
                for kind in range(len(KINDS)):
                    for state in ('fresh', 'placed', 'removed', 'subtree'):
                        for fill in self.fills:
                            yield (name, way, kind, state, fill)

    def run(self, case):
        name, way, kind, state, fill = case
        factory, reference, ordered = self.specs[name]
        m = Refusing(name, factory, 1, npool=6, nroots=1, kinds=(kind,),
                     reference=reference, unordered=not ordered,
                     check_location=False, check_index=False)
        s = m.start()
        if state == 'placed':
            s.nodes[1].__name__ = s.names[1] = 'before'
            s.nodes[1].__parent__ = s.nodes[5]
            s.ptr[1] = 5
        elif state == 'removed':
            m.apply(s, ('set', 5, 'z', 1))
            m.apply(s, ('del', 5, 'z'))
        elif state == 'subtree':
            m.apply(s, ('set', 1, 'x', 5))
        for i in range(fill):
            m.apply(s, ('set', 0, 'abc'[i], 2 + i))
        m.check(s)
        key = 'b' if way in ('set', 'update', 'updatekw') else 'n'
        op = (way, 0, key, 1)
        if way in ('ibefore', 'iafter'):
            if not fill:
                return 'skip'
            op += ('abc'[fill - 1],)
        label = None
        for n in range(2 if way in ORDERED else 1):
            label = m.apply(s, ('fault', kind, n, op))
            m.check(s)
            if label == 'no-fault':
                return label
        m.apply(s, op)
        if s.nodes[0][key] is not s.nodes[1]:
            fail('later valid insertion did not store the child')
        if reference:
            m.index(s)
        m.location(s)
        m.check(s)
        return label


class Meddle(Behavior):
    """Below Adopt: changes the child to be, then refuses or stores it."""
    meddle = default(None)
    refuse = default(None)
    stored_before = default(False)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.refuse is None:
            _next(self, key, val)
            return
        if self.stored_before:
            _next(self, key, val)
        for attr, value in self.meddle:
            setattr(val, attr, value)
        if self.stored_before:
            self.storage.pop(key)
        raise self.refuse


@plumbing(NodeChildValidate, Adopt, Meddle, DefaultInit, Nodify, OdictStorage)
class MeddlePlain(object):
    pass


@plumbing(NodeChildValidate, Adopt, Meddle, Order, DefaultInit, Nodify,
          OdictStorage)
class MeddleOrder(object):
    pass


@plumbing(NodeChildValidate, Adopt, Order, Reference, Meddle, DefaultInit,
          Nodify, OdictStorage)
class MeddleReference(object):
    pass


@plumbing(Reference, NodeChildValidate, Adopt, Lifecycle, Meddle, Attributes,
          DefaultInit, Nodify, DictStorage)
class MeddleOuter(object):
    pass


class MeddleSub(MeddleReference):
    pass


class OtherParent(object):
    pass


class Meddling(Cases):
    """Whatever happens to the child on the way down is undone."""
    name = 'meddling'
    classes = {
        'plain': MeddlePlain, 'order': MeddleOrder, 'sub': MeddleSub,
        'reference': MeddleReference, 'outer': MeddleOuter}
    changes = {
        'nothing': (), 'name': (('__name__', 'other'),),
        'noname': (('__name__', None),), 'noparent': (('__parent__', None),),
        'parent': (('__parent__', 'new'),),
        'self': (('__parent__', 'self'), ('__name__', 'k')),
        'both': (('__name__', 'other'), ('__parent__', 'new')),
        'none': (('__name__', None), ('__parent__', None)),
    }

    def cases(self):
        for name in sorted(self.classes):
            for way in INSERTS + ORDERED:
                if way in ORDERED and \
                        not hasattr(self.classes[name], 'insertfirst'):
                    continue
                for change in sorted(self.changes):
                    for state in ('fresh', 'placed', 'half', 'empty'):
                        for stored in (False, True):
                            if stored and way in ORDERED:
                                continue
                            for kind in range(len(KINDS)):
                                yield (name, way, change, state, stored, kind)

    def run(self, case):
        name, way, change, state, stored, kind = case
        cls = self.classes[name]
        m = Refusing(name, cls, 1, npool=4, nroots=1,
                     reference=hasattr(cls, 'node'),
                     check_location=False, check_index=False)
        s = m.start()
        box, val, ref, other = s.nodes
        box['r'] = ref
        if state == 'placed':
            val.__name__ = 'v'
            val.__parent__ = other
        elif state == 'half':
            val.__name__ = 'v'
        elif state == 'empty':
            val.__name__ = ''
            val.__parent__ = other
        if way in ORDERED:
            val.__name__ = 'k'
        box.meddle = [
            (attr, {'new': OtherParent(), 'self': box}.get(value, value)
             if attr == '__parent__' else value)
            for attr, value in self.changes[change]]
        box.refuse = KINDS[kind]('refused')
        box.stored_before = stored
        before = m.snapshot(s)
        if way in ('ibefore', 'iafter'):
            out = outcome(box.insertbefore if way == 'ibefore'
                          else box.insertafter, val, ref)
        else:
            out = m.perform(s, 0, way, 'k', val)
        what = '%s, changing %s below' % (way, change)
        if out[0] != 'raise' or out[1] is not box.refuse:
            fail('%s: %r', what, out)
        m.unchanged(s, before, what)
        box.refuse = None
        val.__name__ = 'k'
        expect('again', m.perform(s, 0, way, 'k', val), ('any',))
        if box['k'] is not val or val.parent is not box or val.name != 'k':
            fail('%s: not stored afterwards', what)
        return 'undone'


class ByClass(zoo.OrderedNode):
    """Name and parent only known by the class."""
    __name__ = 'class'
    __parent__ = OtherParent()

    def __init__(self):
        pass


class ByProperty(zoo.OrderedNode):
    """Name and parent are kept somewhere else."""

    def __init__(self):
        self.location = ['prop', None]

    __name__ = property(lambda self: self.location[0],
                        lambda self, v: self.location.__setitem__(0, v))
    __parent__ = property(lambda self: self.location[1],
                          lambda self, v: self.location.__setitem__(1, v))


@implementer(INode)
class Slotted(object):
    """Just what is needed."""
    __slots__ = ('__name__', '__parent__')

    def __init__(self):
        self.__name__ = 'slot'
        self.__parent__ = None

    name = property(lambda self: self.__name__)
    parent = property(lambda self: self.__parent__)


class Computed(zoo.OrderedNode):
    """Attributes live in another object."""

    def __init__(self):
        object.__setattr__(self, 'other', {
            '__name__': 'other', '__parent__': None})

    def __getattribute__(self, name):
        if name in ('__name__', '__parent__'):
            return object.__getattribute__(self, 'other')[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        if name in ('__name__', '__parent__'):
            self.other[name] = value
        else:
            object.__setattr__(self, name, value)


class Same(zoo.OrderedNode):
    """Equal to anything."""

    def __init__(self):
        self.__name__ = 'same'
        self.__parent__ = None

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False

    __hash__ = None


class Located(Cases):
    """Wherever a child keeps its name and parent, a refusal restores them."""
    name = 'located'
    kids = [ByClass, ByProperty, Slotted, Computed, Same, zoo.OrderedNode]
    classes = {
        'plain': MeddlePlain, 'order': MeddleOrder,
        'faulty': faulty(zoo.OrderedNode), 'ordered': faulty(zoo.OrderedPlain)}

    def cases(self):
        for name in sorted(self.classes):
            for way in INSERTS + ORDERED:
                if way in ORDERED and \
                        not hasattr(self.classes[name], 'insertfirst'):
                    continue
                for kid in range(len(self.kids)):
                    for place in (False, True):
                        for kind in range(len(KINDS)):
                            for n in range(2 if way in ORDERED and
                                           name == 'ordered' else 1):
                                yield (name, way, kid, place, kind, n)

    def run(self, case):
        name, way, kid, place, kind, n = case
        box = self.classes[name](name='box')
        ref = box['r'] = zoo.OrderedNode()
        val = self.kids[kid]()
        if place:
            val.__name__ = 'k'
            val.__parent__ = OtherParent()
        key = 'k'
        if way in ORDERED:
            if val.__name__ is None:
                val.__name__ = 'k'
            key = val.__name__
        before = val.__name__, val.__parent__
        exc = KINDS[kind]('refused')
        m = Refusing(name, None, 1)
        s = State(nodes=[box])

        def perform():
            if way in ('ibefore', 'iafter'):
                return outcome(getattr(box, 'insert' + way[1:]), val, ref)
            return m.perform(s, 0, way, key, val)
        if name in ('plain', 'order'):
            box.meddle = ()
            box.refuse = exc
        else:
            Fault.arm(exc, n)
        try:
            out = perform()
        finally:
            Fault.disarm()
        if out[0] != 'raise' or (out[1] is not exc and not isinstance(
                exc, KeyError)):
            fail('%s: %r', way, out)
        got = val.__name__, val.__parent__
        if got[0] != before[0] or got[1] is not before[1]:
            fail('%s was refused but the child changed from %r to %r', way,
                 before, got)
        if list(box) != ['r'] or box['r'] is not ref:
            fail('%s was refused but the container holds %r', way, list(box))
        box.refuse = None
        expect('again', perform(), ('any',))
        if box[key] is not val or val.__parent__ is not box \
                or val.__name__ != key:
            fail('%s: not stored afterwards', way)
        return 'restored'


F = {
    'Node': (faulty(zoo.Node), True, True),
    'AttributedNode': (faulty(zoo.AttributedNode), True, True),
    'BaseNode': (faulty(zoo.BaseNode, False), False, False),
    'OrderedNode': (faulty(zoo.OrderedNode), False, True),
    'MyNode': (faulty(zoo.MyNode), False, True),
    'OrderedPlain': (faulty(zoo.OrderedPlain), False, True),
    'OrderedReference': (faulty(zoo.OrderedReference), True, True),
    'DictReference': (faulty(zoo.DictReference, False), True, False),
    'OuterReference': (faulty(zoo.OuterReference), True, True),
    'LifecycleFull': (faulty(zoo.LifecycleFull), True, True),
    'LifecycleNode': (faulty(zoo.LifecycleNode), False, True),
    'CachedFull': (faulty(zoo.CachedFull), True, True),
    'UnicodeNode': (faulty(zoo.UnicodeNode), False, True),
    'FallbackNode': (faulty(zoo.FallbackNode), False, True),
    'CachedNode': (faulty(zoo.CachedNode), False, True),
    'EventsNode': (faulty(zoo.EventsNode, False), False, False),
    'GetattrNode': (faulty(zoo.GetattrNode), False, True),
}
NOVALIDATE = ('UnicodeNode', 'FallbackNode', 'CachedNode')


def tasks(tier):
    deep = tier == 'thorough'
    out = [Kinds(F, (0, 1, 2, 3) if deep else (0, 3)), Meddling(), Located()]
    for name in ('Node', 'BaseNode', 'OrderedNode', 'OrderedPlain',
                 'OrderedReference', 'DictReference', 'OuterReference',
                 'LifecycleFull', 'CachedFull', 'UnicodeNode', 'CachedNode'):
        factory, reference, ordered = F[name]
        order = hasattr(factory, 'insertfirst')
        out.append(Refusing(
            name, factory, 4 if deep else 3, npool=3,
            keys=('a', 'b') if deep or order else ('a', 'b'),
            inserts=INSERTS + (ORDERED if order else ()),
            removes=('del', 'detach') if deep else ('detach',),
            reference=reference, bads=3 if deep else 1,
            unordered=not ordered, badvalues=name not in NOVALIDATE,
            kinds=(0, 1, 2) if deep else (0, 1)))
        if reference:
            # node 3 starts with the uuid of node 0, node 2 with that of 1
            out.append(Refusing(
                name + '-clash', factory, 4 if deep else 3, npool=4,
                keys=('a', 'b') if deep else ('a',),
                inserts=('set',) + (('ifirst', 'iafter') if order else ()),
                removes=('detach',), reference=True, unordered=not ordered,
                badvalues=False, faults=deep,
                clash=((3, 0), (2, 1)), check_index=False))
    for cls, good, bad in (
            (AliasOuter, ('a', 'b'), ('c', 'ra')),
            (AliasInner, ('a', 'b'), ('c', 'ra')),
            (PrefixInner, ('p-', 'p-x'), ('x', '')),
            (SuffixOuter, ('-s', 'x-s'), ('x', 's'))):
        out.append(Refusing(
            cls.__name__, faulty(cls), 4 if deep else 3, npool=3, keys=good,
            badkeys=bad, inserts=('set', 'update', 'setdefault'),
            removes=('del', 'detach'), kinds=(0, 1, 2) if deep else (0, 1),
            check_location=False))
    return out
