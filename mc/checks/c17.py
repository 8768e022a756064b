"""C17: lifecycle notifications."""
import itertools
from mc import zoo
from mc.core import Cases
from mc.core import expect
from mc.core import fail
from mc.core import outcome
from mc.treemodel import ORDERED
from mc.treemodel import TreeMachine
from node.behaviors import Adopt
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.events import NodeAddedEvent
from node.events import NodeCreatedEvent
from node.events import NodeDetachedEvent
from node.events import NodeModifiedEvent
from node.events import NodeRemovedEvent
from node.interfaces import INodeAddedEvent
from node.interfaces import INodeCreatedEvent
from node.interfaces import INodeDetachedEvent
from node.interfaces import INodeModifiedEvent
from node.interfaces import INodeRemovedEvent
from plumber import Behavior
from plumber import plumb
from plumber import plumbing
from zope.component import provideHandler
from zope.interface import Interface
from zope.interface.interfaces import IObjectEvent

TECHNIQUE = ('explicit-state BFS over histories of structural and attribute '
             'changes, refused ones and failing or re-entrant handlers, on the '
             'real classes; the recorded notifications are compared with '
             'those the tree model predicts')
LEVEL_NOTE = (
    'Every history up to the depth over pools of 3 nodes, 8 classes, all '
    'insertion, removal and order operations, attribute operations in item '
    'and attribute style; each notification is checked against the state at '
    'the moment it arrives; events configured on instances. Trusts the tree '
    'model.')
ASSUMPTIONS = ['nodespace assignments are neither insertions nor deletions',
               'what behaviors do to the very node while it detaches a child '
               'is left open',
               'overwriting a key is one insertion']

RECORD = []
HOOK = [None]


def record(ob, event):
    now = None
    if HEARD:
        for hook in HEARD:
            hook(event)
        return
    if INodeAddedEvent.providedBy(event):
        kind = 'added'
        now = event.newParent.get(event.newName) is ob
    elif INodeDetachedEvent.providedBy(event):
        kind = 'detached'
        now = event.oldName not in list(event.oldParent)
    elif INodeRemovedEvent.providedBy(event):
        kind = 'removed'
        now = event.oldName not in list(event.oldParent)
    elif INodeModifiedEvent.providedBy(event):
        kind = 'modified'
        now = dict(ob.attrs.items()) if not isinstance(
            ob.attrs, zoo_AttributeAccess) else dict(ob.nodespaces[
                '__attrs__'].items())
    elif INodeCreatedEvent.providedBy(event):
        kind = 'created'
        now = ob.name
    else:
        return
    if event.object is not ob:
        fail('event object %r is not the notified %r', event.object, ob)
    RECORD.append((kind, type(event), ob, getattr(event, 'oldParent', None),
                   getattr(event, 'oldName', None),
                   getattr(event, 'newParent', None),
                   getattr(event, 'newName', None), now))
    hook = HOOK[0]
    if hook is not None:
        HOOK[0] = None
        hook(kind)


from node.utils import AttributeAccess as zoo_AttributeAccess  # noqa: E402
from node.utils import UNSET  # noqa: E402

provideHandler(record, (Interface, IObjectEvent))


class Boom(Exception):
    pass


@plumbing(AttributesLifecycle)
class LifecycleAttributes(NodeAttributes):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Lifecycle,
          DefaultInit, Nodify, OdictStorage)
class Inner(object):
    """Lifecycle below adoption."""
    attributes_factory = LifecycleAttributes


@plumbing(Lifecycle, NodeChildValidate, Nodespaces, Adopt, Attributes,
          Reference, Order, AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class Outer(object):
    """Lifecycle above everything."""
    attributes_factory = LifecycleAttributes


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Order, Lifecycle,
          DefaultInit, Nodify, OdictStorage)
class OrderAbove(object):
    attributes_factory = LifecycleAttributes
    attribute_access_for_attrs = True


@plumbing(Lifecycle, NodeChildValidate, Adopt, Cache, Invalidate, DefaultInit,
          Nodify, OdictStorage)
class Cached(object):
    pass


@plumbing(Lifecycle, Adopt, DefaultInit, Nodify, DictStorage)
class DictLifecycle(object):
    pass


@plumbing(Lifecycle, DefaultInit, Nodify, OdictStorage)
class NotAdopting(object):
    """Children are not told where they are."""


class MyAdded(NodeAddedEvent):
    pass


class MyRemoved(NodeRemovedEvent):
    pass


class MyDetached(NodeDetachedEvent):
    pass


class MyModified(NodeModifiedEvent):
    pass


class MyCreated(NodeCreatedEvent):
    pass


class Custom(Inner):
    """Other event classes."""
    events = {'created': MyCreated, 'added': MyAdded, 'removed': MyRemoved,
              'modified': MyModified, 'detached': MyDetached}


class Configured(Outer):
    """Event classes are configured on the node."""
    own = dict(created=MyCreated, added=MyAdded, removed=MyRemoved,
               modified=MyModified, detached=MyDetached)

    def __init__(self, name=None, parent=None):
        self.events = self.own
        super(Configured, self).__init__(name=name, parent=parent)


class SubOuter(Outer):

    def __init__(self, name=None, parent=None):
        super(SubOuter, self).__init__(name=name, parent=parent)

    def __setitem__(self, key, val):
        super(SubOuter, self).__setitem__(key, val)


CLASSES = {
    'LifecycleNode': (zoo.LifecycleNode, ''),
    'LifecycleFull': (zoo.LifecycleFull, 'orA'),
    'Inner': (Inner, 'a'), 'Outer': (Outer, 'ora'),
    'OrderAbove': (OrderAbove, 'oa'), 'Cached': (Cached, 'i'),
    'DictLifecycle': (DictLifecycle, 'u'), 'Custom': (Custom, 'a'),
    'Configured': (Configured, 'ora'), 'SubOuter': (SubOuter, 'ora'), 'NotAdopting': (NotAdopting, 'n'),
}
STOCK = {'created': NodeCreatedEvent, 'added': NodeAddedEvent,
         'removed': NodeRemovedEvent, 'detached': NodeDetachedEvent,
         'modified': NodeModifiedEvent}


def event_class(cls, kind):
    if issubclass(cls, Custom):
        return Custom.events[kind]
    if issubclass(cls, Configured):
        return Configured.own[kind]
    return STOCK[kind]


def compare(got, want, cls, what, ordered=True):
    """want: (kind, object, parent, name, state)."""
    shown = [(g[0], getattr(g[2], 'name', g[2])) for g in got]
    if len(got) != len(want) or sorted(g[0] for g in got) != sorted(
            w[0] for w in want):
        fail('%s notified %r, expected %r', what, shown,
             [(w[0], w[3]) for w in want])
    got = list(got)
    for w in want:
        for n, g in enumerate(got):
            if g[0] == w[0] and g[2] is w[1]:
                break
        else:
            fail('%s notified %r, expected %s of %r', what, shown, w[0],
                 w[1])
        if ordered and n:
            fail('%s notified in wrong order: %r', what, shown)
        kind, typ, ob, op, on, np, nn, now = got.pop(n)
        if typ is not event_class(cls, kind):
            fail('%s notified %s by %r', what, kind, typ)
        if kind == 'added':
            ok = op is None and on is None and np is w[2] and nn == w[3]
            if not now:
                fail('%s notified added before the node was added', what)
        elif kind in ('removed', 'detached'):
            ok = np is None and nn is None and op is w[2] and on == w[3]
            if not now:
                fail('%s notified %s before the node was gone', what, kind)
        elif kind == 'modified':
            ok = True
            if now != w[4]:
                fail('%s notified modified when attributes were %r, expected '
                     '%r', what, now, w[4])
        else:
            ok = True
        if not ok:
            fail('%s notified %s with old %r %r new %r %r, expected %r', what,
                 kind, op, on, np, nn, w)


class Tree(TreeMachine):
    """Tree histories with notifications."""
    npool = 3
    attr = False
    extra = True
    cls = None
    access = False
    invalidate = False
    validate = False
    rename = False

    def fresh(self):
        del RECORD[:]
        HOOK[0] = None
        self.elsewhere = zoo.OrderedNode(name='elsewhere')
        del RECORD[:]
        s = super(Tree, self).fresh()
        created = [r for r in RECORD if r[0] == 'created']
        want = [('created', n, None, None, None) for n in s.nodes]
        compare(created, want, self.cls, 'construction')
        s.attrs = [dict() for _ in s.nodes]
        del RECORD[:]
        return s

    def ops(self, s):
        for op in super(Tree, self).ops(s):
            yield op
        n = self.npool
        for p in range(n if self.depth > 3 else 2):
            if self.attr:
                for k in ('x', 'y')[:2 if p == 0 else 1]:
                    for act in ('set', 'del', 'pop', 'setdefault'):
                        yield ('attr', p, act, k)
                if p == 0:
                    yield ('attr', p, 'same', 'x')
                    yield ('attr', p, 'update', 'x')
                    yield ('attr', p, 'clear', 'x')
                    yield ('attr', p, 'boom', 'x')
            if not self.extra:
                continue
            yield ('reads', p)
            if self.rename and s.nodes[p].__name__ != 'renamed':
                for how in ('name', 'parent')[:1 if self.reference else 2]:
                    yield ('rename', p, how)
            if self.validate:
                yield ('bad', p, self.keys[0])
            if self.invalidate:
                yield ('inv', p, self.keys[0])
                yield ('invall', p)
            for k in self.keys:
                if self.child(s, p, k) is None:
                    continue
                for way in ('del', 'detach'):
                    yield ('boom', p, way, k)
                    for c in range(n):
                        if c != p and s.held[c] is None \
                                and not self.points_to(s, p, c) \
                                and not self.collides(s, p, c):
                            yield ('reent', p, way, k, c)
            for c in range(n):
                if c != p and s.held[c] is None \
                        and not self.points_to(s, p, c) \
                        and not self.collides(s, p, c):
                    yield ('boom', p, 'set', self.keys[0], c)

    def attributes(self, s, p):
        return s.nodes[p].attrs

    def apply(self, s, op):
        if not hasattr(s, 'attrs'):
            # setup
            return super(Tree, self).apply(s, op)
        del RECORD[:]
        kind, p = op[:2]
        node = s.nodes[p]
        pre = list(s.ch[p])
        if kind == 'attr':
            return self.apply_attr(s, op)
        if kind == 'reads':
            self.reads(s, p)
            compare(RECORD, [], self.cls, 'reading')
            return
        if kind == 'rename':
            node.__name__ = 'renamed'
            if op[2] == 'parent':
                node.__parent__ = self.elsewhere
            compare(RECORD, [], self.cls, 'renaming')
            return
        if kind == 'bad':
            out = outcome(node.__setitem__, op[2], 1)
            expect('bad value', out, ('raise', ValueError))
            compare(RECORD, [], self.cls, 'refused value')
            return
        if kind in ('inv', 'invall'):
            if kind == 'inv':
                out = outcome(node.invalidate, op[2])
                gone = [(k, c) for k, c in pre if k == op[2]]
            else:
                out = outcome(node.invalidate)
                gone = pre
            if kind == 'inv' and not gone:
                expect(kind, out, ('raise', KeyError))
            else:
                expect(kind, out, ('any',))
            for k, _ in gone:
                self.unlink(s, p, k)
            compare(RECORD, [('removed', s.nodes[c], node, k, None)
                             for k, c in gone], self.cls, kind, False)
            return
        if kind == 'boom':
            way, k = op[2:4]

            def boom(_):
                raise Boom()
            HOOK[0] = boom
            if way == 'set':
                out = outcome(node.__setitem__, k, s.nodes[op[4]])
                # Adopt below may take the adoption back: model only what
                # every composition does, i.e. discard this history
                HOOK[0] = None
                expect('handler error', out, ('raise', Boom))
                del RECORD[:]
                return self.after_boom(s, p, k)
            c = self.child(s, p, k)
            out = outcome(getattr(node, '__delitem__' if way == 'del'
                                  else way), k)
            HOOK[0] = None
            expect('handler error', out, ('raise', Boom))
            self.unlink(s, p, k)
            compare(RECORD, [('removed' if way == 'del' else 'detached',
                              s.nodes[c], node, k, None)], self.cls,
                    '%s with failing handler' % way)
            return
        if kind == 'reent':
            way, k, c = op[2:5]
            gone = self.child(s, p, k)

            def again(_):
                node['new'] = s.nodes[c]
            HOOK[0] = again
            out = outcome(getattr(node, '__delitem__' if way == 'del'
                                  else way), k)
            HOOK[0] = None
            expect('%s with changing handler' % way, out, ('any',))
            self.unlink(s, p, k)
            old = self.child(s, p, 'new')
            if old == gone:
                old = None
            self.link(s, p, 'new', c)
            compare(RECORD, [
                ('removed' if way == 'del' else 'detached', s.nodes[gone],
                 node, k, None),
                ('added', s.nodes[c], node, 'new', None)], self.cls,
                '%s with changing handler' % way)
            return
        label = super(Tree, self).apply(s, op)
        want = []
        post = s.ch[p]
        if label in ('refused', 'missing', 'present'):
            pass
        elif kind in ('set', 'update', 'updatekw', 'setdefault', 'again') \
                or kind in ORDERED:
            key = op[2]
            c = [c for k, c in post if k == key][0]
            want = [('added', s.nodes[c], node, key, None)]
        elif kind in ('del', 'pop', 'popd', 'popitem', 'clear', 'detach'):
            now = [k for k, _ in post]
            want = [('detached' if kind == 'detach' else 'removed',
                     s.nodes[c], node, k, None)
                    for k, c in pre if k not in now]
        compare(RECORD, want, self.cls, '%s %r' % (kind, op[2:]),
                kind != 'clear')
        return label

    def after_boom(self, s, p, k):
        """Resynchronize: the insertion may or may not have happened, but
        afterwards notifications have to be normal."""
        node = s.nodes[p]
        old = self.child(s, p, k)
        out = outcome(node.__getitem__, k)
        if old is not None:
            # leave nothing behind of a half done replacement
            self.unlink(s, p, k)
        if out[0] == 'ok':
            node.detach(k)
            if [r[0] for r in RECORD] != ['detached']:
                fail('detaching after a failed handler notified %r', [
                    r[0] for r in RECORD])
        for i, n in enumerate(s.nodes):
            if s.held[i] is None:
                s.ptr[i] = None
                n.__parent__ = None
        return 'resynchronized'

    def apply_attr(self, s, op):
        _, p, act, k = op
        node, data = s.nodes[p], s.attrs[p]
        attrs = self.attributes(s, p)
        access = isinstance(attrs, zoo_AttributeAccess)
        store = node.nodespaces['__attrs__']
        n = len(data) + 1
        want = []
        if act in ('set', 'boom'):
            if act == 'boom':
                def boom(_):
                    raise Boom()
                HOOK[0] = boom
            out = outcome(setattr, attrs, k, n) if access else outcome(
                attrs.__setitem__, k, n)
            HOOK[0] = None
            expect('attrs[%r] = ' % k, out, ('any',) if act == 'set'
                   else ('raise', Boom))
            data[k] = n
            want = [dict(data)]
        elif act == 'same':
            if k not in data:
                return 'skip'
            store[k] = data[k]
            want = [dict(data)]
        elif act in ('del', 'pop'):
            if act == 'del' and access:
                out = outcome(delattr, attrs, k)
                exc = AttributeError
            else:
                out = outcome(store.__delitem__ if act == 'del'
                              else store.pop, k)
                exc = KeyError
            if k not in data:
                expect(act, out, ('raise', exc))
            else:
                expect(act, out, ('any',))
                del data[k]
                want = [dict(data)]
        elif act == 'setdefault':
            out = outcome(store.setdefault, k, n)
            expect(act, out, ('ok', data.get(k, n)))
            if k not in data:
                data[k] = n
                want = [dict(data)]
        elif act == 'update':
            store.update([('x', n), ('y', n)])
            data['x'] = n
            want = [dict(data)]
            data['y'] = n
            want.append(dict(data))
        elif act == 'clear':
            store.clear()
            if len([r for r in RECORD if r[0] == 'modified']) != len(data) \
                    or len(RECORD) != len(data):
                fail('clearing %d attributes notified %r', len(data),
                     [r[0] for r in RECORD])
            for r in RECORD:
                if r[2] is not node:
                    fail('clearing notified for %r', r[2])
            data.clear()
            return
        compare(RECORD, [('modified', node, None, None, w) for w in want],
                self.cls, 'attribute %s' % act)

    def reads(self, s, p):
        node = s.nodes[p]
        list(node), len(node), node.keys(), node.values(), node.items()
        node.get('a'), node.get('nokey'), 'a' in node, 'nokey' in node
        node.path, node.root, node.parent, node.name, repr(node)
        outcome(node.__getitem__, 'nokey')
        outcome(node.__getitem__, 'a')
        list(node.iterkeys()), list(node.itervalues())
        node.treerepr()
        node.acquire(Interface)
        if hasattr(node, 'attrs'):
            node.attrs
            node.nodespaces
            outcome(node.nodespaces['__attrs__'].__getitem__, 'x')
            list(node.nodespaces['__attrs__'].items())
        if hasattr(node, 'index'):
            node.uuid
            node.node(node.uuid)
            node.uuid in node.index, node.index.get(1)
        if hasattr(node, 'first_key'):
            outcome(lambda: node.first_key)
            outcome(lambda: node.last_key)

    def check(self, s):
        del RECORD[:]
        super(Tree, self).check(s)
        for p in range(self.npool):
            self.reads(s, p)
            if self.attr:
                store = s.nodes[p].nodespaces.get('__attrs__') \
                    if '__attrs__' in s.nodes[p].nodespaces else {}
                if dict(store.items()) != s.attrs[p]:
                    fail('node%d has attributes %r, expected %r', p,
                         dict(store.items()), s.attrs[p])
        if RECORD:
            fail('reading notified %r', [r[0] for r in RECORD])


class Construction(Cases):
    """Creation notifications."""
    name = 'construction'

    def cases(self):
        for name in sorted(CLASSES):
            for args in ((), ('n',), ('n', True)):
                for kw in (False, True):
                    yield (name, args, kw)

    def run(self, case):
        name, args, kw = case
        cls = CLASSES[name][0]
        top = cls(name='top')
        args = [top if a is True else a for a in args]
        del RECORD[:]
        if kw:
            node = cls(**dict(zip(('name', 'parent'), args)))
        else:
            node = cls(*args)
        compare(RECORD, [('created', node, None, None, None)], cls,
                'construction')
        if RECORD[0][7] != (args[0] if args else None):
            fail('created notified before construction was complete: name %r',
                 RECORD[0][7])
        del RECORD[:]
        # subtrees: only the inserted node is added
        node['x'] = cls()
        node['x']['y'] = cls()
        del RECORD[:]
        top['sub'] = node
        compare(RECORD, [('added', node, top, 'sub', None)], cls,
                'inserting a subtree')
        del RECORD[:]
        del top['sub']
        compare(RECORD, [('removed', node, top, 'sub', None)], cls,
                'deleting a subtree')


class Moved(Cases):
    """Attributes handed over to another node notify for that one."""
    name = 'moved attributes'

    def cases(self):
        names = ('Inner', 'Outer', 'OrderAbove', 'Custom', 'SubOuter',
                 'Configured')
        for one in names:
            for other in names:
                for hold in ('kept', 'deleted', 'again', 'back', 'replaced'):
                    yield (one, other, hold)

    def run(self, case):
        one, other, hold = case
        a, b = CLASSES[one][0](name='a'), CLASSES[other][0](name='b')
        a.attrs
        attrs = a.nodespaces['__attrs__']
        attrs['x'] = 1
        if hold == 'again':
            b.attrs
            b.nodespaces['__attrs__']['y'] = 1
        if hold == 'deleted':
            del a['__attrs__']
        b['__attrs__'] = attrs
        if hold == 'back':
            a['__attrs__'] = attrs
        if hold == 'replaced':
            new = type(attrs)(name='__attrs__', parent=a)
            a['__attrs__'] = new
        owner = a if hold == 'back' else b
        cls = type(owner)
        self.notifies(owner, attrs, cls)
        if hold in ('deleted', 'replaced'):
            # the former owner has attributes of its own again
            a.attrs
            mine = a.nodespaces['__attrs__']
            if mine is attrs or len(mine):
                fail('attributes after handing them over: %r', mine)
            self.notifies(a, mine, type(a))
            if hold == 'replaced' and mine is not new:
                fail('replaced attributes are not used')

    def notifies(self, owner, attrs, cls):
        store = dict(attrs.items())
        if owner.attribute_access_for_attrs:
            acc = owner.attrs
            steps = [lambda: setattr(acc, 'n', 1), lambda: delattr(acc, 'n')]
        else:
            if owner.attrs is not attrs:
                fail('attrs of %r', owner)
            steps = [lambda: attrs.__setitem__('n', 1),
                     lambda: owner.attrs.__delitem__('n')]
        steps += [lambda: attrs.setdefault('m', 1), lambda: attrs.pop('m'),
                  lambda: attrs.update(x=7)]
        after = [dict(store, n=1), store, dict(store, m=1), store,
                 dict(store, x=7)]
        for n, (step, want) in enumerate(zip(steps, after)):
            del RECORD[:]
            step()
            compare(RECORD, [('modified', owner, None, None, want)], cls,
                    'attribute operation %d' % n)
        # events configured on the owner
        owner.events = dict(PerNode.mine)
        del RECORD[:]
        attrs['x'] = 8
        if [(r[1], r[2]) for r in RECORD] != [(MyModified, owner)]:
            fail('with own events: %r', RECORD)


class Meanwhile(Behavior):
    """Does something else while a child is inserted or removed."""

    @plumb
    def __setitem__(_next, self, key, value):
        _next(self, key, value)
        meanwhile(self)

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        meanwhile(self)


def meanwhile(node):
    todo = TODO[0]
    if todo is not None and node.name == 'main':
        TODO[0] = None
        todo()


TODO = [None]


@plumbing(Meanwhile, Nodespaces, Adopt, Attributes, Lifecycle, DefaultInit,
          Nodify, OdictStorage)
class HookOuter(object):
    attributes_factory = LifecycleAttributes


@plumbing(Lifecycle, Meanwhile, Nodespaces, Adopt, Attributes, Order,
          DefaultInit, Nodify, OdictStorage)
class HookMiddle(object):
    attributes_factory = LifecycleAttributes


@plumbing(Nodespaces, Adopt, Attributes, Lifecycle, Meanwhile, DefaultInit,
          Nodify, OdictStorage)
class HookInner(object):
    attributes_factory = LifecycleAttributes


class SubHook(HookOuter):
    pass


class Hooks(Cases):
    """Behaviors changing other containers during a change of one."""
    name = 'meanwhile'
    classes = {'HookOuter': HookOuter, 'HookMiddle': HookMiddle,
               'HookInner': HookInner, 'SubHook': SubHook, 'Inner': Inner}
    ways = ('set', 'setdefault', 'update', 'overwrite', 'del', 'pop',
            'popitem', 'detach', 'clear')
    others = ('set', 'overwrite', 'del', 'detach', 'attr', 'attrdel', 'create',
              'nested detach')

    def cases(self):
        for cls in ('HookOuter', 'HookMiddle', 'HookInner', 'SubHook'):
            for other in sorted(self.classes):
                for way in self.ways:
                    for what in self.others:
                        for failing in (False, True):
                            yield (cls, other, way, what, failing)

    def run(self, case):
        cls, other, way, what, failing = case
        cls, other = self.classes[cls], self.classes[other]
        box, kid, new = cls(name='main'), cls(), cls()
        box['k'] = kid
        trash, waste, inner = other(name='trash'), other(), other()
        trash['w'] = waste
        waste['i'] = inner
        trash.attrs['x'] = 1
        mine = other()
        want = []

        def todo():
            if what == 'set':
                trash['n'] = mine
                want.append(('added', mine, trash, 'n'))
            elif what == 'overwrite':
                trash['w'] = mine
                want.append(('added', mine, trash, 'w'))
            elif what == 'del':
                del trash['w']
                want.append(('removed', waste, trash, 'w'))
            elif what == 'detach':
                trash.detach('w')
                want.append(('detached', waste, trash, 'w'))
            elif what == 'nested detach':
                # children of the removed ones
                waste.detach('i')
                del trash['w']
                want.append(('detached', inner, waste, 'i'))
                want.append(('removed', waste, trash, 'w'))
            elif what == 'attr':
                trash.attrs['x'] = 2
                want.append(('modified', trash, None, None, {'x': 2}))
            elif what == 'attrdel':
                del trash.attrs['x']
                want.append(('modified', trash, None, None, {}))
            else:
                want.append(('created', other(name='made')))
            if failing:
                raise Boom()
        TODO[0] = todo
        del RECORD[:]
        steps = {
            'set': lambda: box.__setitem__('n', new),
            'setdefault': lambda: box.setdefault('n', new),
            'update': lambda: box.update([('n', new)]),
            'overwrite': lambda: box.__setitem__('k', new),
            'del': lambda: box.__delitem__('k'), 'pop': lambda: box.pop('k'),
            'popitem': box.popitem, 'detach': lambda: box.detach('k'),
            'clear': box.clear}
        out = outcome(steps[way])
        TODO[0] = None
        got = list(RECORD)
        del RECORD[:]
        if failing:
            expect(way, out, ('raise', Boom))
        else:
            expect(way, out, ('any',))
        if way in ('set', 'setdefault', 'update', 'overwrite'):
            me = ('added', new, box, 'k' if way == 'overwrite' else 'n')
        elif way == 'detach':
            me = ('detached', kid, box, 'k')
        else:
            me = ('removed', kid, box, 'k')
        kinds = [g[:1] + (getattr(g[2], 'name', None),) for g in got]
        rest = [g for g in got if not (g[0] == me[0] and g[2] is me[1])]
        if what == 'create':
            if [(g[0], g[2].name) for g in rest] != [('created', 'made')]:
                fail('%s and meanwhile %s notified %r', way, what, kinds)
        else:
            compare(rest, want, other, '%s meanwhile' % what)
        if len(got) - len(rest) > 1 or not failing and len(got) == len(rest):
            fail('%s and meanwhile %s notified %r', way, what, kinds)
        if len(got) != len(rest):
            compare([g for g in got if g not in rest], [me], cls, way)
        # later ones are as usual
        late = cls()
        del RECORD[:]
        box['z'] = late
        compare(RECORD, [('added', late, box, 'z')], cls, 'inserting later')
        del RECORD[:]
        trash['z'] = mine
        compare(RECORD, [('added', mine, trash, 'z')], other,
                'inserting later')
        del RECORD[:]
        box.detach('z')
        compare(RECORD, [('detached', late, box, 'z')], cls,
                'detaching later')


class PerNode(Cases):
    """Each container decides about its own event classes."""
    name = 'per-node'
    ways = ('set', 'update', 'setdefault', 'ifirst', 'iafter', 'attraccess',
            'del', 'pop', 'clear', 'detach', 'attr', 'attrdel', 'overwrite')
    mine = {'created': MyCreated, 'added': MyAdded, 'removed': MyRemoved,
            'modified': MyModified, 'detached': MyDetached}

    def cases(self):
        for name in ('Inner', 'Outer', 'OrderAbove', 'LifecycleFull', 'Cached',
                     'DictLifecycle', 'SubOuter', 'Custom', 'Configured'):
            for kinds in [()] + [(k,) for k in sorted(self.mine)] + [
                    tuple(sorted(self.mine))]:
                for which in ('container', 'child', 'both', 'other'):
                    for factory in (False, True):
                        for way in self.ways:
                            yield (name, kinds, which, factory, way)

    def run(self, case):
        name, kinds, which, factory, way = case
        cls, flags = CLASSES[name]
        if way in ('ifirst', 'iafter') and 'o' not in flags or \
                way in ('attr', 'attrdel') and 'a' not in flags or \
                way == 'attraccess' and \
                not hasattr(cls, 'as_attribute_access'):
            return 'skip'
        box, kid, new, other = [cls(name=n) for n in 'bkno']
        box['k'] = kid
        if way == 'attrdel':
            box.attrs
            box.nodespaces['__attrs__']['x'] = 1
        events = dict((k, event_class(cls, k)) for k in STOCK)
        for k in kinds:
            events[k] = self.wrapped(k) if factory else self.mine[k]
        want = dict((k, self.mine[k]) for k in kinds)
        for node, role in ((box, 'container'), (kid, 'child'),
                           (new, 'child'), (other, 'other')):
            if which == role or which == 'both' and role != 'other':
                node.events = events
        del RECORD[:]
        new.__name__ = 'n'
        access = getattr(box, 'attribute_access_for_attrs', False)
        kind, obj = 'added', new
        if way == 'set':
            box['n'] = new
        elif way == 'overwrite':
            box['k'] = new
        elif way == 'update':
            box.update([('n', new)])
        elif way == 'setdefault':
            box.setdefault('n', new)
        elif way == 'ifirst':
            box.insertfirst(new)
        elif way == 'iafter':
            box.insertafter(new, kid)
        elif way == 'attraccess':
            box.as_attribute_access().n = new
        elif way in ('attr', 'attrdel'):
            kind, obj = 'modified', box
            if way == 'attr' and access:
                box.attrs.x = 1
            elif way == 'attr':
                box.attrs['x'] = 1
            else:
                del box.attrs['x']
        else:
            kind, obj = 'removed', kid
            if way == 'del':
                del box['k']
            elif way == 'pop':
                box.pop('k')
            elif way == 'clear':
                box.clear()
            else:
                kind = 'detached'
                box.detach('k')
        if kind == 'modified' and name in ('LifecycleFull',):
            if RECORD:
                fail('notified %r', RECORD)
            return 'none'
        if len(RECORD) != 1 or RECORD[0][0] != kind or RECORD[0][2] is not obj:
            fail('%s notified %r', way, [r[:3] for r in RECORD])
        cls_ = want.get(kind) if which in ('container', 'both') else None
        cls_ = cls_ or event_class(cls, kind)
        if RECORD[0][1] is not cls_:
            fail('%s notified by %r, expected %r', way, RECORD[0][1], cls_)
        return kind

    def wrapped(self, kind):
        cls = self.mine[kind]

        def make(*args, **kw):
            return cls(*args, **kw)
        return make


class Presented(Behavior):
    """Children are handed out as something else, or are not readable."""
    blocked = False
    reads = None

    @plumb
    def __getitem__(_next, self, key):
        if self.reads is not None:
            self.reads.append(key)
        if self.blocked:
            raise Boom()
        return (_next(self, key),)


@plumbing(Presented, Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage)
class PresentedAbove(object):
    blocked = False
    reads = None


@plumbing(Lifecycle, Adopt, Presented, DefaultInit, Nodify, OdictStorage)
class PresentedBelow(object):
    blocked = False
    reads = None


@plumbing(NodeChildValidate, Adopt, Lifecycle, Presented, DefaultInit, Nodify,
          DictStorage)
class PresentedInner(object):
    blocked = False
    reads = None


class Unread(Cases):
    """What was inserted is told, not what is read afterwards."""
    name = 'inserted and read differ'
    classes = {'above': PresentedAbove, 'below': PresentedBelow,
               'inner': PresentedInner}

    def cases(self):
        for cls in sorted(self.classes):
            for blocked in (False, True):
                for way in ('set', 'update', 'overwrite', 'pairs'):
                    for kid in ('node', 'other', 'value'):
                        if kid == 'value' and cls == 'inner':
                            continue
                        yield (cls, blocked, way, kid)

    def run(self, case):
        name, blocked, way, kid = case
        cls = self.classes[name]
        box = cls(name='box')
        val = {'node': cls, 'other': zoo.BaseNode, 'value': Plain}[kid]()
        if way == 'overwrite':
            box['k'] = cls()
        box.blocked = blocked
        told = []

        def hook(event):
            told.append(event)
        HEARD.append(hook)
        try:
            del RECORD[:]
            if way in ('set', 'overwrite'):
                box['k'] = val
            elif way == 'update':
                box.update(k=val)
            else:
                box.update([('k', val)])
        finally:
            HEARD.remove(hook)
            del RECORD[:]
        added = [(e.object, e.newParent, e.newName) for e in told]
        if len(added) != 1 or added[0][0] is not val or \
                added[0][1] is not box or added[0][2] != 'k':
            fail('%s told %r', way, added)
        return kid


class AttributeValues(Cases):
    """Attributes holding anything."""
    name = 'attribute values'
    classes = ('Inner', 'Outer', 'OrderAbove', 'Custom', 'Configured',
               'SubOuter')
    kinds = ('node', 'lifecycle', 'child', 'moved', 'class', 'function',
             'none', 'unset', 'empty', 'list', 'dict', 'false', 'attrs',
             'event')

    def cases(self):
        for cls in self.classes:
            for one, two in itertools.product(self.kinds, repeat=2):
                for way in ('set', 'update', 'setdefault'):
                    yield (cls, one, two, way)

    def value(self, kind, box):
        return {
            'node': lambda: zoo.BaseNode(name='n'),
            'lifecycle': lambda: Inner(name='n'),
            'child': lambda: box['kid'], 'moved': lambda: box.other,
            'class': lambda: Inner, 'function': lambda: len,
            'none': lambda: None, 'unset': lambda: UNSET,
            'empty': lambda: '', 'list': lambda: [box], 'dict': dict,
            'false': lambda: False, 'attrs': lambda: zoo.Node().attrs,
            'event': lambda: NodeModifiedEvent(box)}[kind]()

    def run(self, case):
        name, one, two, way = case
        cls = CLASSES[name][0]
        box = cls(name='box')
        box['kid'] = cls()
        top = cls(name='top')
        box.other = top['k'] = cls()
        vals = [self.value(one, box), self.value(two, box)]
        attrs = box.attrs
        if isinstance(attrs, zoo_AttributeAccess):
            attrs = box.nodespaces['__attrs__']
        told = []
        HEARD.append(told.append)
        try:
            for n, val in enumerate(vals):
                for again in range(2):
                    del told[:]
                    fresh = 'k%d' % n not in attrs or way != 'setdefault'
                    if way == 'set':
                        attrs['k%d' % n] = val
                    elif way == 'update':
                        attrs.update([('k%d' % n, val)])
                    else:
                        attrs.setdefault('k%d' % n, val)
                    self.compare(told, box, cls, fresh)
                    if attrs['k%d' % n] is not val:
                        fail('attribute is %r', attrs['k%d' % n])
            for key, val in (('k1', vals[1]), ('k0', vals[0])):
                del told[:]
                if way == 'setdefault':
                    attrs.pop(key)
                else:
                    del attrs[key]
                self.compare(told, box, cls, True)
            del told[:]
        finally:
            HEARD.pop()

    def compare(self, told, box, cls, fresh):
        # nodes being created are told as well
        told = [e for e in told if not INodeCreatedEvent.providedBy(e)]
        if [(type(e), e.object) for e in told] != [
                (event_class(cls, 'modified'), box)] * fresh:
            fail('told %r', told)


class Plain(object):
    """No node at all."""


HEARD = []


def machine(name, depth, **kw):
    cls, flags = CLASSES[name]
    inserts = ['set', 'setdefault', 'update']
    if 'o' in flags:
        inserts = ['set', 'setdefault'] + list(ORDERED)
    opts = dict(
        cls=cls, inserts=tuple(inserts),
        removes=('del', 'pop', 'popd', 'popitem', 'clear', 'detach'),
        reference='r' in flags, attr='a' in flags, unordered='u' in flags,
        invalidate='i' in flags,
        validate='Validate' in str(cls.__dict__.get('__plumbing__', ())) or
        name in ('Inner', 'Outer', 'OrderAbove', 'Custom', 'SubOuter',
                 'Configured',
                 'LifecycleNode', 'LifecycleFull', 'Cached'),
        check_location=False, check_index=False)
    tag = kw.pop('tag', '')
    opts.update(kw)
    if opts['reference'] and tag == '-clash':
        opts['clash'] = ((2, 0),)
    return Tree('tree-%s%s' % (name, tag), cls, depth, **opts)


def tasks(tier):
    q = tier == 'quick'
    out = [Construction(), PerNode(), Moved(), Hooks(), Unread(),
           AttributeValues()]
    for name in CLASSES:
        main = name in ('Inner', 'Outer', 'Cached')
        out.append(machine(name, 2 if q else (4 if main else 3)))
        # starting with children in place
        two = (('set', 0, 'a', 1), ('set', 0, 'b', 2))
        out.append(machine(name, 2 if q else 3, setup=two, tag='-wide',
                           npool=4))
        deep = (('set', 0, 'a', 1), ('set', 1, 'b', 2))
        out.append(machine(name, 2 if q else 3, setup=deep, tag='-deep'))
        if 'o' not in CLASSES[name][1]:
            out.append(machine(name, 2 if q else 3, setup=two[:1],
                               tag='-renamed', rename=True))
        if 'r' in CLASSES[name][1]:
            out.append(machine(name, 2 if q else 3, tag='-clash'))
    return out
